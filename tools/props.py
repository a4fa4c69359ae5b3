PROPS = []
LEVEL_NOTES = {}
NOT_APPLICABLE = {}


def P(id, title, statement, over, qtext, why, files, mech, note,
      state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=x) for x in state]
    if observe:
        a['observe_at'] = observe
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=qtext),
                      why_tests_cant=why, anchors=a))
    LEVEL_NOTES[id] = note


P('C01', 'Training-phase state machine of a node',
  'Whatever sequence of public calls a user makes, a node runs each of its '
  'training phases exactly once and in order: training data always reach the '
  'currently open phase, closing a phase opens the next one, and executing or '
  'inverting closes an open last phase by itself. Calls that make no sense in '
  'the current state (training or closing after the last phase, closing an '
  'unstarted phase, executing or inverting with phases left, training an '
  'untrainable node, inverting a non-invertible one) are refused with their '
  'documented exception. Executing a completely untrained node first trains '
  'all its phases on that data.',
  ['histories', 'inputs', 'configurations'],
  'every call history, every number of phases, every shape of data',
  'a test walks a few histories; the guarantee is about all interleavings of '
  'train, stop, execute and inverse, including refused calls in the middle',
  ['mdp/signal_node.py'],
  [('train/stop_training/execute/inverse', 'mdp/signal_node.py:Node'),
   ('phase bookkeeping', 'mdp/signal_node.py:Node._if_training_stop_training'),
   ('untrained execution', 'mdp/signal_node.py:Node._pre_execution_checks')],
  'Bounded symbolic execution of the node base class driven through its '
  'public methods: operation choices and array shapes are solver variables; '
  'every history up to the stated length is covered, longer ones are not.',
  state=['Node._train_phase', 'Node._train_phase_started', 'Node._training'])

P('C02', 'Dimensions and numeric type are fixed once and enforced',
  'The input dimension, output dimension and numeric type of a node are fixed '
  'by the constructor, an explicit assignment or the first data, and never '
  'change afterwards: re-assigning a different value is refused. Execution, '
  'training and inversion accept exactly the non-empty rank-two arrays of '
  'the fixed dimension (a dimension-preserving node keeps both dimensions '
  'equal), hand the algorithm data cast to the fixed type, and a refused '
  'array never reaches the algorithm.',
  ['inputs', 'histories', 'configurations'],
  'every rank, shape and type of array and every order of assignments',
  'tests use a handful of concrete shapes; here shapes are unbounded integers '
  'and every combination of what is already fixed matters',
  ['mdp/signal_node.py'],
  [('input and output checks', 'mdp/signal_node.py:Node._check_input'),
   ('property setters', 'mdp/signal_node.py:Node.set_input_dim'),
   ('dimension preservation', 'mdp/signal_node.py:PreserveDimNode')],
  'Bounded symbolic execution with shape-only arrays whose rank and sizes are '
  'solver integers; histories of a few calls.',
  state=['Node._input_dim', 'Node._output_dim', 'Node._dtype'])

P('C04', 'Incremental covariance estimators equal their definitions',
  'However the observations are cut into chunks, the covariance, time-lagged '
  'covariance, cross-covariance and time-weighted (variable step, trapezoid) '
  'estimators return exactly the textbook mean, matrix and number of '
  'observations of the whole data under the selected normalisation and '
  'centring. After returning a result the estimator is empty and can be '
  'reused; the data handed in are never modified and may be overwritten '
  'between the updates; operations on a set of '
  'matrices (weighting, symmetrising, rotating, permuting, transforming) act '
  'on every matrix as the corresponding matrix formula.',
  ['inputs', 'histories'],
  'all real data, all chunkings, all flag combinations',
  'tests compare random data with tolerance on one or two chunkings; wrong '
  'normalisation terms vanish for centred data or large samples',
  ['mdp/utils/covariance.py'],
  [('incremental sums', 'mdp/utils/covariance.py:CovarianceMatrix'),
   ('lagged sums', 'mdp/utils/covariance.py:DelayCovarianceMatrix'),
   ('trapezoid rule', 'mdp/utils/covariance.py:VartimeCovarianceMatrix'),
   ('cross covariance', 'mdp/utils/covariance.py:CrossCovarianceMatrix'),
   ('matrix sets', 'mdp/utils/covariance.py:MultipleCovarianceMatrices')],
  'Symbolic data matrices (exact reals) of bounded size; identities are '
  'discharged by z3 for all values and every chunking of that size.')


P('C03', 'Learning does not depend on how the training data are chunked',
  'For nodes that learn from accumulated statistics (PCA, whitening, SFA and '
  'its variants on separate sequences, FDA, linear regression, ICA and factor '
  'analysis on cumulated data, histogram, cut-off, hit parade, classifiers), '
  'presenting the same observations to a training phase in one call or in any '
  'number of consecutive calls leads to the same learned state, the same '
  'outputs, and the same acceptance or refusal at the end of training. This '
  'includes labels given as a scalar, a list or an array for supervised '
  'nodes; training never modifies the data or labels handed in, and what '
  'happens to those arrays after a call to train (a refilled buffer, say) has '
  'no effect on what is learned.',
  ['inputs', 'histories', 'configurations'],
  'every data set, every way of cutting it into chunks (down to one '
  'observation per chunk), every supported form of the labels',
  'the tests train on one or two chunkings of one random data set and compare '
  'with tolerance; chunk boundaries matter at sizes nobody samples',
  ['mdp/nodes/pca_nodes.py', 'mdp/nodes/sfa_nodes.py',
   'mdp/nodes/fda_nodes.py', 'mdp/nodes/regression_nodes.py',
   'mdp/nodes/misc_nodes.py', 'mdp/nodes/classifier_nodes.py',
   'mdp/utils/covariance.py', 'mdp/signal_node.py'],
  [('accumulated moments', 'mdp/utils/covariance.py:CovarianceMatrix'),
   ('cumulator', 'mdp/signal_node.py:Cumulator'),
   ('labelled cumulator', 'mdp/classifier_node.py:ClassifierCumulator')],
  'Two copies of the real node trained symbolically on the same symbolic data, '
  'once whole and once chunked, are compared attribute by attribute; LAPACK '
  'calls are uninterpreted functions of their (exactly equal) arguments. '
  'Bounded number of samples, variables and chunks.')

P('C05', 'Execution treats every observation on its own and has no side effects',
  'Executing (labelling, inverting) a trained memoryless node on a batch gives, '
  'for every row, exactly what executing that row alone gives; the result has '
  'one row per observation and as many columns as the output dimension (an '
  'inverse: the input dimension). Executing twice gives the same result, the '
  'learned parameters are not changed by it, and the array handed in is never '
  'modified.',
  ['inputs', 'configurations'],
  'every batch, every value of the learned parameters',
  'a test sees one batch; aliasing, in-place updates and cross-row leakage '
  'show only for particular parameters or batch sizes',
  ['mdp/nodes', 'mdp/hinet/layer.py', 'mdp/hinet/switchboard.py'],
  [('execute dispatch', 'mdp/signal_node.py:Node.execute'),
   ('node algorithms', 'mdp/nodes:_execute'),
   ('inverse', 'mdp/nodes:_inverse')],
  'The learned parameters are symbolic, so every fitted state of the stated '
  'dimensions is covered at once; the batch is symbolic of bounded length.')

P('C16', 'Expansion nodes compute exactly the documented functions',
  'Polynomial and quadratic expansion output every monomial up to the chosen '
  'degree exactly once, ordered by degree with the linear terms first; the '
  'general expansion node outputs the concatenated results of its functions; '
  'the recursive expansion nodes output the products of the classical '
  'polynomials (Legendre, Hermite, Chebyshev and their rational variants) of '
  'the chosen degree; the radial basis nodes output the Gaussian with the '
  'given centres and sizes. The announced output dimension is the real one, '
  'a domain check accepts exactly the data inside the domain, and the '
  'normalising variant maps its training data into the domain.',
  ['inputs', 'configurations'],
  'every input vector, every degree and dimension up to the bound',
  'tests compare a few numbers at low degree or the column count only',
  ['mdp/nodes/expansion_nodes.py', 'mdp/nodes/recursive_expansion_nodes.py'],
  [('monomials', 'mdp/nodes/expansion_nodes.py:_ExpansionNode'),
   ('recursions', 'mdp/nodes/recursive_expansion_nodes.py:RecursiveExpansionNode'),
   ('radial basis', 'mdp/nodes/expansion_nodes.py:RBFExpansionNode')],
  'Polynomial identities over symbolic inputs decided by z3; degree and '
  'dimension bounded.')

P('C17', 'Time-window nodes place every sample where they should',
  'The time-frame node outputs for every window position the concatenation '
  'of the following frames at the chosen distance, and its pseudo-inverse '
  'rebuilds the original series; the delay node outputs the current sample '
  'followed by the delayed ones, zero before the start, for series of any '
  'length and also when the series is cut into consecutive calls for the '
  'sliding-window variant.',
  ['inputs', 'histories', 'configurations'],
  'every series, every frame count, gap and series length up to the bound',
  'tests use one shape; short series and gaps larger than one are not sampled',
  ['mdp/nodes/misc_nodes.py'],
  [('frames', 'mdp/nodes/misc_nodes.py:TimeFramesNode'),
   ('delays', 'mdp/nodes/misc_nodes.py:TimeDelayNode'),
   ('sliding window', 'mdp/nodes/misc_nodes.py:TimeDelaySlidingWindowNode')],
  'Symbolic series of bounded length; the placement of each element is an '
  'identity over all values.')

P('C24', 'Analysis nodes record exactly what the data contained',
  'The hit-parade node reports exactly the n largest and smallest values with '
  'their positions in the whole history, subject to the minimal gap; the '
  'cut-off node clips to its bounds and the adaptive one to the quantile '
  'bounds of its training data; the histogram node keeps every training '
  'sample exactly once (a random part of them if hist_fraction is below 1); the eta value is the scaled root of the mean squared '
  'increment; the noise node adds or multiplies exactly its noise.',
  ['inputs', 'histories', 'configurations'],
  'every series and every chunking',
  'tests plant a few extremes in random data; ties, gaps at chunk borders and '
  'short series are not sampled',
  ['mdp/nodes/misc_nodes.py'],
  [('hit parade', 'mdp/nodes/misc_nodes.py:HitParadeNode'),
   ('cut off', 'mdp/nodes/misc_nodes.py:AdaptiveCutoffNode'),
   ('eta', 'mdp/nodes/misc_nodes.py:EtaComputerNode'),
   ('noise', 'mdp/nodes/misc_nodes.py:NoiseNode')],
  'Symbolic series of bounded length; every ordering of the values is a '
  'branch decided by z3.')

P('C27', 'PCA, whitening, SFA and FDA solve their eigenvalue problems',
  'After training, PCA outputs are uncorrelated, ordered by decreasing '
  'variance equal to the stored eigenvalues, and the projection is '
  'orthonormal; the number of components kept is the requested one or the '
  'smallest reaching the requested fraction of variance, and the explained '
  'variance is that of the kept ones. Whitened data have identity '
  'covariance, SFA outputs have zero mean, unit variance and are ordered by '
  'slowness with the stored slowness values, and FDA outputs maximise the '
  'ratio of between-class to within-class variance.',
  ['inputs', 'configurations'],
  'every linear mixture (rotation, scaling, offset) of the reference signals',
  'tests train on random data and compare with tolerance one configuration; '
  'selection rules and normalisation differ only for particular spectra',
  ['mdp/nodes/pca_nodes.py', 'mdp/nodes/sfa_nodes.py',
   'mdp/nodes/fda_nodes.py', 'mdp/utils/covariance.py'],
  [('eigenvalue selection', 'mdp/nodes/pca_nodes.py:PCANode'),
   ('whitening', 'mdp/nodes/pca_nodes.py:WhiteningNode'),
   ('slowness', 'mdp/nodes/sfa_nodes.py:SFANode'),
   ('discriminants', 'mdp/nodes/fda_nodes.py:FDANode')],
  'Training data are symbolic rotations, scalings and shifts of reference '
  'signals, so that the decomposition is known in closed form; the trained '
  'outputs are then exact identities. LAPACK is assumed to meet its '
  'contract.')

P('C07', 'A flow is the composition of its nodes and behaves like a list',
  'Executing a flow (on an array or any iterable of arrays, completely or up '
  'to a given node) is the composition of its nodes in order and inverting it '
  'the composition of the inverses in reverse order; training gives every '
  'trainable node, phase by phase and in order, exactly its own data filtered '
  'through the already trained nodes before it, with the supervised '
  'arguments untouched, and leaves the last node closed. Missing, empty, '
  'unrepeatable or malformed data and wrong numbers of arguments are refused '
  'with a FlowException, a failing node is reported with its number and '
  'original exception. The list operations act as on a list of the same '
  'nodes; an operation that would make dimensions inconsistent is refused '
  'and leaves the flow unchanged.',
  ['inputs', 'histories', 'configurations'],
  'every combination of nodes, phases, kinds of training data, every data '
  'and every history of container operations up to the bound',
  'tests walk a few flows of identity-like nodes; combinations of phases, '
  'iterators and positions are not sampled',
  ['mdp/linear_flows.py'],
  [('training', 'mdp/linear_flows.py:Flow._train_node'),
   ('execution', 'mdp/linear_flows.py:Flow._execute_seq'),
   ('container', 'mdp/linear_flows.py:Flow.__setitem__')],
  'Nodes are arbitrary affine functions with symbolic coefficients, data are '
  'symbolic; the structure (kinds of data, phases, operations) is a solver '
  'choice up to the stated sizes.')

P('C09', 'Layers and flow nodes are compositions of their nodes',
  'A layer executes, inverts and trains every node on its own slice of the '
  'columns (a same-input layer: on all columns; a clone layer: one shared '
  'node on every block), with outputs concatenated in order; a flow node '
  'trains its nodes one after the other, phase by phase, each on the data '
  'filtered through the nodes before it, and executes and inverts their '
  'composition. The result, the number of training phases, the supervised '
  'arguments and the dimensions are those of training the nodes separately, '
  'also for untrained execution, partly trained nodes, nested structures and '
  'copies, and inconsistent nodes are refused.',
  ['inputs', 'histories', 'configurations'],
  'every data set, every node function, every combination of phases up to '
  'the bound',
  'tests check shapes, or compare one configuration of PCA nodes',
  ['mdp/hinet/layer.py', 'mdp/hinet/flownode.py'],
  [('slicing', 'mdp/hinet/layer.py:Layer'),
   ('clones', 'mdp/hinet/layer.py:CloneLayer'),
   ('shared input', 'mdp/hinet/layer.py:SameInputLayer'),
   ('flow as node', 'mdp/hinet/flownode.py:FlowNode')],
  'Node functions are arbitrary affine maps with symbolic matrices; twin '
  'nodes used on their own are the oracle; structure sizes are bounded.')

P('C10', 'Switchboards route every connection where their geometry says',
  'A switchboard copies each connected input to its output, refuses '
  'connections outside of the input, is invertible exactly for a permutation '
  '(its inverse then undoes it; the mean-inverse variant averages the '
  'connected outputs). The rectangular, double-rectangular and '
  'double-rhombic switchboards produce exactly the fields of their '
  'documented geometry, accept exactly the geometries that fit and cover '
  'their input, and report the matching channel counts and channel inputs; '
  'the factory extension builds switchboards that fit the previous layer.',
  ['inputs', 'configurations'],
  'every connection list and every geometry up to the bound, all data',
  'tests contain a dozen hand-written connection lists',
  ['mdp/hinet/switchboard.py', 'mdp/hinet/switchboard_factory.py',
   'bimdp/hinet/biswitchboard.py'],
  [('routing and inverse', 'mdp/hinet/switchboard.py:Switchboard'),
   ('rectangular fields', 'mdp/hinet/switchboard.py:Rectangular2dSwitchboard'),
   ('double cover', 'mdp/hinet/switchboard.py:DoubleRect2dSwitchboard'),
   ('rhombic fields', 'mdp/hinet/switchboard.py:DoubleRhomb2dSwitchboard')],
  'Connection lists and geometry parameters are solver integers, the data '
  'symbolic; the oracle is an independent geometric definition. Sizes '
  'bounded; the index arithmetic is shown for sizes up to 50.')

P('C15', 'Graphs stay consistent and the graph algorithms are correct',
  'After any sequence of edits (adding and removing nodes and edges, also '
  'self-loops and parallel edges, trees, full connections) the graph, its '
  'nodes and its edges agree about which edges exist, their ends and data, '
  'and the derived degrees and neighbours; removing a node removes exactly '
  'its edges. Depth-first and breadth-first traversal (directed or '
  'undirected) return exactly the reachable nodes once, starting at the '
  'root and in a genuine depth- or breadth-first order, calling the visitor '
  'in that order; connected components partition the nodes; topological '
  'sorting orders all nodes along the edges, and raises with the nodes it '
  'could sort exactly when there is a cycle.',
  ['inputs', 'histories'],
  'every multigraph and edit history up to the bound',
  'tests use one or two fixed graphs',
  ['mdp/graph/graph.py'],
  [('edits', 'mdp/graph/graph.py:Graph.remove_node'),
   ('traversal', 'mdp/graph/graph.py:Graph._dfs'),
   ('topological sort', 'mdp/graph/graph.py:Graph.topological_sort')],
  'Edges are solver variables; every multigraph of up to 4 nodes and every '
  'short edit history is a path of the symbolic execution of the real code.')


P('C11', 'Extensions override exactly what they register and leave no trace',
  'While extensions are active, every instance of a node class sees the '
  'nearest definition along its class hierarchy, the active extension '
  'overriding the original one of the same class, and the overridden '
  'definition stays available as _non_extension_<name>. Activating an '
  'extension that overrides the same attribute of the same class as an '
  'active one, or whose setup fails, raises and leaves everything else as '
  'it was; activating twice changes nothing; setup and teardown run once. '
  'Deactivating the extensions in any order, or leaving the context manager '
  'or decorated function (also by an exception), restores every class '
  'exactly, whatever the kind of the attribute.',
  ['histories', 'configurations'],
  'every subset of classes overridden, every order of activations and '
  'deactivations up to the bound',
  'tests activate one or two extensions in one order',
  ['mdp/extension.py'],
  [('activation', 'mdp/extension.py:activate_extension'),
   ('deactivation', 'mdp/extension.py:deactivate_extension'),
   ('context manager', 'mdp/extension.py:extension')],
  'Which classes define or override the attribute and the history of '
  'activations are solver variables; the oracle is a lookup along the class '
  'hierarchy. Class chains of 2 or 3, histories of 2 to 4 steps.')


P('C14', 'Schedulers run every task once with its callable in any timing',
  'For every interleaving of the threads or processes of a scheduler, each '
  'submitted task is executed exactly once, on a fork of its own of the '
  'callable given with it or else of the callable given or set last before '
  'it, and get_results waits for all tasks and hands out each result exactly '
  'once, in the order of submission (all of them in some order for the list '
  'container). There are never more tasks at once than threads or processes, '
  'the scheduler can be used again and shut down after get_results, and a '
  'task that is refused or fails in the caller leaves it usable.',
  ['inputs', 'interleavings', 'histories'],
  'every interleaving and every sequence of callables up to the bound, all '
  'task data',
  'tests run a few tasks in whatever order the operating system picks',
  ['mdp/parallel/scheduling.py', 'mdp/parallel/thread_schedule.py',
   'mdp/parallel/process_schedule.py'],
  [('sequential', 'mdp/parallel/scheduling.py:Scheduler'),
   ('threads', 'mdp/parallel/thread_schedule.py:ThreadScheduler'),
   ('processes and callable cache',
    'mdp/parallel/process_schedule.py:ProcessScheduler'),
   ('ordering', 'mdp/parallel/scheduling.py:OrderedResultContainer')],
  'Threads are run cooperatively and every switch (at locks, sleeps, pipes, '
  'thread start and end) is a decision of the solver-driven exploration; '
  'processes are the real worker loop behind modelled pipes. Bounded number '
  'of tasks and preemptions; no switches inside single statements.')


P('C12', 'Caching of execution never changes results',
  'While caching is on (for all nodes, for listed classes, for listed '
  'instances, or both lists), every execution of every node - alone, in a flow '
  'or in a layer - returns what it returns without caching and leaves node and '
  'data as an execution does, whatever happened before: other data, extra '
  'arguments, changed parameters, further nodes with equal state, results '
  'modified by the user, changes of the cache directory. Exactly the nodes that '
  'is_cached names are computed once per different node state and arguments '
  'and directory, from their first execution on. set_instance_cache adds and '
  'removes one instance; leaving the cache context (also by an error) or '
  'deactivate_caching switches everything off and forgets the lists.',
  ['inputs', 'histories', 'configurations'],
  'all data and parameters (equalities between them are decided by the '
  'solver), all histories of 3 operations (4 in the thorough check)',
  'tests execute one counting node twice on the same data',
  ['mdp/caching/caching_extension.py', 'mdp/extension.py'],
  [('cached execution',
    'mdp/caching/caching_extension.py:CacheExecuteExtensionNode.execute'),
   ('who is cached',
    'mdp/caching/caching_extension.py:CacheExecuteExtensionNode.is_cached'),
   ('on and off', 'mdp/caching/caching_extension.py:activate_caching')],
  'joblib.Memory is replaced by its contract: a stored result is returned '
  'exactly if the function was called in this directory with equal arguments, '
  'where equality of symbolic arguments is a branch. The hashing and the files '
  'of joblib itself are outside. One defect repaired: an instance that was '
  'added twice stayed cached when it was removed.')

P('C13', 'Parallel training and execution give what the serial flow gives',
  'Whatever the scheduler and the order in which the tasks finish, '
  'ParallelFlow.train leaves every node with what Flow.train on the same '
  'data teaches it, in every training phase, also when some nodes cannot be '
  'forked, are not trainable, partly trained, or inside flow nodes, layers '
  'and clone layers; forks of a node trained on one chunk each and joined '
  'give the node trained on all chunks; ParallelFlow.execute (with nodenr '
  'too) gives the output of Flow.execute in the order of the chunks, and '
  'nodes that ask for it join each executed fork exactly once. A list of '
  'schedulers is used one per node, and each is shut down. The extension is '
  'active only meanwhile. Checkpoints are called once, in order.',
  ['inputs', 'schedules', 'configurations'],
  'all data, every order of the tasks and kind of node up to the bound',
  'tests train one flow on random data in one order of completion',
  ['mdp/parallel/parallelflows.py', 'mdp/parallel/parallelnodes.py',
   'mdp/parallel/parallelhinet.py', 'mdp/parallel/parallelclassifiers.py'],
  [('training', 'mdp/parallel/parallelflows.py:ParallelFlow.train'),
   ('execution', 'mdp/parallel/parallelflows.py:ParallelFlow.execute'),
   ('fork and join', 'mdp/parallel/parallelnodes.py:ParallelExtensionNode'),
   ('hinet', 'mdp/parallel/parallelhinet.py:ParallelFlowNode')],
  'Data are symbolic, the completion order is a decision of the exploration, '
  'and the learned state is compared with that of the serial flow by the '
  'solver. Flows of up to 3 nodes and 3 chunks per phase.')


P('C08', 'Copies, saved nodes, checkpoints and crash dumps are true snapshots',
  'At any moment of its training, copy() of a node or flow, or save() with '
  'any protocol (to a file or a string) and unpickling, gives an independent '
  'object with the same state: it continues training and executes exactly '
  'like the original would, and neither changes the other. CheckpointFlow '
  'trains like Flow and calls each checkpoint once, in order, with its node, '
  'adding the returned dictionary to the flow; CheckpointSaveFunction writes '
  'the node as it is before or after its training is closed. When a node '
  'fails, the FlowException tells the node and its error, and with crash '
  'recovery (only then) the flow as it was is dumped, to the given file if '
  'any.',
  ['inputs', 'histories', 'crash_points'],
  'every moment of the training, protocol, way of saving and all data up to '
  'the bound',
  'tests copy or save a node once and execute it',
  ['mdp/signal_node.py', 'mdp/linear_flows.py', 'mdp/hinet/flownode.py'],
  [('nodes', 'mdp/signal_node.py:Node.save'),
   ('flows', 'mdp/linear_flows.py:Flow.save'),
   ('checkpoints', 'mdp/linear_flows.py:CheckpointFlow.train'),
   ('saved checkpoints', 'mdp/linear_flows.py:CheckpointSaveFunction'),
   ('crash dump', 'mdp/linear_flows.py:FlowExceptionCR')],
  'The moment, the way and the data are solver variables; twins nobody took '
  'a snapshot of are the oracle. Symbolic numbers go through the real pickle '
  'by reference. About 25 node classes, flows of up to 3 nodes.')


P('C18', 'BiNodes obey the message protocol and BiFlows route by target',
  'A BiNode takes from a message "method", "target" and its arguments; keys '
  '"id->key" win over plain keys, go only to the node of that id and are '
  'removed from the message, plain keys are passed on. The result, the '
  'message given on and the target are combined as documented (a result '
  'without target takes that of the message, "inverse" defaults to -1; a '
  'method with a msg argument replaces the message). A BiFlow visits the '
  'nodes that the targets (relative numbers, ids, exit) tell, refuses unknown '
  'targets with BiFlowException, resets the nodes after every chunk, joins '
  'the outputs and messages of the chunks, and leaves the messages of the '
  'caller alone. Training brings each chunk and stop message to its node in '
  'every phase, honouring the results of train and stop_training. '
  'Coroutines continue where they stopped until they end or are reset.',
  ['inputs', 'configurations', 'histories'],
  'every combination of message keys, results, targets and all data up to '
  'the bound',
  'tests run a few messages through a few flows',
  ['bimdp/binode.py', 'bimdp/biflow.py'],
  [('message parsing', 'bimdp/binode.py:BiNode._extract_method_args'),
   ('execution', 'bimdp/binode.py:BiNode.execute'),
   ('training', 'bimdp/binode.py:BiNode.train'),
   ('routing', 'bimdp/biflow.py:BiFlow._execute_seq'),
   ('flow training', 'bimdp/biflow.py:BiFlow._train_node_single_phase'),
   ('coroutines', 'bimdp/binode.py:binode_coroutine')],
  'Message contents and targets are decisions of the exploration, the data, '
  'message values and node functions are symbolic; a short interpreter of '
  'the documented protocol is the oracle.')


P('C19', 'Bidirectional switchboards, layers and flow nodes equal their parts',
  'A BiSwitchboard routes the data and exactly those message arrays that have '
  'its dimension as second axis, in both directions, like the switchboard of '
  'mdp.hinet with the same geometry. A BiFlow with (nested) BiFlowNodes visits '
  'the same nodes with the same data and messages, and learns the same, as the '
  'flow with their nodes in place: target ids, training results and stop '
  'messages reach the inner nodes from anywhere and results leave the '
  'BiFlowNode. A CloneBiLayer gives each node its part of the data and of the '
  'message arrays that can be split and joins the results, training one shared '
  'node with all parts in turn or one copy per part; "use_copies" (plain or '
  'node-specific key) switches between both without losing what was learned.',
  ['inputs', 'configurations', 'histories'],
  'every target, message, training and all data up to the bound',
  'tests run single examples',
  ['bimdp/hinet/biswitchboard.py', 'bimdp/hinet/biflownode.py',
   'bimdp/hinet/bilayer.py', 'bimdp/biflow.py'],
  [('switchboard', 'bimdp/hinet/biswitchboard.py:BiSwitchboard._execute_msg'),
   ('flow node', 'bimdp/hinet/biflownode.py:BiFlowNode._get_train_function'),
   ('layer', 'bimdp/hinet/bilayer.py:CloneBiLayer._execute'),
   ('splitting', 'bimdp/hinet/bilayer.py:CloneBiLayer._get_split_messages')],
  'Targets, messages and data are symbolic or decisions of the exploration; '
  'the oracle is the flat BiFlow (decided by C18) or one node per part. Not '
  'covered: a step back (-1) into a BiFlowNode, which enters it at its first '
  'node, and stop results of a BiFlowNode that is the last node of a BiFlow.')


P('C20', 'Classifiers answer as their definition on the training data says',
  'After training with labels given as list, tuple, array or single label, in '
  'any number of calls and whatever happens to the arrays afterwards: the '
  'nearest-mean classifier gives the label whose training mean is nearest; kNN '
  'the most frequent label among k nearest training points; the Gaussian '
  'classifier the posterior of normal densities with the means, covariances '
  'and frequencies of the classes, and the most probable label (a singular '
  'class is refused with NodeException); the perceptron follows the perceptron '
  'rule sample by sample; k-means the Lloyd iterations from its initial '
  'points up to max_iter or a fixed point, and labels by the nearest centroid; '
  'the Markov classifier the relative frequencies; the Hopfield classifier has '
  'Hebbian weights and ends in a fixed point without raising its energy; the '
  'signum classifier the sign of the sum. A wrong number of labels is refused. '
  'label, prob and rank agree (ranks are in order of probability, above an '
  'optional threshold), execute_method selects what execute returns, and a '
  'BiClassifier puts exactly the requested results into its message.',
  ['inputs', 'configurations', 'histories'],
  'all training data, arrangements of labels and points to classify up to the '
  'bound',
  'tests train on one or two random clouds with well separated classes',
  ['mdp/nodes/classifier_nodes.py', 'mdp/classifier_node.py',
   'bimdp/biclassifier.py'],
  [('base class', 'mdp/classifier_node.py:ClassifierNode'),
   ('nearest mean', 'mdp/nodes/classifier_nodes.py:NearestMeanClassifier'),
   ('kNN', 'mdp/nodes/classifier_nodes.py:KNNClassifier'),
   ('Gaussian', 'mdp/nodes/classifier_nodes.py:GaussianClassifier'),
   ('k-means', 'mdp/nodes/classifier_nodes.py:KMeansClassifier'),
   ('Hopfield', 'mdp/nodes/classifier_nodes.py:DiscreteHopfieldClassifier'),
   ('messages', 'bimdp/biclassifier.py:BiClassifier._execute')],
  'The definitions are evaluated on the same symbolic data; every order of the '
  'distances is a path. exp is an uninterpreted positive function.')


P('C28', 'Neural gas nodes follow the published learning rules and keep their graph sound',
  'For every history of samples, in whatever pieces, GrowingNeuralGasNode '
  'moves the nearest node by eps_b and its neighbours by eps_n towards the '
  'sample, adds the distance to the error of the nearest node, ages its edges, '
  'links the two nearest nodes with a fresh edge, drops edges older than '
  'max_age and the nodes they isolate, inserts every lambda_ samples (counted '
  'over all calls) up to max_nodes a node half way between the node of largest '
  'error and its worst neighbour with the documented errors, and decays all '
  'errors by d. NeuralGasNode shuffles the samples in each epoch, moves all '
  'nodes by epsilon exp(-rank/lambda), refreshes the edge of the two nearest, '
  'removes every edge that exceeds the lifetime, and decays epsilon, lambda '
  'and lifetime geometrically over the epochs of all calls. Start positions '
  'and data of the user are not changed, nearest_neighbor returns the nearest '
  'node and its distance.',
  ['inputs', 'configurations', 'histories'],
  'all data, start positions, learning rates and error factors; lifetimes 0-2, '
  'insertion every 1-3 samples',
  'tests look at the final position of two well separated clusters',
  ['mdp/nodes/neural_gas_nodes.py'],
  [('growing neural gas', 'mdp/nodes/neural_gas_nodes.py:GrowingNeuralGasNode'),
   ('neural gas', 'mdp/nodes/neural_gas_nodes.py:NeuralGasNode'),
   ('graph', 'mdp/graph/graph.py:Graph')],
  'A direct implementation of the rules on lists (nodes, edges with ages) is '
  'run next to the real node on symbolic samples; who is nearest and where a '
  'node is inserted are branches decided by the solver; positions, errors, '
  'edges and ages are compared after every call. Two defects repaired: the '
  'start positions of the user were moved with the nodes, and NeuralGasNode '
  'skipped the edge after each one it removed. exp is an uninterpreted '
  'function.')

P('C29', 'The gradient extension returns the Jacobian matrix',
  'With the extension "gradient" active, the gradient of a node (identity, '
  'SFA, SFA2, quadratic expansion, switchboards, and layers, clone layers, '
  'same-input layers and BiFlowNodes of these, plain or as BiNodes) at every '
  'point is the Jacobian matrix of its execute, as an array of shape (points, '
  'output_dim, input_dim). In a BiFlow executed with method "gradient", the '
  'result "grad" is the Jacobian matrix of the whole flow, wherever in the '
  'chain these nodes stand, and the output is that of a normal execution. '
  'Without the extension, or for a node without gradient, it is refused.',
  ['inputs', 'configurations'],
  'all points and parameters, chains of up to 3 nodes',
  'tests compare single nodes at a random point with fixed numbers',
  ['bimdp/nodes/gradient.py'],
  [('chain rule', 'bimdp/nodes/gradient.py:GradientExtensionNode._gradient'),
   ('SFA2', 'bimdp/nodes/gradient.py:_sfa2_grad'),
   ('layers', 'bimdp/nodes/gradient.py:_layer_grad')],
  'All these nodes are polynomials of degree at most two, so central '
  'differences of the real execute with symbolic points are the exact '
  'derivatives (five-point rule for chains of degree four).')


P('C30', 'A ParallelBiFlow trains and executes exactly as the serial BiFlow',
  'For any scheduler, order of completion and time at which forks are made, '
  'ParallelBiFlow.train with data, messages (also addressed to a node) and stop '
  'messages leaves every node with what BiFlow.train learns, also if nodes send '
  'their results to other nodes during training or stop_training, if some '
  'nodes cannot be forked, with nested BiFlowNodes and CloneBiLayers (single '
  'node or copies) and with one scheduler per node, each shut down; and '
  'execute with messages and targets returns the same output and message in '
  'the order of the chunks, or refuses alike; executed forks are joined once. '
  'ParallelCheckpointBiFlow calls each checkpoint once with its trained node. '
  'A layer of copies under the parallel extension can be switched to a single '
  'node during training without losing data. Messages of the caller keep '
  'their keys; missing data, data that cannot be repeated and callables '
  'without a scheduler are refused.',
  ['inputs', 'schedules', 'configurations'],
  'all data, message values and node parameters, all completion orders',
  'tests run flows of standard nodes without messages and only check that '
  'nothing is raised',
  ['bimdp/parallel/parallelbiflow.py', 'bimdp/parallel/parallelbihinet.py',
   'bimdp/hinet/biflownode.py'],
  [('training', 'bimdp/parallel/parallelbiflow.py:ParallelBiFlow.train'),
   ('results', 'bimdp/parallel/parallelbiflow.py:ParallelBiFlow.use_results'),
   ('layers', 'bimdp/parallel/parallelbihinet.py:ParallelCloneBiLayer')],
  'Twin flows of nodes with symbolic parameters are trained serially and in '
  'parallel. Switching a CloneBiLayer by a training message inside a task is '
  'not covered (what it means depends on the order of the chunks), nor real '
  'processes (deep copies of task and result instead).')

P('C23', 'Online flows, flow nodes and layers equal training their nodes by hand',
  'An OnlineNode learns from every call (sample by sample in incremental, all '
  'at once in batch mode, passing the data through its training phases), counts '
  'the samples, can be executed while in training (which trains it if it never '
  'was trained), and refuses training after stop_training. OnlineFlow.train '
  'trains its nodes in turn with each chunk, executing each node for the next, '
  'in every documented form of the data; an untrained offline node is only '
  'possible at the end. A CircularOnlineFlow does the same for any number of '
  'loops, with the given or the stored input, from its input to its output '
  'node. OnlineFlowNode, CircularOnlineFlowNode, OnlineLayer, CloneOnlineLayer '
  'and SameInputOnlineLayer have exactly the outputs, inverses, learned '
  'parameters, training types, iterations and states of doing this by hand. '
  'List operations leave exactly the list that results for the nodes, and the '
  'output node of a circular flow stays the same node unless it is removed; '
  'what does not fit is refused. A random number generator given to a '
  'composite reaches all its nodes.',
  ['inputs', 'histories', 'configurations'],
  'all data and parameters, histories and structures up to the bound',
  'tests run a few fixed flows once',
  ['mdp/signal_node_online.py', 'mdp/linear_flows_online.py',
   'mdp/hinet/flownode_online.py', 'mdp/hinet/layer_online.py'],
  [('online node', 'mdp/signal_node_online.py:OnlineNode.train'),
   ('online flow', 'mdp/linear_flows_online.py:OnlineFlow._train_nodes'),
   ('circular flow', 'mdp/linear_flows_online.py:CircularOnlineFlow'),
   ('flow node', 'mdp/hinet/flownode_online.py:OnlineFlowNode'),
   ('layers', 'mdp/hinet/layer_online.py:OnlineLayer')],
  'Nodes with symbolic linear learning rules log every call; twins are trained '
  'by hand. Not covered: an untrained offline node with several phases at the '
  'end of an OnlineFlow, and inserting one into an existing flow.')


P('C25', 'Incremental learners follow their update rules for every history',
  'After any samples in any number of calls: OnlineCenteringNode has the mean '
  'of all samples, or with avg_n the exponential moving average with factor '
  '2/(avg_n+1) that starts at the first sample, and subtracts (adds) it once '
  'it has seen two samples; OnlineTimeDiffNode returns the differences of '
  'successive samples; CCIPCANode follows the candid covariance-free rule '
  'v_j <- w1 v_j + w2 (r.v_j/|v_j|) r with deflated residual r and the '
  'documented amnesic weights, its variances are the lengths of the v_j, and '
  'CCIPCAWhiteningNode divides the directions by the root of these; MCANode '
  'follows v <- (1.5-eta)v - eta Cv (or with eta d^2) with eta = '
  'eps/(1+1.2j) and inflated covariance; IncSFANode is the chain of centering, '
  'whitening, time difference (not across the start of an episode or batch) '
  'and minor components, and its slow features are the product of both '
  'matrices. Initial vectors can be given or are 0.1 times normal numbers of '
  'numx_rng, and neither they nor the data are changed. Projection and '
  'reconstruction matrices and truncated execute and inverse belong to these '
  'vectors; batch training is refused where it is not supported.',
  ['inputs', 'histories', 'configurations'],
  'all samples, parameters and initial vectors, every arrangement of calls',
  'tests check convergence on one random data set',
  ['mdp/nodes/pca_nodes_online.py', 'mdp/nodes/mca_nodes_online.py',
   'mdp/nodes/stats_nodes_online.py', 'mdp/nodes/sfa_nodes_online.py'],
  [('centering', 'mdp/nodes/stats_nodes_online.py:OnlineCenteringNode._train'),
   ('differences', 'mdp/nodes/stats_nodes_online.py:OnlineTimeDiffNode'),
   ('CCIPCA', 'mdp/nodes/pca_nodes_online.py:CCIPCANode._train'),
   ('MCA', 'mdp/nodes/mca_nodes_online.py:MCANode._train'),
   ('IncSFA', 'mdp/nodes/sfa_nodes_online.py:IncSFANode._step_train')],
  'The rules are evaluated on the same symbolic data with opaque square roots '
  '(equal for equal arguments, positive); convergence is not claimed.')

P('C31', 'Singular covariance: rank-deficit solvers give exactly the supported components',
  'For a symmetric A and a positive semidefinite B of rank r with A zero '
  'where B is, symeig_semidefinite_pca, _svd and _reg return the r '
  'generalised eigenvalues e in ascending order and vectors E with '
  'E^T B E = 1 and E^T A E = diag(e) (reg up to its regularisation), also if '
  'some variables are constant at any position; range selects among them; '
  'dfc_out.rank_deficit is the number of missing components; types other '
  'than 1 are refused and A and B keep their values. An SFANode with '
  'rank_deficit_method pca, svd or auto, given at construction or later, '
  'recovers the slow signals up to sign with their delta values from '
  'redundant data and from data with constant variables; its output_dim is '
  'the number of components and its rank_deficit the number of missing ones; '
  'unknown methods are refused.',
  ['inputs', 'configurations'],
  'all eigenvalues and delta values, rotations from a set, every position of '
  'constant variables, all ranges',
  'tests use one random matrix with fixed blank columns and no constant '
  'covariance pattern that would expose a wrong selection',
  ['mdp/utils/symeig_semidefinite.py', 'mdp/nodes/sfa_nodes.py'],
  [('PCA-based', 'mdp/utils/symeig_semidefinite.py:symeig_semidefinite_pca'),
   ('SVD-based', 'mdp/utils/symeig_semidefinite.py:symeig_semidefinite_svd'),
   ('regularised', 'mdp/utils/symeig_semidefinite.py:symeig_semidefinite_reg'),
   ('constant variables',
    'mdp/utils/symeig_semidefinite.py:_find_blank_data_idx'),
   ('node', 'mdp/nodes/sfa_nodes.py:SFANode._stop_training')],
  'B and A are built from symbolic eigenvalues and chosen rotations, so LAPACK '
  'is replaced by the known decomposition. The LDL solver (LAPACK sytrf) and '
  'B = 0 are not covered.')

P('C32', 'Two-dimensional convolution nodes compute the documented convolution',
  'Convolution2DNode(filters, ...).execute(x) is, for every image (row) of x '
  'and every filter, the two-dimensional convolution in the requested mode '
  '(full, same as the input, only where the filter fits) with the requested '
  'continuation over the boundary (fillvalue, periodic, mirrored; zeros for '
  'the Fourier approach), each image for itself, images given flat '
  '(with input_shape) or not, results flat (all pixels of one filter after '
  'the other) or with one axis for filters and two for pixels. Dimensions, '
  'shapes and dtype are what results have; filters, boundary, fillvalue and '
  'form of the output can be changed between executions; data, filters and '
  'arguments that do not fit are refused and nothing is changed by it.',
  ['inputs', 'configurations'],
  'all real images and filters, all combinations of options within the bounds',
  'tests mostly use filters of one pixel',
  ['mdp/nodes/convolution_nodes.py'],
  [('checks and shapes', 'mdp/nodes/convolution_nodes.py:'
    'Convolution2DNode._pre_execution_checks'),
   ('convolution', 'mdp/nodes/convolution_nodes.py:'
    'Convolution2DNode._execute')],
  'The convolutions of scipy.signal are replaced by their definition in the '
  'symbolic runs and compared with it, for real, in the replays.')

P('C34', 'Independent component analysis nodes whiten, rotate and undo both',
  'An ICANode runs its algorithm (core) once, at the end of training, on all '
  'training data in order, whitened to the white_comp leading components '
  '(with the parameters white_parm), or as they are if whitened is set; in '
  'telescope mode on growing beginnings of the data until convergence '
  '(on all data if they are few), and keeps the last convergence. With the '
  'rotation found, execute is the whitened data times this rotation (unit '
  'covariance on the training data), inverse goes back (exactly, or to the '
  'kept components), and the projection and reconstruction matrices '
  '(transposed or not) are those of execute and inverse. Methods that need a '
  'trained node end training first; data are not changed.',
  ['inputs', 'configurations', 'histories'],
  'all scales, offsets and rotations, all convergence values',
  'tests look at the recovery of random sources by complete algorithms',
  ['mdp/nodes/ica_nodes.py'],
  [('training', 'mdp/nodes/ica_nodes.py:ICANode._stop_training'),
   ('matrices', 'mdp/nodes/ica_nodes.py:ProjectMatrixMixin')],
  'The algorithms themselves (fixed point and Jacobi iterations up to a '
  'threshold) are outside: core is any rotation. One defect repaired: '
  'telescope mode failed with less data than its first chunk.')

P('C33', 'GSFA: every training graph gives the averages over its nodes and edges',
  'GSFANode.train accumulates, for each training mode, the weighted sum, the '
  'second moments and the squared differences of exactly the documented graph: '
  'regular (consecutive samples), unlabeled, clustered (all pairs of a block, '
  'constant size or a list), serial (all pairs of consecutive blocks), mixed, '
  'classification and serial_regression (by labels, in any order), '
  'compact_classes, (f)window and (s)mirror_window of any half width, and '
  'graphs given by dict or array with any node and edge weights; total weights '
  'are those of the nodes and edges; modes in a list and successive calls add '
  'up; CovDCovMatrix sums are linear in the weights and fix() returns the '
  'averages. The trained node recovers the slow signals of a mixture with zero '
  'mean and unit variance (means over N), execute(x, n) gives the first n and '
  'inverse undoes execute. Unknown modes and inconsistent sizes are refused; '
  'inputs keep their values.',
  ['inputs', 'configurations', 'histories'],
  'all data, weights and edge weights; block sizes 1, 2 and 4, half widths up '
  'to 3',
  'tests compare pairs of modes on one random data set and check the mean of '
  'one graph',
  ['mdp/nodes/gsfa_nodes.py'],
  [('modes', 'mdp/nodes/gsfa_nodes.py:GSFANode._train'),
   ('graphs', 'mdp/nodes/gsfa_nodes.py:CovDCovMatrix'),
   ('training', 'mdp/nodes/gsfa_nodes.py:GSFANode._stop_training')],
  'The specification is the explicit graph (list of nodes and of edges with '
  'weights); the sums of the real code are compared with the sums over it for '
  'symbolic data, so that polynomial identities are decided by the solver. The '
  'smart_unlabeled modes (experimental), DualSerial and iGSFANode are not '
  'covered; block sizes whose inverse is not a binary fraction only within '
  'rounding, hence left out.')

P('C22', 'Utility routines compute their documented formulas',
  'rotate turns the two given columns in place counterclockwise (radians or '
  'degrees), permute swaps the given rows and/or columns in place, timediff, '
  'cov2, hermitian, mult_diag, mult, norm2, sqrtm (of a positive definite '
  'symmetric matrix), nongeneral_svd (ascending, range 1-based and '
  'inclusive), lrep, rrep, irep, comb and cov_maxima (the largest absolute '
  'value, then that of the rest without its row and column) compute these '
  'and leave their arguments alone; refcast copies only for another type. '
  'orthogonal_permutations yields every combination once, izip_stretched '
  'repeats what is not iterable and stops with the shortest iterable, '
  'weighted_choice returns the key in whose interval of the cumulated '
  '(normalised) weights the random number lies, bool_to_sign and '
  'sign_to_bool map False/True to -1/1 and back, gabor is the documented '
  'wavelet centred in the array by default, random_rot returns an orthogonal '
  'matrix with determinant one and symrand a symmetric matrix with the given '
  'eigenvalues. Memory sizes are printed with the right unit.',
  ['inputs', 'configurations'],
  'all matrices, angles, weights and draws up to the stated sizes',
  'tests check single examples of a few of these functions',
  ['mdp/utils/routines.py', 'mdp/utils/introspection.py'],
  [('rotations', 'mdp/utils/routines.py:random_rot'),
   ('cross covariance', 'mdp/utils/routines.py:cov2'),
   ('maxima', 'mdp/utils/routines.py:cov_maxima'),
   ('weighted draws', 'mdp/utils/routines.py:weighted_choice')],
  'Sine, cosine and exponential are uninterpreted (equal for equal '
  'arguments). The decompositions are given by construction.')

P('C21', 'Quadratic forms: value, extrema on a sphere, invariances, SFA2 units',
  'QuadraticForm(H, f, c).apply(x) is 1/2 xHx + fx + c for every row (f and c '
  'default to zero), a matrix that is not symmetric is refused and arguments '
  'are not changed. get_extrema(norm) without linear term returns vectors of '
  'this norm with the largest and smallest value; with a linear term the '
  'optimum inside the ball if the form is definite and its optimum is there, '
  'else (up to the tolerance for the norm) a vector on the sphere that '
  'satisfies (lambda - H)x = f with lambda not below any eigenvalue, that is '
  'a global maximum (minimum), also if H is singular, has repeated '
  'eigenvalues or f is orthogonal to its first eigenvector. '
  'get_invariances(x) returns orthonormal tangential directions at x and the '
  'second derivatives along them on the sphere, the smallest absolute value '
  'first. SFA2Node.get_quadratic_form(nr) is the component nr of execute.',
  ['inputs', 'configurations'],
  'all coefficients, eigenvalues, norms and tolerances within the bounds',
  'tests compare one random form with an approximate value',
  ['mdp/utils/quad_forms.py', 'mdp/nodes/sfa_nodes.py'],
  [('value', 'mdp/utils/quad_forms.py:QuadraticForm.apply'),
   ('extrema', 'mdp/utils/quad_forms.py:QuadraticForm.get_extrema'),
   ('invariances', 'mdp/utils/quad_forms.py:QuadraticForm.get_invariances'),
   ('units', 'mdp/nodes/sfa_nodes.py:SFA2Node.get_quadratic_form')],
  'For optima on the sphere H and the norm are taken from a set, the scale of '
  'f and the tolerance are symbolic (at least half the squared norm in the '
  'regular case, so that the bisection is short).')

P('C26', 'Regression, factor analysis and Boltzmann machines compute their models',
  'LinearRegressionNode: whatever the cuts of the training data, beta (the '
  'constant first if with_bias) satisfies the normal equations of the '
  'observations seen, execute predicts with it, an affine function is found '
  'exactly, redundant data are refused with a NodeException or, with '
  'use_pinv, give the minimal solution; targets of another number or '
  'dimension are refused. FANode: loadings, noise variances, mean and '
  'log-likelihoods are those of the EM cycles for the biased covariance of '
  'the data, started from one normal matrix scaled by det(C)^(1/2d)/sqrt(k), '
  'stopped by tol or max_cycles; execute is the posterior mean of the '
  'factors; generate_input is y A^T + mu plus noise of the given variances '
  'if asked for; a singular covariance is refused. RBMNode and '
  'RBMWithLabelsNode: hidden and visible units are on with probability '
  'sigmoid(bias + weights * other layer), labels are drawn from the softmax, '
  'energy is -v bv - h bh - v w h, and each train call is the contrastive '
  'divergence update with n_updates, epsilon, decay, momentum and '
  'update_with_ph as documented (labels of the model are probabilities), '
  'leaving the data alone.',
  ['inputs', 'configurations'],
  'all data, parameters, random draws and chunkings within the bounds',
  'tests check a few fixed examples with tolerances or average energies',
  ['mdp/nodes/regression_nodes.py', 'mdp/nodes/em_nodes.py',
   'mdp/nodes/rbm_nodes.py'],
  [('regression', 'mdp/nodes/regression_nodes.py:LinearRegressionNode'),
   ('EM cycles', 'mdp/nodes/em_nodes.py:FANode._stop_training'),
   ('generation', 'mdp/nodes/em_nodes.py:FANode.generate_input'),
   ('contrastive divergence', 'mdp/nodes/rbm_nodes.py:RBMNode._train'),
   ('labels', 'mdp/nodes/rbm_nodes.py:RBMWithLabelsNode._sample_v')],
  'exp and log are uninterpreted, inverses in the EM cycles are arbitrary '
  'matrices (equal for equal arguments), so the algebra around them is '
  'decided for every value.')
