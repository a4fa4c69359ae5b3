"""C15: graph structure stays consistent and the graph algorithms are right."""
from symx import lib

BOUNDS = ('every directed multigraph of up to 4 nodes (self-loops up to 3 '
          'nodes, double edges up to 2); edit histories of up to 5 '
          'operations; trees of depth 3')


def H(name, fn, **o):
    return (name, fn, o)


def build(S, n, loops=True, multi=1):
    import mdp
    g = mdp.graph.Graph()
    nodes = g.add_nodes(list(range(n)))
    adj = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j and not loops:
                continue
            k = int(S.int('e%d%d' % (i, j), 0, multi))
            adj[i][j] = k
            for _ in range(k):
                g.add_edge(nodes[i], nodes[j])
    return g, nodes, adj


def reach(adj, i):
    n = len(adj)
    seen, todo = {i: 0}, [i]
    while todo:
        a = todo.pop(0)
        for b in range(n):
            if adj[a][b] and b not in seen:
                seen[b] = seen[a] + 1
                todo.append(b)
    return seen


def sym_adj(adj):
    n = len(adj)
    return [[adj[i][j] or adj[j][i] for j in range(n)] for i in range(n)]


def valid_dfs(adj, order):
    stack, seen = [order[0]], {order[0]}
    for v in order[1:]:
        while stack and all(not adj[stack[-1]][w] or w in seen
                            for w in range(len(adj))):
            stack.pop()
        if not stack or not adj[stack[-1]][v] or v in seen:
            return False
        seen.add(v)
        stack.append(v)
    return True


def algo_h(n, loops, multi=1):
    def f(S):
        import mdp
        g, nodes, adj = build(S, n, loops, multi)
        und = sym_adj(adj)
        for a, tag, A_ in ((g.dfs, 'dfs', adj), (g.bfs, 'bfs', adj),
                           (g.undirected_dfs, 'dfs', und),
                           (g.undirected_bfs, 'bfs', und)):
            for r in range(n):
                seen = []
                out = [x.data for x in a(nodes[r])]
                v = [x.data for x in a(nodes[r], seen.append) and seen]
                want = reach(A_, r)
                S.check(sorted(out) == sorted(want), '%s visits exactly the '
                        'reachable nodes, once' % tag)
                S.check(out == v, '%s calls the visitor in order' % tag)
                S.check(out[0] == r, 'starts at the root')
                if tag == 'bfs':
                    d = [want[x] for x in out]
                    S.check(d == sorted(d), 'breadth first')
                else:
                    S.check(valid_dfs(A_, out), 'depth first')
        comps = [sorted(x.data for x in c) for c in g.connected_components()]
        S.check(sorted(x for c in comps for x in c) == list(range(n)) and all(
            sorted(reach(und, c[0])) == c for c in comps), 'components')
        S.check(g.is_weakly_connected() == (len(comps) == 1), 'connected')
        cyc = any(adj[i][j] and i in reach(adj, j)
                  for i in range(n) for j in range(n))
        try:
            order = [x.data for x in g.topological_sort()]
            S.check(not cyc, 'a cycle is reported')
            S.check(sorted(order) == list(range(n)), 'all nodes once')
            pos = dict((x, i) for i, x in enumerate(order))
            S.check(all(pos[i] < pos[j] for i in range(n) for j in range(n)
                        if adj[i][j]), 'edges point forward')
            S.reach('dag')
        except mdp.graph.GraphTopologicalException as e:
            S.check(cyc, 'a graph without cycle is sorted')
            got = sorted(x.data for x in e.args[0])
            blocked = [j for j in range(n) if any(
                i in reach(adj, k) and j in reach(adj, i)
                for i in range(n) for k in range(n) if adj[i][k])]
            S.check(got == [x for x in range(n) if x not in blocked],
                    'the nodes that could be sorted are reported')
            S.reach('cycle')
    return f


def invariant(S, g, nodes, edges):
    """nodes: list of live nodes; edges: list of (edge, head, tail)"""
    S.check(len(g.nodes) == len(nodes) and
            all(a is b for a, b in zip(g.nodes, nodes)), 'nodes')
    S.check(len(g.edges) == len(edges) and
            all(any(e is x for x in g.edges) for e, h, t in edges), 'edges')
    for e, h, t in edges:
        S.check(e.get_head() is h and e.get_tail() is t and
                e.get_ends() == (h, t), 'ends of an edge')
    for v in nodes:
        out = [e for e, h, t in edges if h is v]
        inn = [e for e, h, t in edges if t is v]
        S.check(v.get_edges_out() == out, 'outgoing edges')
        S.check(v.get_edges_in() == inn, 'incoming edges')
        S.check(v.get_edges() == inn + out, 'edges of a node')
        S.check(v.out_neighbors() == [t for e, h, t in edges if h is v],
                'out neighbours')
        S.check(v.in_neighbors() == [h for e, h, t in edges if t is v],
                'in neighbours')
        S.check(v.neighbors() == v.in_neighbors() + v.out_neighbors(),
                'neighbours')
        S.check((v.in_degree(), v.out_degree(), v.degree()) ==
                (len(inn), len(out), len(inn) + len(out)), 'degrees')
        for w in nodes:
            S.check(v.get_edges_out(to_=w) ==
                    [e for e, h, t in edges if h is v and t is w],
                    'edges to a neighbour')
            S.check(v.get_edges_in(from_=w) ==
                    [e for e, h, t in edges if t is v and h is w],
                    'edges from a neighbour')
            S.check(v.get_edges(w) == v.get_edges_in(w) + v.get_edges_out(w),
                    'edges with a neighbour')


def edit_h(L, first):
    def f(S):
        import mdp
        g = mdp.graph.Graph()
        nodes, edges = [], []
        for k in range(2):
            nodes.append(g.add_node(k))
        for step in range(L):
            op = first if not step else S.choose(
                'op%d' % step, ['edge', 'rmedge', 'rmnode', 'node'])
            if op == 'node':
                v = g.add_node('n%d' % step)
                S.check(v.data == 'n%d' % step, 'data of a node')
                nodes.append(v)
            elif op == 'edge':
                if not nodes:
                    return
                h = S.choose('h%d' % step, nodes)
                t = S.choose('t%d' % step, nodes)
                e = g.add_edge(h, t, data=step)
                S.check(e.data == step, 'data of an edge')
                edges.append((e, h, t))
            elif op == 'rmedge':
                if not edges:
                    continue
                x = S.choose('e%d' % step, edges)
                g.remove_edge(x[0])
                edges = [y for y in edges if y is not x]
            elif op == 'rmnode':
                if not nodes:
                    continue
                v = S.choose('v%d' % step, nodes)
                g.remove_node(v)
                nodes = [y for y in nodes if y is not v]
                edges = [y for y in edges if y[1] is not v and y[2] is not v]
                S.must_raise(mdp.graph.GraphException, 'a removed node is '
                             'unknown', g.remove_node, v)
            invariant(S, g, nodes, edges)
        S.reach('end')
    return f


def populate_h():
    def f(S):
        import mdp
        g = mdp.graph.Graph()
        k = S.choose('kind', ['count', 'data', 'tree', 'full'])
        if k == 'count':
            n = int(S.int('n', 0, 4))
            ns = g.add_nodes(n)
            S.check(len(ns) == n and all(x.data is None for x in ns),
                    'nodes without data')
            invariant(S, g, ns, [])
        elif k == 'data':
            d = S.choose('d', [[], ['a'], ('a', 'b', 'a')])
            ns = g.add_nodes(d)
            S.check([x.data for x in ns] == list(d), 'data of the nodes')
            invariant(S, g, ns, [])
        elif k == 'full':
            a, b = g.add_nodes(2), g.add_nodes(int(S.int('m', 0, 3)))
            new = a + b
            b = S.choose('common', [[], a[:1], a[1:], a[::-1]]) + b
            es = g.add_full_connectivity(a, b)
            S.check(len(es) == 2, 'one list per source')
            ends = [[e.get_ends() for e in r] for r in es]
            S.check(ends == [[(x, y) for y in b] for x in a],
                    'full connectivity')
            invariant(S, g, new, [(e,) + e.get_ends() for r in es
                                    for e in r])
        else:
            cnt = [0]

            def mk(depth):
                """a random tree (root, child, ...)"""
                cnt[0] += 1
                me = 't%d' % cnt[0]
                c = int(S.int('c%s' % me, 0, 2)) if depth else 0
                if not c:
                    return me
                return (me,) + tuple(mk(depth - 1) for _ in range(c))
            t = mk(2)
            if not isinstance(t, tuple):
                t = (t,)
            res = g.add_tree(t)

            def flat(t, r, parent):
                if not isinstance(t, tuple):
                    S.check(r.data == t, 'data in the tree')
                    rows.append((r, parent))
                    return
                S.check(r[0].data == t[0], 'data in the tree')
                rows.append((r[0], parent))
                S.check(len(t) == len(r), 'shape of the tree')
                for a, b in zip(t[1:], r[1:]):
                    flat(a, b, r[0])
            rows = []
            flat(t, res, None)
            S.check(len(g.nodes) == len(rows), 'number of nodes')
            S.check(len(g.edges) == len(rows) - 1, 'number of edges')
            for v, p in rows:
                S.check(v.in_neighbors() == ([p] if p is not None else []),
                        'parent in the tree')
            S.check([x.data for x in g.topological_sort()][0] == rows[0][0]
                    .data, 'root first')
        S.reach('end')
    return f


def harnesses(tier):
    hs = [H('algo/1', algo_h(1, True), reach=['dag', 'cycle']),
          H('algo/2', algo_h(2, True, 2), reach=['dag', 'cycle'],
            validate=10),
          H('algo/3', algo_h(3, True), reach=['dag', 'cycle'], validate=10,
            max_paths=5000, weight=2),
          H('algo/4', algo_h(4, False), reach=['dag', 'cycle'],
            validate=10, max_paths=10000, weight=5),
          H('populate', populate_h(), reach=['end'], validate=20)]
    L = 4 if tier == 'quick' else 5
    for op in ('edge', 'node', 'rmnode'):
        hs.append(H('edit/%s' % op, edit_h(L if op == 'edge' else L - 1, op), reach=['end'],
                    validate=10, max_paths=100000, weight=3))
    return hs
