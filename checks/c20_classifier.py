"""C20: classifiers assign the labels, probabilities and ranks that follow
from the training data by their definition."""
import itertools

from symx import lib

BOUNDS = ('2-4 training samples of 1-2 variables in 1-2 chunks, 2-3 labels '
          'in any arrangement, 1-2 samples to classify, 3 binary patterns of '
          '3 bits, all data')
ASSUMPTIONS = ['exp is an unknown positive function with exp(0)=1',
               'where two candidates are exactly equally good, either may win']


def H(name, fn, **o):
    return (name, fn, o)


def sq(a, b):
    r = 0
    for p, q in zip(a, b):
        r = r + (p - q) * (p - q)
    return r


FORMS = ['list', 'tuple', 'array', 'scalar']


def avg(l):
    return sum(l) / len(l)


def feed(S, node, xs, labels, sizes, poison=True, forms=FORMS):
    """train in chunks, the labels in any form; the arrays are overwritten
    afterwards"""
    import numpy
    i = 0
    for k, n in enumerate(sizes):
        x = S.np.array(xs[i:i + n])
        l = list(labels[i:i + n])
        same = all(q == l[0] for q in l)
        form = S.choose('form%d' % k, [f for f in forms
                                       if same or f != 'scalar'])
        given = {'list': l, 'tuple': tuple(l), 'array': numpy.array(l),
                 'scalar': l[0]}[form]
        node.train(x, given)
        if poison:
            x *= 0
            x -= 77
            if form == 'list':
                given[:] = [None] * n
            elif form == 'array':
                given[...] = given[0]
        i += n
    node.stop_training()


def arrangement(S, n, kind='int'):
    names = {'int': [3, 1, 2], 'str': ['b', 'a', 'c'],
             'sign': [1, -1]}[kind]
    opts = [p for p in itertools.product(range(len(names)), repeat=n)
            if p[0] == 0 and all(q <= max(p[:i]) + 1
                                 for i, q in enumerate(p) if i)]
    if kind == 'sign':
        opts = list(itertools.product(range(2), repeat=n))
    p = S.choose('labels', opts)
    return [names[q] for q in p]


def train_xs(S, n, d):
    x = S.array('x', (n, d))
    return x


def refuses(S, node, x):
    """the wrong number of labels is refused"""
    import mdp
    for bad in ([1] * (x.shape[0] + 1), (1,) * (x.shape[0] - 1)):
        S.must_raise(mdp.TrainingException, 'number of labels',
                     node.train, x, bad)


def best(S, label, scores, msg):
    """label has the smallest score"""
    mine = scores[label]
    for k, s in scores.items():
        S.check(mine <= s, msg)


def nearest_mean_h(n, d, kind, sizes):
    def f(S):
        import mdp
        node = mdp.nodes.NearestMeanClassifier()
        labels = arrangement(S, n, kind)
        x = train_xs(S, n, d)
        refuses(S, mdp.nodes.NearestMeanClassifier(), x)
        feed(S, node, x, labels, sizes)
        z = S.array('z', (2 if d == 1 else 1, d))
        got = node.label(z)
        means = {}
        for l in set(labels):
            rows = [x[i] for i in range(n) if labels[i] == l]
            means[l] = [avg([r[j] for r in rows]) for j in range(d)]
            S.eq(node.label_means[l], S.np.array(means[l]),
                 'the mean of the class')
        S.check(len(got) == z.shape[0], 'one label per sample')
        for i in range(z.shape[0]):
            S.check(got[i] in means, 'a label of the training')
            best(S, got[i], {l: sq(z[i], means[l]) for l in means},
                 'the class with the nearest mean')
        S.eq(node.execute(z), z, 'execute returns the data')
        S.reach('end')
    return f


def knn_h(n, d, k, kind, sizes):
    def f(S):
        import mdp
        node = mdp.nodes.KNNClassifier(k=k)
        labels = arrangement(S, n, kind)
        x = train_xs(S, n, d)
        refuses(S, mdp.nodes.KNNClassifier(), x)
        feed(S, node, x, labels, sizes)
        z = S.array('z', (1, d))
        got = node.label(z)
        S.check(len(got) == 1, 'one label per sample')
        ds = [sq(x[i], z[0]) for i in range(n)]
        # there is a choice of the k nearest in which the label wins
        alt = []
        for near in itertools.combinations(range(n), min(k, n)):
            far = [i for i in range(n) if i not in near]
            cnt = {}
            for i in near:
                cnt[labels[i]] = cnt.get(labels[i], 0) + 1
            if cnt.get(got[0], 0) != max(cnt.values()):
                continue
            alt.append(S.all([ds[i] <= ds[j] for i in near for j in far]))
        S.check(S.any(alt), 'the majority of the k nearest samples')
        S.check(node.n_samples == n, 'n_samples')
        S.reach('end')
    return f


def perceptron_h(n, d, sizes):
    def f(S):
        import mdp
        node = mdp.nodes.PerceptronClassifier()
        labels = arrangement(S, n, 'sign')
        x = train_xs(S, n, d)
        node.learning_rate = S.real('rate')
        for bad in ([2] * n, 0, [0] * n):
            S.must_raise(mdp.TrainingException, 'labels are -1 or 1',
                         mdp.nodes.PerceptronClassifier().train, x, bad)
        feed(S, node, x, labels, sizes, forms=['array', 'scalar'])
        w, b = [1] * d, 0

        def sign(v):
            if v > 0:
                return 1
            return -1 if v < 0 else 0
        for i in range(n):
            v = b
            for j in range(d):
                v = v + w[j] * x[i, j]
            r = node.learning_rate * (labels[i] - sign(v))
            w = [w[j] + r * x[i, j] for j in range(d)]
            b = b + r
        S.eq(node.weights, S.np.array(w), 'perceptron rule')
        S.eq(node.offset_weight, b, 'perceptron rule, offset')
        z = S.array('z', (1, d))
        v = b
        for j in range(d):
            v = v + w[j] * z[0, j]
        S.eq(node.label(z)[0], sign(v), 'label')
        S.reach('end')
    return f


def signum_h():
    def f(S):
        import mdp
        dt = S.choose('dtype', ['d', 'i'])
        z = S.array('z', (2, 2), dtype=dt)
        got = mdp.nodes.SignumClassifier().label(z)
        for i in range(2):
            s = z[i, 0] + z[i, 1]
            S.check(S.all([S.implies(s > 0, got[i] == 1),
                           S.implies(s < 0, got[i] == -1),
                           S.implies(s == 0, got[i] == 0)]), 'sign of the sum')
        S.reach('end')
    return f


def gaussian_h(n, d, kind, sizes):
    def f(S):
        import mdp
        import math
        node = mdp.nodes.GaussianClassifier()
        labels = arrangement(S, n, kind)
        cls = sorted(set(labels))
        if any(labels.count(l) < d + 1 for l in cls):
            return
        x = train_xs(S, n, d)
        refuses(S, mdp.nodes.GaussianClassifier(), x)
        covs, means = {}, {}
        for l in cls:
            rows = [x[i] for i in range(n) if labels[i] == l]
            cols = [[r[j] for r in rows] for j in range(d)]
            means[l] = [avg(c) for c in cols]
            c = len(rows)
            covs[l] = [[sum([(p - means[l][i]) * (q - means[l][j])
                             for p, q in zip(cols[i], cols[j])]) / (c - 1)
                        for j in range(d)] for i in range(d)]
            det = covs[l][0][0] if d == 1 else (
                covs[l][0][0] * covs[l][1][1] - covs[l][0][1] ** 2)
            if det == 0:
                S.must_raise(mdp.NodeException, 'a singular class is refused',
                             lambda: feed(S, node, x, labels, sizes,
                                          forms=['list']))
                S.reach('singular')
                return
        feed(S, node, x, labels, sizes, forms=['array', 'scalar'])
        S.check(list(node.labels) == cls, 'labels')
        z = S.array('z', (1, d))
        score = {}
        for l in cls:
            dev = [z[0, j] - means[l][j] for j in range(d)]
            c = covs[l]
            if d == 1:
                det = c[0][0]
                q = dev[0] * dev[0] / det
            else:
                det = c[0][0] * c[1][1] - c[0][1] * c[1][0]
                q = (dev[0] * dev[0] * c[1][1] - 2 * dev[0] * dev[1] *
                     c[0][1] + dev[1] * dev[1] * c[0][0]) / det
            prior = S.const(labels.count(l)) / n
            # what is common to all classes cancels
            score[l] = prior * S.np.exp(-q / 2) / S.np.sqrt(det)
        tot = sum(score.values())
        p = node.prob(z)
        S.check(len(p) == 1 and sorted(p[0]) == cls, 'a probability per label')
        for l in cls:
            S.eq(p[0][l] * tot, score[l], 'posterior of the class')
        got = node.label(z)
        best(S, got[0], {l: -p[0][l] for l in cls}, 'the most probable label')
        S.reach('end')
    return f


def gaussian_single_h():
    """one class has probability one"""
    def f(S):
        import mdp
        node = mdp.nodes.GaussianClassifier()
        x = S.array('x', (2, 1))
        S.assume(x[0, 0] != x[1, 0])
        node.train(x, S.choose('l', ['a', 5]))
        z = S.array('z', (2, 1))
        p = node.prob(z)
        for q in p:
            S.eq(list(q.values())[0], 1, 'the only class')
        S.reach('end')
    return f


def kmeans_h(n, d, k, iters, sizes):
    def f(S):
        import random
        import mdp
        node = mdp.nodes.KMeansClassifier(k, max_iter=iters)
        x = train_xs(S, n, d)
        start = S.choose('start', list(itertools.permutations(range(n), k))
                         if d > 1 else
                         list(itertools.combinations(range(n), k)))
        S.patch(random, 'sample', lambda pop, m: list(start)[:m])
        i = 0
        for s in sizes:
            c = S.np.array(x[i:i + s])
            node.train(c)
            c *= 0
            i += s
        node.stop_training()
        cen = [list(x[i]) for i in start]

        def near(p, cen):
            b = 0
            for j in range(1, k):
                if sq(p, cen[j]) < sq(p, cen[b]):
                    b = j
            return b
        for it in range(iters):
            who = [near(x[i], cen) for i in range(n)]
            new = []
            for j in range(k):
                mine = [x[i] for i in range(n) if who[i] == j]
                new.append([avg([m[q] for m in mine]) for q in range(d)]
                           if mine else cen[j])
            same = True
            for a, b in zip(cen, new):
                for p, q in zip(a, b):
                    if same and not (p == q):
                        same = False
            if same:
                S.reach('converged')
                break
            cen = new
        S.eq(node._centroids, S.np.array(cen), 'the centroids')
        z = S.array('z', (1, d))
        got = node.label(z)
        S.check(0 <= got[0] < k, 'number of a cluster')
        best(S, int(got[0]), {j: sq(z[0], cen[j]) for j in range(k)},
             'nearest centroid')
        S.reach('end')
    return f


def markov_h(n, sizes):
    def f(S):
        import mdp
        node = mdp.nodes.SimpleMarkovClassifier()
        labels = arrangement(S, n, 'int')
        x = S.array('x', (n, 2), dtype='i', lo=0, hi=1)
        import numpy
        # decide the values, features are compared by their hash
        low = S.choose('low', [0, -1])
        conc = [[1 if x[i, j] == 1 else low for j in range(2)]
                for i in range(n)]
        feed(S, node, numpy.array(conc), labels, sizes,
             forms=['list', 'scalar'])
        feats = [tuple(r) for r in conc]
        z = S.choose('z', [(low, low), (low, 1), (1, 1)])
        p = node.prob(numpy.array([z]))[0]
        r = node.rank(numpy.array([z]))[0]
        if z not in feats:
            S.check(p == {} and r == [], 'unknown features')
            S.reach('unknown')
            return
        S.check(set(p) == set(labels), 'a probability per label')
        for l in p:
            want = S.const(sum(1 for g, m in zip(feats, labels)
                               if g == z and m == l)) / feats.count(z)
            S.check(abs(p[l] - want) <= 1e-9, 'relative frequency')
        for a, b in zip(r, r[1:]):
            S.check(p[a] >= p[b], 'ranks')
        S.check(abs(sum(p.values()) - 1) < 1e-9, 'probabilities add up')
        S.reach('end')
    return f


def hopfield_fixed_h(bits, npat, shuffled, threshold):
    def f(S):
        import numpy
        import mdp
        from mdp.nodes import classifier_nodes as cn
        node = mdp.nodes.DiscreteHopfieldClassifier()
        node._shuffled_update = shuffled
        orders = list(itertools.permutations(range(bits)))
        step = [0]

        def shuffle(l):
            o = S.choose('order%d' % step[0], orders) if step[0] < 2 else \
                orders[0]
            step[0] += 1
            l[:] = list(o)
        S.patch(cn.numx_rand, 'shuffle', shuffle)
        pats = [[1] * bits]
        for i in range(1, npat):
            pats.append([S.choose('p%d%d' % (i, j), [0, 1])
                         for j in range(bits)])
        node.train(numpy.array(pats, dtype='b'))
        node.stop_training()
        w = [[0 if i == j else sum((2 * p[i] - 1) * (2 * p[j] - 1)
                                   for p in pats) for j in range(bits)]
             for i in range(bits)]
        S.check(numpy.allclose(numpy.array(w) / float(bits),
                               node._weight_matrix), 'Hebb weights')
        S.check(node.memory_size == bits and
                abs(node.load_parameter - npat / float(bits)) < 1e-12,
                'load')
        x = [S.choose('x%d' % j, [0, 1]) for j in range(bits)]
        arr = numpy.array([x], dtype='b')
        th = S.real('th') if threshold else 0
        lab = node.label(arr, threshold=th) if threshold else \
            node.label(arr)
        S.check(arr.tolist() == [x], 'the data are left alone')
        S.check(lab.shape == (1, bits), 'one pattern')
        s = [1 if bool(v) else -1 for v in lab[0]]
        s0 = [2 * v - 1 for v in x]

        def field(s, i):
            return S.const(sum(w[i][j] * s[j] for j in range(bits))) / bits - th

        def energy(s):
            e = 0
            for i in range(bits):
                e = e + th * s[i]
                for j in range(bits):
                    e = e - S.const(w[i][j] * s[i] * s[j]) / (2 * bits)
            return e
        for i in range(bits):
            S.check(field(s, i) * s[i] >= -1e-9, 'a fixed point')
        S.check(energy(s) <= energy(s0) + 1e-9, 'the energy is not larger')
        S.reach('end')
    return f


def base_h(bi):
    """label, prob, rank, execute_method and messages of any classifier"""
    def f(S):
        import mdp
        import bimdp
        meth = None if bi else S.choose('method',
                                        [None, 'label', 'rank', 'prob'])
        x = S.array('x', (2, 2))

        class P(mdp.ClassifierNode):
            def is_trainable(self):
                return False

            def _label(self, x):
                return [v[0] for v in x]

            def _prob(self, x):
                return [{'a': v[0], 'b': v[1], 'c': v[0] + v[1]} for v in x]
        if bi:
            class B(bimdp.BiClassifier, P):
                pass
            node = B(node_id='cl')
        else:
            node = P(execute_method=meth)
        probs = [{'a': v[0], 'b': v[1], 'c': v[0] + v[1]} for v in x]

        def ranks_ok(got, thr, msg):
            S.check(len(got) == 2, msg)
            for g, p in zip(got, probs):
                S.check(len(set(g)) == len(g), msg)
                for a, b in zip(g, g[1:]):
                    S.check(p[a] >= p[b], msg)
                for l in p:
                    if thr is None:
                        S.check(l in g, msg)
                    elif l in g:
                        S.check(p[l] > thr, msg)
                    else:
                        S.check(p[l] <= thr, msg)
        S.eq(S.np.array(node.label(x)), x[:, 0], 'label')
        lib.same_value(S, node.prob(x), probs, 'prob')
        ranks_ok(node.rank(x), None, 'all labels ordered by probability')
        if not bi and meth is None:
            thr = S.real('thr')
            ranks_ok(node.rank(x, thr), thr, 'labels above the threshold')
        if bi:
            r = node.execute(x)
            S.eq(r, x, 'the data')
            msg = {}
            want = {}
            vary = S.choose('vary', ['labels', 'probs', 'ranks'])
            rest = S.choose('rest', [None, True])
            for k, res in (('labels', 'label'), ('probs', 'prob'),
                           ('ranks', 'rank')):
                v = S.choose(k, [None, False, True, 'cl->', 'x_']) \
                    if k == vary else rest
                if v is not None:
                    msg['return_' + k] = v
                if v:
                    want[(v if v is not True else '') + k] = res
            r = node.execute(x, dict(msg)) if msg else node.execute(x)
            y, m = r if isinstance(r, tuple) else (r, {})
            S.eq(y, x, 'the data')
            S.check(set(m) == set(want) | set(msg), 'keys of the message')
            for k in want:
                if want[k] == 'label':
                    S.eq(S.np.array(m[k]), x[:, 0], 'labels')
                elif want[k] == 'prob':
                    lib.same_value(S, m[k], probs, 'probs')
                else:
                    ranks_ok(m[k], None, 'ranks')
        else:
            y = node.execute(x)
            if meth is None:
                S.eq(y, x, 'the data')
            elif meth == 'label':
                S.eq(S.np.array(y), x[:, 0], 'labels')
            elif meth == 'prob':
                lib.same_value(S, y, probs, 'probs')
            else:
                ranks_ok(y, None, 'ranks')
        S.reach('end')
    return f


def cumulator_h(sizes):
    def f(S):
        import mdp
        n = sum(sizes)
        node = mdp.ClassifierCumulator()
        labels = arrangement(S, n, 'int')
        x = train_xs(S, n, 2)
        refuses(S, mdp.ClassifierCumulator(), x)
        feed(S, node, x, labels, sizes)
        S.eq(node.data, x, 'all data in order')
        S.check(list(node.labels) == labels, 'all labels in order')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    E = ['end']
    hs = []
    add = lambda name, fn, **o: hs.append(H(name, fn, **dict(
        dict(reach=E), **o)))
    add('base', base_h(False))
    add('base/bi', base_h(True))
    add('signum', signum_h())
    add('cumulator', cumulator_h([2, 1]))
    add('mean/1d', nearest_mean_h(3, 1, 'int', [2, 1]))
    add('mean/str', nearest_mean_h(3, 1, 'str', [1, 2]))
    add('mean/2d', nearest_mean_h(3, 2, 'int', [3]))
    add('knn/1', knn_h(3, 1, 1, 'int', [2, 1]))
    add('knn/2', knn_h(3, 1, 2, 'str', [1, 2]))
    add('knn/3', knn_h(3, 1, 3, 'int', [3]))
    add('knn/2d', knn_h(2, 2, 1, 'int', [1, 1]))
    add('perceptron/1d', perceptron_h(2, 1, [1, 1]))
    add('perceptron/2d', perceptron_h(2, 2, [2]))
    add('gaussian/1d', gaussian_h(4, 1, 'int', [3, 1]),
        reach=['end', 'singular'])
    add('gaussian/str', gaussian_h(4, 1, 'str', [4]),
        reach=['end', 'singular'])
    add('gaussian/one', gaussian_single_h())
    for it in (1, 2, 3):
        add('kmeans/%d' % it, kmeans_h(3, 1, 2, it, [2, 1]))
    add('kmeans/converged', kmeans_h(3, 1, 2, 5, [3]),
        reach=['end', 'converged'])
    add('markov', markov_h(3, [2, 1]), reach=['end', 'unknown'])
    for npat in (1, 2):
        add('hopfield/%d' % npat, hopfield_fixed_h(3, npat, True, False))
    add('hopfield/ordered', hopfield_fixed_h(3, 2, False, False))
    add('hopfield/threshold', hopfield_fixed_h(2, 1, True, True))
    if not q:
        add('mean/4', nearest_mean_h(4, 2, 'int', [2, 2]))
        add('knn/4', knn_h(4, 1, 3, 'int', [2, 2]))
        add('knn/2d/3', knn_h(3, 2, 2, 'int', [2, 1]))
        add('perceptron/3', perceptron_h(3, 1, [2, 1]))
        add('gaussian/2d', gaussian_h(6, 2, 'int', [6]),
            reach=['end', 'singular'])
        add('gaussian/5', gaussian_h(5, 1, 'int', [2, 3]),
            reach=['end', 'singular'])
        add('kmeans/3of4', kmeans_h(4, 1, 3, 2, [4]))
        add('kmeans/4', kmeans_h(4, 1, 2, 3, [2, 2]))
        add('kmeans/2d', kmeans_h(3, 2, 2, 2, [3]))
        add('hopfield/3', hopfield_fixed_h(3, 3, True, False))
        add('hopfield/4', hopfield_fixed_h(4, 2, False, False))
    return hs
