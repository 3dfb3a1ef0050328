"""C11: Ising networks, graphs and lattices, judged by Ising."""
import math
from net import *
from seqchecks import guarded, validate_records
from splitchecks import network

LN = math.log(2) / 2


def whole(x):
    """A number known to be whole, exactly."""
    re, im = reim(x)
    if any(im):
        raise Unreadable('complex weight')
    return re[0]


def power(x):
    """A weight of the graph, in units of ln2 / 2."""
    if x is None:
        raise Unreadable('no weight')
    return whole(np.array(x / LN))


def number(r, x):
    return np.float64(x) if r.random() < .3 else x


def edges_of(g):
    return [[e.vertices[0].index, e.vertices[1].index, power(e.weight)] for e in g.getEdges()]


def observe(r, g, ws, upto, steps, what, n):
    from CTL.models import Ising as I
    scale = 2.0 ** (sum(abs(w) for w in ws) / 2)

    def f(rec):
        if what == 'edges':
            rec['edges'] = edges_of(g)
        elif what == 'degree':
            rec['deg'] = [v.degree for v in g.v]
        elif what == 'across':
            # every edge seen from both of its ends, halved
            seen = []
            for v in g.v:
                for e in v.edges:
                    o = e.anotherSide(v)
                    seen.append([v.index, o.index, power(e.weight)])
            half = []
            for a, b, w in seen:
                if a < b:
                    half.append([a, b, w])
            loops = sorted([a, b, w] for a, b, w in seen if a == b)
            if loops[::2] != loops[1::2]:
                raise Unreadable('ends disagree')
            back = sorted([b, a, w] for a, b, w in seen if a > b)
            if sorted(half) != back:
                raise Unreadable('ends disagree')
            rec['edges'] = half + loops[::2]
        elif what in ('network', 'tensors'):
            ts = I.IsingTNFromUndirectedGraph(g)
            if what == 'tensors':
                rec['n'] = len(ts)
                rec['deg'] = [len(t.legs) for t in ts]
                for t in ts:
                    if list(t.shape) != [2] * len(t.legs) or any(l.anotherSide() is None for l in t.legs):
                        raise Unreadable('shape %s' % (t.shape,))
                return
            if r.random() < .3:
                r.shuffle(ts)
            how = r.random()
            if how < .5:
                t = lib().oc.contractTensorList(ts, outProductWarning=False)
            elif how < .75:
                t = lib().oc.contractWithSequence(ts, seq=lib().oc.generateGreedySequence(ts), outProductWarning=False)
            else:
                z = network(ts, lambda i, leg: leg.name)[1] if len(ts) <= 8 else None
                if z is None:
                    t = lib().oc.contractTensorList(ts, outProductWarning=False)
                else:
                    rec['z'] = whole(z * scale)
                    return
            if len(t.legs):
                raise Unreadable('open legs')
            rec['z'] = whole(t.single() * scale)
        elif what == 'exact':
            rec['z'] = whole(I.exactZFromGraphIsing(g) * scale)
        elif what == 'weight':
            rec['S'] = r.randrange(2 ** n)
            rec['w'] = whole(I.getIsingWeight(g, rec['S']) * scale)
    rec = dict(what=what, upto=upto, failed='', edges=[], deg=[], z=-1, n=0, S=0, w=-1)
    steps.append(guarded(f, rec))


WHAT = ['edges', 'degree', 'across', 'network', 'tensors', 'exact', 'weight', 'weight', 'network']


def graph_record(r, n, wanted, cuts, lattice=None, whats=None):
    """Build a graph by its edges (or by a lattice builder), observing it at the given cuts."""
    rec = dict(op='graph', n=n, wanted=wanted, steps=[], lattice='', ln=0, lm=0, w1=0, w2=0)
    from CTL.funcs.graph import UndirectedGraph
    g = None
    try:
        if lattice:
            rec.update(lattice=lattice['name'], ln=lattice['n'], lm=lattice['m'], w1=lattice['w1'], w2=lattice['w2'])
            g = lattice['graph']
        else:
            g = UndirectedGraph(n)
    except Exception as x:
        rec['steps'].append(dict(what='build', upto=0, failed=type(x).__name__, edges=[], deg=[], z=-1, n=0, S=0, w=-1))
        return rec
    done = len(wanted) if lattice else 0
    for c in cuts:
        while done < c:
            i, j, w = wanted[done]
            if r.random() < .5:
                i, j = j, i
            v = number(r, w * LN)
            g.addEdge(i, j, weight=v) if r.random() < .5 else g.addEdge(idx1=i, idx2=j, weight=v)
            done += 1
        for what in (whats or r.sample(WHAT, r.randint(2, 4))):
            observe(r, g, [x[2] for x in wanted[:c]], c, rec['steps'], what, n)
    return rec


def random_graph(r):
    n = r.choice([1, 2, 3, 3, 4, 4, 5, 6, 7])
    edges = []
    top = r.randint(0, 10)
    W = r.choice([[1, -1], [1, 2, 3], [-2, -1, 0, 1, 2], [0, 1], [3, -3, 2], [1, 10, -9, 12]])
    for _ in range(top):
        i, j = r.sample(range(n), 2) if n > 1 and r.random() < .9 else [r.randrange(n)] * 2
        w = r.choice(W)
        if n + sum(abs(e[2]) for e in edges) + abs(w) > 29:
            break
        edges.append([i, j, w])
        if r.random() < .2 and n + sum(abs(e[2]) for e in edges) + abs(w) <= 29:
            edges.append([j, i, w])
    deg = [sum(v in e[:2] for e in edges) for v in range(n)]
    if max(deg + [0]) > 7:
        return random_graph(r)
    cuts = sorted(set(r.choice([[len(edges)], [0, len(edges)], [len(edges) // 2, len(edges)]])))
    return graph_record(r, n, edges, cuts)


def lattice_record(r):
    from CTL.funcs import graphFuncs as G
    name = r.choice(['squarePBC', 'squareFBC', 'doubleFBC', 'complete'])
    while True:
        n, m = r.randint(1, 4), r.randint(1, 4)
        if name == 'complete':
            n, m = r.randint(1, 6), 1
        w1, w2 = r.choice([-2, -1, 0, 1, 2, 3]), r.choice([-1, 0, 1, 2])
        big = dict(squarePBC=n * m, squareFBC=n * m, doubleFBC=2 * n * m + n + m, complete=n)[name]
        bonds = dict(squarePBC=(n * m) * (abs(w1) + abs(w2)), squareFBC=(n - 1) * m * abs(w1) + n * (m - 1) * abs(w2),
                     doubleFBC=2 * n * m * (abs(w1) + abs(w2)), complete=n * (n - 1) // 2 * abs(w1))[name]
        if big <= 24:
            break
    heavy = big > 10 or big + bonds > 29
    kw = {}
    same = r.random() < .3 or name == 'complete'
    if same:
        w2 = w1
        kw['weight'] = number(r, w1 * LN)
    else:
        kw['weight'] = (number(r, w1 * LN), number(r, w2 * LN))
    if heavy is False and same and w1 != w2:
        raise AssertionError
    f = dict(squarePBC=G.squareLatticePBC, squareFBC=G.squareLatticeFBC, doubleFBC=G.doubleSquareLatticeFBC, complete=G.completeGraph)[name]
    try:
        with limit(20), quiet():
            if name == 'complete':
                g = f(n, **kw)
            elif n == m and r.random() < .5:
                g = f(n, **kw)
            else:
                g = f(n, m, **kw)
            wanted = edges_of(g)
            count = len(g.v)
    except Exception as x:
        return dict(op='graph', n=0, wanted=[], lattice='', ln=0, lm=0, w1=0, w2=0,
                    steps=[dict(what='build', upto=0, failed='%s %s' % (name, type(x).__name__), edges=[], deg=[], z=-1, n=0, S=0, w=-1)])
    bonds = sum(abs(e[2]) for e in wanted)
    heavy = count > 10 or count + bonds > 29
    whats = ['edges', 'degree'] if heavy else r.sample(['edges', 'degree', 'network', 'exact', 'network', 'weight'], 3)
    return graph_record(r, count, wanted, [len(wanted)], dict(name=name, n=n, m=m, w1=w1, w2=w2, graph=g), whats)


def bits(i, n):
    return tuple((i >> k) & 1 for k in range(n))


def read(t, labels, order):
    """Entries of a tensor, addressed by leg names, listed by the bits of the given legs."""
    names = [l.name for l in t.legs]
    if sorted(names) != sorted(labels) or list(t.shape) != [2] * len(labels):
        raise Unreadable('labels %s, shape %s' % (names, t.shape))
    mustbe(t.a)
    a = np.asarray(t.a)
    res = []
    for i in range(2 ** len(order)):
        b = dict(zip(order, bits(i, len(order))))
        res.append(a[tuple(b[x] for x in names)])
    return np.array(res)


def local_record(r):
    from CTL.models import Ising as I
    op = r.choice(['plaquette', 'square', 'site', 'site', 'edge', 'plaqnet', 'reject', 'infinite'])
    rec = dict(op=op, failed='', got=[])
    if op == 'plaquette':
        wv, wh = r.randint(-4, 4), r.randint(-4, 4)
        single, diamond = r.random() < .3, r.random() < .5
        rec.update(wv=wv, wh=wv if single else wh)

        def f(rec):
            w = wv * LN if single else r.choice([tuple, list])([wv * LN, wh * LN])
            t = I.plaquetteIsingTensor(w, diamondForm=True) if diamond else I.plaquetteIsingTensor(w)
            order = ['u', 'r', 'd', 'l'] if diamond else ['lu', 'ru', 'rd', 'ld']
            a = read(t, order, order) * 2.0 ** (abs(rec['wv']) + abs(rec['wh']))
            rec['got'] = ints(a)
    elif op == 'square':
        k, j = 4 * r.randint(-2, 2), r.choice([0, 0, 1, 2, -1])
        obs = r.choice(['', 'M', 'E'])
        rec.update(k=k, j=j, obs=obs)

        def f(rec):
            kw = {}
            if obs:
                kw['obs'] = obs
            if j:
                kw['symmetryBroken'] = j * math.log(2)
            t = I.squareIsingTensor(k * math.log(2) / 4, **kw)
            rec['got'] = ints(read(t, ['u', 'l', 'd', 'r'], ['u', 'l', 'd', 'r']) * 2.0 ** (abs(k) + 2 * abs(j)))
    elif op == 'site':
        d = r.choice([0, 1, 2, 3, 4, 4, 5])
        ws = [r.randint(-3, 3) for _ in range(d)]
        same = r.random() < .3
        if same and d:
            ws = [ws[0]] * d
        rec['ws'] = ws

        def f(rec):
            L = r.sample(['a', 'b', 'u', 'd', 'l', 'r'], d)
            given = r.random() < .7
            kw = dict(labels=list(L)) if given else {}
            if not (d == 4 and r.random() < .5):
                kw['dim'] = d
            t = I.IsingSiteTensor(number(r, (ws[0] if d else 1) * LN) if same else [w * LN for w in ws], **kw)
            mustbe(t.a)
            a = np.asarray(t.a)
            names = [l.name for l in t.legs]
            if not given:
                if not same:
                    L = names
                else:
                    L = names
            if sorted(names) != sorted(L) or a.ndim != d:
                raise Unreadable('labels %s' % names)
            # give every leg its neighbouring spin
            for k, nme in enumerate(names):
                w = ws[L.index(nme)]
                a = np.moveaxis(np.tensordot(a, np.asarray(I.IsingEdgeMatrix(w * LN)), (k, 0)), -1, k)
            res = []
            for i in range(2 ** d):
                b = dict(zip(L, bits(i, d)))
                res.append(a[tuple(b[x] for x in names)])
            re, im = reim(np.array(res) * 2.0 ** (sum(map(abs, ws)) / 2))
            if im:
                raise Unreadable('complex weight')
            rec['got'] = re
    elif op == 'edge':
        rec['w'] = r.randint(-5, 5)

        def f(rec):
            m = np.asarray(I.IsingEdgeMatrix(rec['w'] * LN))
            re, im = reim((m @ m.T) * 2.0 ** (abs(rec['w']) / 2))
            if im:
                raise Unreadable('complex weight')
            rec['got'] = re
    elif op == 'infinite':
        q = r.randint(1, 4)
        rec.update(p=r.randint(q + 1, 6), q=q)

        def f(rec):
            v = r.choice([1.0, 2.0, .5, 3.0])
            T = 2 * v / math.log(rec['p'] / q)
            m = I.infiniteIsingExactM(T) if v == 1 and r.random() < .5 else I.infiniteIsingExactM(T, V=v)
            rec['got'] = whole(np.array(m ** 8 * (rec['p'] ** 2 - q * q) ** 4))
    elif op == 'plaqnet':
        while True:
            n, m = r.randint(1, 2), r.randint(1, 2)
            w1, w2 = r.randint(-1, 2), r.randint(-1, 2)
            if 2 * n * m + n + m + 2 * n * m * (abs(w1) + abs(w2)) <= 29:
                break
        rec.update(n=n, m=m, w1=w1, w2=w2, z=-1)

        def f(rec):
            # vertical bonds of the plaquette become those going up to the right
            T = {(x, y): I.plaquetteIsingTensor((w2 * LN, w1 * LN), diamondForm=True) for x in range(n) for y in range(m)}
            for (x, y), t in T.items():
                if (x + 1, y) in T:
                    lib().makeLink('d', 'u', t, T[x + 1, y])
                if (x, y + 1) in T:
                    lib().makeLink('r', 'l', t, T[x, y + 1])
            a = network(list(T.values()), lambda i, leg: '')[1]
            rec['z'] = whole(np.sum(a) * 2.0 ** (n * m * (abs(w1) + abs(w2))))
    else:
        kind = r.choice(['dims', 'labels', 'graph', 'index', 'plaq'])
        rec['accepted'] = False
        rec['kind'] = kind

        def f(rec):
            from CTL.funcs.graph import UndirectedGraph
            try:
                if kind == 'dims':
                    I.IsingSiteTensor([.1] * 3, dim=4)
                elif kind == 'labels':
                    I.IsingSiteTensor(.1, dim=3, labels=['a', 'b'])
                elif kind == 'graph':
                    r.choice([I.IsingTNFromUndirectedGraph, I.exactZFromGraphIsing])('graph')
                elif kind == 'index':
                    UndirectedGraph(3).addEdge(r.choice([-1, 3]), 1, weight=.5)
                else:
                    I.plaquetteIsingTensor((.1, .2, .3))
                rec['accepted'] = True
            except OpTimeout:
                raise
            except Exception:
                pass
    return guarded(f, rec)


def c11(run):
    from netchecks import require_lib, behaviours
    if not require_lib(run):
        return
    recs = []
    seen = set()
    env = run.n(dict(SITES='3', BONDS='3', WIDE='0'), dict(SITES='4', BONDS='3', WIDE='1'))
    graphs = behaviours(run, 'MCIsing', env)
    for g in graphs:
        k = (g['n'], tuple(sorted(tuple(e) for e in g['edges'])))
        if k in seen:
            continue
        seen.add(k)
    keys = sorted(seen)
    run.extra['model_graphs'] = len(keys)
    cap = run.n(700, 6000)
    if len(keys) > cap:
        keys = random.Random(run.seed).sample(keys, cap)
    for i, (n, es) in enumerate(keys):
        r = random.Random('%s/m/%d' % (run.seed, i))
        recs.append(graph_record(r, n, [list(e) for e in es], [len(es)], whats=['edges', 'network', 'exact', 'degree']))
    for kind, f, c in (('g', random_graph, run.n(700, 9000)), ('l', lattice_record, run.n(500, 5000)), ('t', local_record, run.n(1000, 8000))):
        for i in range(c):
            recs.append(f(random.Random('%s/%s/%s/%d' % (run.prop, run.seed, kind, i))))
    ev = run.extra.setdefault('events', {})
    for e in recs:
        k = e['op'] + (':' + e['lattice'] if e.get('lattice') else '')
        ev[k] = ev.get(k, 0) + 1
    run.sample(recs[-1])
    random.Random(run.seed).shuffle(recs)
    for i in range(0, len(recs), 1500):
        validate_records(run, 'TraceIsing', recs[i:i + 1500])
    run.assumptions.append('couplings are multiples of ln2/2, so scaled weights are whole numbers')
