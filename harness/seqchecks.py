"""C06 (and the cost part of C16): contraction-order search, judged by ContractSeq."""
from net import *


def make_network(r, nmax=6, like=False, typical=10):
    """A random network: nodes with edge ids, dimensions; built as real tensors too."""
    while True:
        n = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 5, nmax] if nmax < 8 else [nmax - 1, nmax])
        some = r.choice([[1, 2, 2, 3, 4]] * 8 + [[1, 2, 7], [2, 11, 30], [1, 1, 9]])
        diag = [r.random() < r.choice([0, 0.25, 0.6]) for _ in range(n)]
        ddim = r.choice([2, 3] + some[-1:])
        dims, nodes = [], [dict(diag=diag[i], E=[]) for i in range(n)]
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        dens = r.choice([0.2, 0.5, 0.5, 0.9])
        shape = r.choice(['rand', 'rand', 'chain', 'ring', 'star'])
        if shape == 'chain':
            pairs, dens = [(i, i + 1) for i in range(n - 1)], 1
        elif shape == 'ring' and n > 2:
            pairs, dens = [(i, (i + 1) % n) for i in range(n)], 1
        elif shape == 'star':
            pairs, dens = [(0, i) for i in range(1, n)], 1
        for i, j in pairs:
            k = 0
            while r.random() < (dens if k == 0 else 0.2):
                k += 1
                dims.append(ddim if (diag[i] or diag[j]) else r.choice(some))
                nodes[i]['E'].append(len(dims))
                nodes[j]['E'].append(len(dims))
        for i in range(n):
            while r.random() < 0.3:
                dims.append(ddim if diag[i] else r.choice(some))
                nodes[i]['E'].append(len(dims))
        limit = {10: 8, 3: 15, 2: 22}[typical]
        big = 1
        for d in dims:
            big *= d
        if len(dims) > limit or big > 3e8 or any(len(x['E']) > 7 for x in nodes):
            continue
        for x in nodes:
            r.shuffle(x['E'])
        if len(dims) == 0 and n > 3:
            continue
        return nodes, dims


def build(nodes, dims, like=False, r=None):
    X = lib()
    ts = []
    for i, x in enumerate(nodes):
        labels = ['e%d_%d' % (e, i) for e in x['E']]
        shape = tuple(dims[e - 1] for e in x['E'])
        if like:
            t = (X.DiagonalTensor if x['diag'] else X.Tensor)(shape=shape, labels=labels, tensorLikeFlag=True)
        elif x['diag'] and shape:
            t = X.DiagonalTensor(data=np.arange(1, shape[0] + 1) * 1.0, labels=labels)
        elif x['diag']:
            t = X.DiagonalTensor(data=np.array(2.0))
        else:
            t = X.Tensor(data=np.arange(int(np.prod(shape, dtype=int))).reshape(shape) % 5 - 1.0, labels=labels)
        ts.append(t)
    where = {}
    for i, x in enumerate(nodes):
        for e in x['E']:
            where.setdefault(e, []).append(i)
    ids = list(where)
    if r:
        r.shuffle(ids)
    for e in ids:
        if len(where[e]) == 2:
            i, j = where[e]
            if r and r.random() < 0.5:
                i, j = j, i
            X.makeLink('e%d_%d' % (e, i), 'e%d_%d' % (e, j), ts[i], ts[j])
    return ts


def direct_graph(nodes, dims, r):
    """The same network as a TensorGraph built by hand, edges in random order."""
    from CTL.tensor.contract.tensorGraph import TensorGraph
    g = TensorGraph(n=len(nodes), diagonalFlags=[x['diag'] for x in nodes])
    where = {}
    for i, x in enumerate(nodes):
        for e in x['E']:
            where.setdefault(e, []).append(i)
    ids = list(where)
    r.shuffle(ids)
    late = r.random() < 0.5
    for k, e in enumerate(ids):
        if late and k == len(ids) // 2:
            g.addEdgeIndex()
        w = where[e]
        if len(w) == 2:
            r.shuffle(w)
            g.addEdge(w[0], w[1], dims[e - 1])
        else:
            g.addFreeEdge(w[0], dims[e - 1])
    return g


def plain(x):
    if x != int(x):
        raise Unreadable('cost %r' % x)
    return int(x)


def guarded(f, rec, **fields):
    try:
        with limit(30), quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f(rec)
    except OpTimeout:
        rec['failed'] = 'no answer'
    except Exception as x:
        rec['failed'] = '%s' % type(x).__name__
    return rec


def one(r, nmax, like):
    X = lib()
    oc = X.oc
    typical = r.choice([10, 10, 3, 2])
    nodes, dims = make_network(r, nmax, like, typical)
    ts = build(nodes, dims, like, r)
    searches, runs = [], []

    def seqof(s):
        return [[int(a) + 1, int(b) + 1] for a, b in s]

    modes = [('default', dict(typicalDim=typical)), ('default', dict(typicalDim=None)), ('bf', dict(bf=True, typicalDim=typical)),
             ('bf', dict(bf=True, typicalDim=None)), ('greedy', dict(greedy=True, typicalDim=None))]
    for kind, kw in modes:
        for how in ('list', 'graph', 'direct'):
            if how == 'direct' and r.random() < 0.5:
                continue

            def f(rec):
                if how == 'list':
                    if kind == 'greedy':
                        s = oc.generateGreedySequence(ts)
                    elif typical == 10 and kw['typicalDim'] == 10 and not kw.get('bf'):
                        s = oc.generateOptimalSequence(ts)
                    else:
                        s = oc.generateOptimalSequence(ts, **kw)
                    rec['seq'] = seqof(s)
                else:
                    g = oc.makeTensorGraph(ts) if how == 'graph' else direct_graph(nodes, dims, r)
                    rec['seq'] = seqof(g.optimalContractSequence(**kw))
                    if kind == 'greedy':
                        rec['reported'] = plain(g.greedyCost)
                    else:
                        rec['reported'] = plain(g.optimalCostResult())
            rec = dict(kind=kind, how=how, model=kw['typicalDim'] or 0, seq=[], reported=-1, failed='')
            searches.append(guarded(f, rec))

    def run(what, seq, minimal, call):
        def f(rec):
            rec['cost'] = plain(call())
        rec = dict(what=what, seq=seq, minimal=minimal, cost=-1, costs=[], levels=[], failed='')
        runs.append(guarded(f, rec))

    seqs = [s['seq'] for s in searches if not s['failed']]
    # a random order as well
    alive = list(range(len(nodes)))
    rs = []
    while len(alive) > 1:
        a, b = r.sample(alive, 2)
        rs.append([a + 1, b + 1])
        alive.remove(max(a, b))
    pick = [rs] + ([r.choice(seqs)] if seqs else [])
    outsize = 1
    for e in range(1, len(dims) + 1):
        if sum(e in x['E'] for x in nodes) == 1:
            outsize *= dims[e - 1]
    if all(feasible(nodes, dims, s) for s in pick):
        for s in pick:
            z = [(a - 1, b - 1) for a, b in s]
            run('run', s, False, lambda: oc.contractAndCostWithSequence(ts, seq=z)[1])
            run('run again', s, False, lambda: oc.contractAndCostWithSequence(ts, seq=list(z), inplace=False)[1])
        # the library's own cost of every step
        s = rs
        rec = dict(what='steps', seq=s, minimal=False, cost=-1, costs=[], levels=[], failed='')

        def f(rec):
            cs = oc.copyTensorList(ts)
            for a, b in s:
                c, l = oc.contractCost(cs[a - 1], cs[b - 1])
                c2, l2 = oc.contractCost(cs[b - 1], cs[a - 1])
                if c != c2 or l != l2:
                    raise Unreadable('asymmetric cost')
                rec['costs'].append(plain(c))
                rec['levels'].append(plain(l))
                cs[min(a, b) - 1] = X.contract(cs[a - 1], cs[b - 1])
        runs.append(guarded(f, rec))
        run('minimal run', [], True, lambda: oc.contractAndCostWithSequence(ts, bf=True, typicalDim=None)[1])
        run('minimal run', [], True, lambda: oc.contractAndCostWithSequence(ts, typicalDim=None)[1])
        # inplace consumes the tensors, so it comes last
        z = [(a - 1, b - 1) for a, b in rs]
        run('run inplace', rs, False, lambda: oc.contractAndCostWithSequence(list(ts), seq=z, inplace=True)[1])
    return dict(nodes=nodes, dims=dims, searches=searches, runs=runs)


def feasible(nodes, dims, seq):
    """Intermediate results of a sequence stay small."""
    live = {i + 1: set(x['E']) for i, x in enumerate(nodes)}
    for a, b in seq:
        if a not in live or b not in live or a == b:
            return False
        m = live[a] ^ live[b]
        n = 1
        for e in live[a] | live[b]:
            n *= dims[e - 1]
        if n > 20000 or len(m) > 14:
            return False
        del live[max(a, b)]
        live[min(a, b)] = m
    return True


def seq_records(run, count, nmax, like=0.2, tag=''):
    traces = []
    for i in range(count):
        r = random.Random('%s/%s/%s/%d' % (run.prop, run.seed, tag, i))
        traces.append(one(r, nmax, r.random() < like))
    run.extra['networks'] = run.extra.get('networks', 0) + len(traces)
    run.sample({k: traces[0][k] for k in ('nodes', 'dims')})
    for i in range(0, len(traces), 1000):
        validate_records(run, 'TraceSeq', traces[i:i + 1000])


def validate_records(run, module, traces, **kw):
    """Like validate, for traces that are records with items instead of event sequences."""
    class T(dict):
        def __getitem__(self, k):
            return self if isinstance(k, slice) else dict.__getitem__(self, k)
    return validate(run, module, [T(t) for t in traces], **kw)


def model(run, fams):
    for fam, n in fams:
        out, gen, dist, rc = tlc('MCSeq', env=dict(FAMILY=str(fam), NODES=str(n)), timeout=800)
        if rc != 0:
            raise TlcError('MCSeq %s %s: rc %d\n%s' % (fam, n, rc, tlc_tail(out, 40)))
        run.states += dist
        run.transitions += max(gen - 1, 0)


def c06(run):
    from netchecks import require_lib
    if not require_lib(run):
        return
    if run.quick:
        model(run, [(1, 3), (2, 3), (3, 3)])
        seq_records(run, 350, 6)
        seq_records(run, 12, 8, tag='larger')
    else:
        model(run, [(1, 3), (2, 3), (3, 3), (1, 4), (2, 4), (3, 4)])
        seq_records(run, 5000, 7)
        seq_records(run, 250, 8, tag='larger')
        seq_records(run, 60, 9, tag='largest')
    run.assumptions.append('costs stay below 2^31 in TLC: at most 8 edges at typical dimension 10')
