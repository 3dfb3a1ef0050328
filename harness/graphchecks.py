"""C19: network texts and graph objects."""
from net import *
from seqchecks import guarded, validate_records, make_network, build, plain


def spell(ast):
    def leg(l):
        n = '{%s}' % l['n'] if l['b'] else l['n']
        return n + ('' if l['d'] == 0 else '{%d}' % l['d'] if l['w'] else '%d' % l['d'])
    return ''.join(t['name'] + ''.join(leg(l) for l in t['legs']) for t in ast)


def text_record(ast, text):
    from CTL.tensor.contract.tensorGraph import createTensorListFromText, createTensorFromText
    from CTL.tensor.contract.optimalContract import makeTensorGraphFromText
    rec = dict(ast=ast, text=text, failed='', gfailed='', tensors=[], nodes=[], edges=[])

    def num(d):
        return 0 if d is None else int(d)

    def f(rec):
        ts = createTensorListFromText(text)
        res = []
        for i, t in enumerate(ts):
            legs = []
            for leg in t.legs:
                p, ok = 0, leg.tensor is t
                if leg.bond is not None:
                    o = leg.anotherSide()
                    p = ([k + 1 for k, u in enumerate(ts) if u is o.tensor] + [-1])[0]
                    ok = ok and o.bond is leg.bond and o.anotherSide() is leg and any(x is o for x in o.tensor.legs) and o.name == leg.name
                legs.append(dict(n=leg.name, d=num(leg.dim), p=p, ok=bool(ok)))
            if sorted(t.labels) != sorted(x['n'] for x in legs) or {l: num(d) for l, d in zip(t.labels, t.shape)} != {x['n']: x['d'] for x in legs}:
                raise Unreadable('labels and legs')
            res.append(dict(name=t.name or '', like=bool(t.tensorLikeFlag), legs=legs))
        rec['tensors'] = res
    guarded(f, rec)

    def gr(rec):
        g = makeTensorGraphFromText(text)
        rec['nodes'] = [v.name or '' for v in g.v]
        at = {id(v): i + 1 for i, v in enumerate(g.v)}
        es = []
        for e in g.getEdges():
            a, b = [0 if x is None else at[id(x)] for x in e.vertices]
            es.append((sorted([a, b]) if a and b else [max(a, b), 0]) + [num(e.weight)])
        rec['edges'] = es
    h = guarded(gr, dict(failed='', nodes=[], edges=[]))
    rec['gfailed'], rec['nodes'], rec['edges'] = h['failed'], h['nodes'], h['edges']
    return rec


def random_ast(r):
    names = ['i', 'j', 'k', 'l', 'm', 'x', 'y', 'z', 'a', 'b', 'ab', 'ba', 'abc', 'i1', 'i2', 'in', 'out', 'x12', 'left', 'mn']
    r.shuffle(names)
    pool = names[:r.randrange(2, 11)]
    dims = {n: r.choice([1, 2, 3, 4, 5, 9, 10, 12, 45, 300]) for n in pool}
    used = {}
    ast = []
    messy = r.random() < .25
    for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5])):
        ls = []
        for n in r.sample(pool, r.randrange(1, min(len(pool), 5) + 1)) + [r.choice(pool)] * (r.random() < .25):
            if not messy and used.get(n, 0) >= 2:
                continue
            used[n] = used.get(n, 0) + 1
            d = 0 if r.random() < .4 else dims[n]
            if messy and d and r.random() < .2:
                d = r.choice([1, 2, 3, 45])
            ls.append(dict(n=n, b=len(n) > 1 or r.random() < .25, d=d, w=bool(d and (d > 9 or r.random() < .4))))
        if ls:
            ast.append(dict(name=r.choice('ABCDEFGXYZ'), legs=ls))
    return ast or random_ast(r)


def broken(r):
    """A text of no network: judged by the specification."""
    t = spell(random_ast(r))
    k = r.choice(['close', 'close', 'first', 'lone', 'lone', 'empty', 'digits'])
    depth, flat = 0, [0]
    for i, c in enumerate(t):
        depth += (c == '{') - (c == '}')
        if depth == 0:
            flat.append(i + 1)
    if k == 'close':
        p = r.choice(flat)
        return t[:p] + '}' + t[p:]
    if k == 'first':
        return r.choice(['a', '2', 'ij', '{a}', 'b{3}']) + t
    caps = [i for i, c in enumerate(t) if c.isupper()] + [len(t)]
    if k == 'lone':
        p = r.choice(caps)
        return t[:p] + r.choice('ABZ') + t[p:]
    if k == 'digits':
        p = r.choice(caps)
        return t[:p] + r.choice(['A3', 'B{12}', 'C{}']) + t[p:]
    return ''


class Graphs:
    """Runs events on real graph objects and records the answers."""
    def __init__(self):
        self.g = None
        self.handles = []
        self.events = []

    def at(self, v):
        if v is None:
            return 0
        for i, x in enumerate(self.g.v):
            if x is v:
                return i + 1
        raise Unreadable('vertex')

    def do(self, e):
        from CTL.funcs.graph import Graph, UndirectedGraph
        from CTL.tensor.contract.tensorGraph import TensorGraph
        e = dict(dict(u=0, v=0, w=0, i=0, out='ok'), **e)
        hand = e.pop('_graph', None)
        try:
            with limit(30), quiet(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                op = e['op']
                g = self.g
                if op == 'make':
                    n = len(e['names'])
                    self.handles = []
                    if hand is not None:
                        self.g = hand()
                        es = []
                        self.handles = list(self.g.getEdges())
                        got = [[self.at(x.vertices[0]), self.at(x.vertices[1]), int(x.weight)] for x in self.handles]
                        # line the handles up with the edges of the specification
                        want = [list(x) for x in e['edges']]
                        order = []
                        left = list(range(len(got)))
                        for w in want:
                            k = next(k for k in left if sorted(got[k][:2]) == sorted(w[:2]) and got[k][2] == w[2])
                            left.remove(k)
                            order.append(k)
                        if left:
                            raise Unreadable('edges')
                        self.handles = [self.handles[k] for k in order]
                    elif e['kind'] == 'directed':
                        self.g = Graph(n)
                    elif e['kind'] == 'undirected':
                        self.g = UndirectedGraph(n)
                    elif any(e['diag']):
                        self.g = TensorGraph(n, diagonalFlags=list(e['diag']))
                    else:
                        self.g = TensorGraph(n)
                    if hand is None:
                        for i, x in enumerate(e['names']):
                            if x:
                                self.g.v[i].name = x
                elif op == 'edge':
                    self.handles.append(g.addEdge(e['u'] - 1, e['v'] - 1, weight=e['w']))
                elif op == 'free':
                    k = e['u'] - 1
                    g.addFreeEdge(k, weight=e['w'])
                    self.handles.append(g.v[k].edges[-1])
                elif op == 'edges':
                    e['got'] = [[self.at(x.vertices[0]), self.at(x.vertices[1]), int(x.weight)] for x in g.getEdges()]
                elif op == 'node':
                    v = g.v[e['u'] - 1]
                    e['deg'] = int(v.degree)
                    e['got'] = [[self.at(x.anotherSide(v)), int(x.weight)] for x in v.edges]
                    if v.index != e['u'] - 1:
                        raise Unreadable('index')
                elif op == 'index':
                    g.addEdgeIndex()
                    e['got'] = [int(x.index) for x in g.getEdges()]
                elif op == 'names':
                    e['got'] = [x.name or '' for x in g.v]
                elif op == 'side':
                    x = self.handles[e['i'] - 1]
                    e['got'] = self.at(x.anotherSide(g.v[e['u'] - 1]))
                elif op == 'draw':
                    G = g.tensorNetworkGraph()
                    ns = dict(G.nodes(data='name'))
                    if sorted(ns) != list(range(len(g.v))):
                        raise Unreadable('nodes')
                    e['names'] = [ns[k] or '' for k in range(len(g.v))]
                    e['got'] = [[int(a) + 1, int(b) + 1, int(d['weight'])] for a, b, d in G.edges(data=True)]
                elif op == 'search':
                    kw = dict(default={}, bf=dict(bf=True), greedy=dict(greedy=True))[e['mode']]
                    s = g.optimalContractSequence(typicalDim=e['model'] or None, **kw)
                    e['seq'] = [[int(a) + 1, int(b) + 1] for a, b in s]
                    e['cost'] = plain(g.greedyCost if e['mode'] == 'greedy' else g.optimalCostResult())
                elif op == 'cost':
                    e['cost'] = plain(g.optimalCostResult())
        except OpTimeout:
            e['out'] = 'hung'
        except Exception:
            e['out'] = 'rejected'
        fill = dict(edges=dict(got=[]), node=dict(got=[], deg=-1), index=dict(got=[]), names=dict(got=[]), side=dict(got=-1),
                    draw=dict(got=[], names=[]), search=dict(seq=[], cost=-1), cost=dict(cost=-1)).get(e['op'], {})
        for k, v in fill.items():
            e.setdefault(k, v)
        self.events.append(e)
        return e


def last_model(evs):
    """What optimalCostResult refers to: the last search since the graph changed, else typical dimension 10."""
    for e in reversed(evs):
        if e['op'] in ('edge', 'free', 'make') and e['out'] == 'ok':
            return 10
        if e['op'] == 'search' and e['mode'] != 'greedy':
            return e['model']
    return 10


def graph_history(r, steps):
    w = Graphs()
    kind = r.choice(['directed', 'undirected', 'tensor', 'tensor', 'list', 'list'])
    if kind == 'list':
        nodes, dims = make_network(r, 4, typical=10)
        where = {}
        for i, x in enumerate(nodes):
            for k in x['E']:
                where.setdefault(k, []).append(i + 1)
        like = r.random() < .3
        ts = build(nodes, dims, like, r)
        # some of the tensors are left out of the list: their bonds turn into free legs
        keep = sorted(r.sample(range(len(ts)), r.randrange(1, len(ts) + 1))) if r.random() < .4 else list(range(len(ts)))
        r.shuffle(keep)
        new = {k + 1: p + 1 for p, k in enumerate(keep)}
        edges = []
        for k, ends in where.items():
            ends = [new[x] for x in ends if x in new]
            if ends:
                edges.append((ends if len(ends) == 2 else [ends[0], 0]) + [dims[k - 1]])
        names = []
        for k in keep:
            ts[k].name = r.choice([None, 'T%d' % k, 'x'])
            names.append(ts[k].name or '')
        w.keep = ts
        n = len(keep)
        diag = [nodes[k]['diag'] for k in keep]
        from CTL.tensor.contract.optimalContract import makeTensorGraph
        w.do(dict(op='make', kind='tensor', names=names, diag=diag, edges=edges, _graph=lambda: makeTensorGraph([ts[k] for k in keep])))
        kind = 'tensor'
        es = [list(x) for x in edges]
        if w.events[-1]['out'] != 'ok':
            return w.events
    else:
        n = r.choice([1, 2, 3, 3, 4, 4, 5])
        diag = [kind == 'tensor' and r.random() < .25 for _ in range(n)]
        names = [r.choice(['', 'a', 'b', 'T']) for _ in range(n)]
        w.do(dict(op='make', kind=kind, names=names, diag=diag, edges=[]))
        es = []
    dd = next((x[2] for x in es if any(p and diag[p - 1] for p in x[:2])), 2)
    dist = n
    for _ in range(steps):
        ops = ['edge', 'edge', 'edge', 'node', 'side', 'names']
        if kind != 'directed':
            ops += ['edges', 'edges']
        if kind == 'tensor':
            ops += ['free', 'index', 'draw', 'search', 'search', 'cost']
        op = r.choice(ops)
        if op in ('edge', 'free'):
            if len(es) >= (6 if kind == 'tensor' else 20):
                continue
            u, v = r.randrange(1, n + 1), r.randrange(1, n + 1)
            if r.random() < .12:
                # the Python convention of negative indices is not one of graphs
                u = r.choice([0, -1, n + 1, n + 3])
                if op == 'free':
                    continue
                if r.random() < .5:
                    u, v = v, u
            elif u == v and op == 'edge' and (kind == 'directed' or r.random() < .5):
                continue
            wt = dd if kind == 'tensor' and any(diag[p - 1] for p in (u, v) if 1 <= p <= n) else r.choice([1, 2, 3, 4, 7] if kind == 'tensor' else [0, 1, 2, 5])
            e = w.do(dict(op=op, u=u, v=v if op == 'edge' else 0, w=wt))
            if e['out'] == 'ok' and 1 <= u <= n and 1 <= v <= n:
                es.append([u, v if op == 'edge' else 0, wt])
        elif op == 'node':
            # how often a loop is listed at its node is left open
            u = r.randrange(1, n + 1)
            if not any(x[0] == x[1] == u for x in es):
                w.do(dict(op=op, u=u))
        elif op in ('search', 'cost') and any(x[0] == x[1] for x in es):
            continue
        elif op == 'side':
            if es:
                i = r.randrange(1, len(es) + 1)
                u = r.choice([x for x in es[i - 1][:2] if x]) if r.random() < .8 else r.randrange(1, n + 1)
                w.do(dict(op=op, i=i, u=u))
        elif op == 'search':
            if n <= 4:
                mode = r.choice(['default', 'bf', 'greedy'])
                w.do(dict(op=op, mode=mode, model=0 if mode == 'greedy' else r.choice([0, 10])))
        elif op == 'cost':
            if n <= 4:
                w.do(dict(op=op, model=last_model(w.events)))
        else:
            w.do(dict(op=op))
    return w.events


def c19(run):
    from netchecks import require_lib, behaviours
    if not require_lib(run):
        return
    asts = behaviours(run, 'MCText', run.n(dict(TENSORS='2', LEGS='2', WIDE='0'), dict(TENSORS='2', LEGS='2', WIDE='1')))
    asts += behaviours(run, 'MCText', run.n(dict(TENSORS='3', LEGS='1', WIDE='1'), dict(TENSORS='3', LEGS='2', WIDE='0')))
    uniq = {json.dumps(a, sort_keys=True): a for a in asts}
    asts = [uniq[k] for k in sorted(uniq)]
    run.extra['model_texts'] = len(asts)
    cap = run.n(1200, 20000)
    if len(asts) > cap:
        asts = random.Random(run.seed).sample(asts, cap)
    recs = [text_record(a, spell(a)) for a in asts]
    for i in range(run.n(1500, 20000)):
        a = random_ast(random.Random('%s/t/%d' % (run.seed, i)))
        recs.append(text_record(a, spell(a)))
    for i in range(run.n(500, 5000)):
        recs.append(text_record([], broken(random.Random('%s/x/%d' % (run.seed, i)))))
    run.sample({k: recs[-700][k] for k in ('text', 'tensors', 'edges')})
    random.Random(run.seed).shuffle(recs)
    for i in range(0, len(recs), 1500):
        validate_records(run, 'TraceText', recs[i:i + 1500])
    bs = behaviours(run, 'MCGraphs', dict(DEPTH=run.n('3', '4')))
    uniq = {json.dumps(b, sort_keys=True): b for b in bs}
    bs = [uniq[k] for k in sorted(uniq)]
    run.extra['model_graph_histories'] = len(bs)
    cap = run.n(1000, 12000)
    if len(bs) > cap:
        bs = random.Random(run.seed).sample(bs, cap)
    traces = []
    for b in bs:
        w = Graphs()
        w.do(dict(op='make', kind=b['kind'], names=['a', 'b', ''], diag=[False] * 3, edges=[]))
        for e in b['ev']:
            e = dict(e)
            if e['op'] == 'search':
                e.update(mode='default', model=0)
            elif e['op'] == 'cost':
                e.update(model=last_model(w.events))
            w.do(e)
        # and the questions at the end
        if b['kind'] != 'directed':
            w.do(dict(op='edges'))
        w.do(dict(op='node', u=2))
        traces.append(w.events)
    for i in range(run.n(1500, 20000)):
        traces.append(graph_history(random.Random('%s/g/%d' % (run.seed, i)), 14))
    ev = run.extra.setdefault('events', {})
    for t in traces:
        for e in t:
            c = e['op'] + ('' if e['out'] == 'ok' else '!')
            ev[c] = ev.get(c, 0) + 1
    run.sample(traces[-1][:5])
    random.Random(run.seed).shuffle(traces)
    for i in range(0, len(traces), 1500):
        validate(run, 'TraceGraph', traces[i:i + 1500])
    run.assumptions.append('a leg name twice in one tensor, loops on one node, and unclosed or nested braces are left open')
