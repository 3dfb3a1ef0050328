"""Tensors with repeated leg names, judged by Legs: part of C01-C05 and C18."""
from net import *
from seqchecks import guarded, validate_records

OPEN = [0, 0]


class Bench:
    """A sequence of tensors, addressed by positions (1-based)."""
    def __init__(self):
        self.t = []

    def snap(self):
        addr, owner = {}, {}
        for i, t in enumerate(self.t):
            if t is None:
                continue
            owner[id(t)] = i
            for j, leg in enumerate(t.legs):
                addr[id(leg)] = [i + 1, j + 1]
        out = []
        for i, t in enumerate(self.t):
            if t is None:
                out.append(dict(k='gone', L=[], D=[], P=[], re=[], im=[], ok=True))
                continue
            legs = list(t.legs)
            L = [l.name for l in legs]
            D = [int(l.dim) for l in legs]
            if any(not isinstance(x, str) for x in L):
                raise Unreadable('leg name')
            k = kind(t)
            ok = list(t.labels) == L and [int(x) for x in t.shape] == D and all(owner.get(id(l.tensor)) == i for l in legs) \
                and len({id(l) for l in legs}) == len(legs)
            P = []
            for l in legs:
                o = l.anotherSide()
                if o is not None and (l.bond is not o.bond or l not in l.bond.legs or o not in l.bond.legs):
                    ok = False
                P.append(OPEN if o is None else addr.get(id(o), [99, 99]))
            re, im = [], []
            if k in ('dense', 'diag'):
                a = np.asarray(t.a)
                want = tuple(D) if k == 'dense' else tuple(D[:1])
                if a.shape != want:
                    raise Unreadable('data of shape %s for dimensions %s' % (a.shape, D))
                re, im = reim(a)
            out.append(dict(k=k, L=L, D=D, P=P, re=re, im=im, ok=bool(ok)))
        return out

    # ------------------------------------------------------------- operations
    def legs(self, a, ps):
        t = self.t[a - 1]
        other = [x for x in self.t if x is not None and x is not t and len(x.legs)]
        return [t.legs[p - 1] if p else (other[0].legs[0] if other else lib().Leg(None, 2, 'x')) for p in ps]

    def pos(self, a, legs):
        ids = [id(l) for l in self.t[a - 1].legs]
        return [ids.index(id(l)) + 1 if id(l) in ids else 0 for l in legs]

    def arr(self, a):
        a = np.asarray(a)
        re, im = reim(a)
        return dict(D=[int(x) for x in a.shape], re=re, im=im)

    def do(self, e):
        t = self.t[e['a'] - 1] if 'a' in e else None
        op = e['op']
        if op == 'index':
            e['ret'] = int(t.indexOfLabel(e['lab'], backward=e['back']))
        elif op == 'indices':
            e['ret'] = [int(x) for x in t.getLabelIndices(list(e['labs']), backward=e['back'])]
        elif op == 'shapes':
            e['ret'] = [int(t.shapeOfLabel(x, backward=e['back'])) for x in e['labs']]
        elif op == 'legsof':
            e['ret'] = self.pos(e['a'], t.getLegsByLabel(list(e['labs'])))
        elif op == 'complement':
            e['ret'] = self.pos(e['a'], t.complementLegs(self.legs(e['a'], e['ps'])))
        elif op == 'front':
            t.moveLabelsToFront(list(e['labs']))
        elif op == 'frontlegs':
            t.moveLegsToFront(self.legs(e['a'], e['ps']))
        elif op == 'rearrange':
            t.reArrange(list(e['labs']))
        elif op == 'totensor':
            e['ret'] = self.arr(t.toTensor(list(e['labs'])))
        elif op == 'matrix':
            r, c = self.legs(e['a'], e['ps']), self.legs(e['a'], e['qs'])
            how = e.get('how', 'both')
            e['ret'] = self.arr(t.toMatrix(rows=None if how == 'cols' else r, cols=None if how == 'rows' else c))
        elif op == 'trace':
            x = t.trace(rows=self.legs(e['a'], e['ps']), cols=self.legs(e['a'], e['qs']))
            re, im = reim(x)
            e['ret'] = [re[0], im[0] if im else 0]
        elif op == 'rename':
            if len(e['from']) == 1:
                t.renameLabel(e['from'][0], e['to'][0])
            else:
                t.renameLabels(list(e['from']), list(e['to']))
        elif op == 'tag':
            t.addTensorTag(e['name'])
        elif op == 'untag':
            t.removeTensorTag()
        elif op == 'copy':
            self.t.append(t.copy())
        elif op == 'tolike':
            self.t.append(t.toTensorLike())
        elif op == 'copylist':
            cs = lib().oc.copyTensorList([self.t[a - 1] for a in e['as']], tensorLikeFlag=e['like'], linkOutgoingBonds=e['outg'])
            self.t.extend(cs)
        elif op == 'fuselegs':
            t.outProduct(self.legs(e['a'], e['ps']), e['new'])
        elif op == 'fuse':
            t.outProduct(list(e['labs']), e['new'])
        elif op == 'sumleg':
            t.sumOutLeg(t.legs[e['p'] - 1], weights=np.array(e['w'], dtype=float) if e['w'] else None)
        elif op == 'sumout':
            labs = e['labs'][0] if len(e['labs']) == 1 and e.get('bare') else list(e['labs'])
            t.sumOutLegByLabel(labs, backward=e['back'], weights=np.array(e['w'], dtype=float) if e['w'] else None)
        elif op == 'contract':
            a, b = e['as']
            ta, tb = self.t[a - 1], self.t[b - 1]
            r = lib().contract(ta, tb)
            self.t[a - 1], self.t[b - 1] = r, None
        elif op == 'contractlist':
            ts = [self.t[a - 1] for a in e['as']]
            r = lib().oc.contractWithSequence(ts, seq=[tuple(x) for x in e['seq']] if e['seq'] else None, inplace=e['inplace'])
            if e['inplace']:
                for a in e['as']:
                    self.t[a - 1] = None
                self.t[e['as'][0] - 1] = r
            else:
                self.t.append(r)
        else:
            raise KeyError(op)


def make(heap):
    """Real tensors for a positional heap (as recorded or exported by MCLegs)."""
    X = lib()
    b = Bench()
    for t in heap:
        L, D = list(t['L']), tuple(t['D'])
        a = np.array(t['re'], dtype=float)
        if t['im']:
            a = a + 1j * np.array(t['im'], dtype=float)
        if t['k'] == 'dense':
            b.t.append(X.Tensor(data=a.reshape(D), labels=L))
        elif t['k'] == 'diag':
            b.t.append(X.DiagonalTensor(data=a if D else a.reshape(()), labels=L, shape=D) if D else X.DiagonalTensor(data=a.reshape(())))
        elif t['k'] == 'like':
            b.t.append(X.Tensor(shape=D, labels=L, tensorLikeFlag=True))
        else:
            b.t.append(X.DiagonalTensor(shape=D, labels=L, tensorLikeFlag=True))
    for i, t in enumerate(heap):
        for j, p in enumerate(t['P']):
            if tuple(p) > (i + 1, j + 1):
                X.makeLink(b.t[i].legs[j], b.t[p[0] - 1].legs[p[1] - 1])
    return b


def observe(bench, e):
    """Perform e on the bench; the record for TraceLegs."""
    e = dict(e, before=bench.snap(), failed='', broken='', ret=0)
    guarded(bench.do, e)
    e['after'] = []
    try:
        e['after'] = bench.snap()
    except Exception as x:
        e['broken'] = '%s %s' % (type(x).__name__, x)
    return e


# ------------------------------------------------------------------ generation
def heap_random(r, kinds, big=False):
    """2-4 tensors with few distinct names, some legs bonded."""
    n = r.choice([1, 2, 2, 3, 3])
    like = r.random() < 0.2 and 'like' in kinds
    heap = []
    for i in range(n):
        k = r.choice(['like', 'dlike', 'like'] if like else [x for x in kinds if 'like' not in x])
        rank = r.choice([1, 2, 3, 3, 3, 4])
        if i >= 2:
            rank = min(rank, 2)
        D = [r.choice([1, 2, 2, 3]) for _ in range(rank)]
        if k in ('diag', 'dlike'):
            D = [r.choice([2, 3])] * min(rank, 3)
        L = [r.choice('xxyz') for _ in D]
        heap.append(dict(k=k, L=L, D=D, P=[OPEN] * len(D), re=[], im=[]))
    # bonds
    spots = [(i, j) for i, t in enumerate(heap) for j in range(len(t['D']))]
    r.shuffle(spots)
    for (i, j) in spots:
        if heap[i]['P'][j] != OPEN or r.random() < 0.35:
            continue
        c = [(a, b) for (a, b) in spots if a != i and heap[a]['P'][b] == OPEN]
        if not c:
            continue
        a, b = r.choice(c)
        if heap[a]['D'][b] != heap[i]['D'][j]:
            if heap[a]['k'] in ('diag', 'dlike'):
                if heap[i]['k'] in ('diag', 'dlike'):
                    continue
                heap[i]['D'][j] = heap[a]['D'][b]
            else:
                heap[a]['D'][b] = heap[i]['D'][j]
        heap[i]['P'][j] = [a + 1, b + 1]
        heap[a]['P'][b] = [i + 1, j + 1]
    for t in heap:
        if 'like' in t['k']:
            continue
        n = (t['D'][0] if t['D'] else 1) if t['k'] == 'diag' else int(np.prod(t['D'], dtype=int))
        t['re'] = [r.randint(-4, 5) for _ in range(n)]
        if r.random() < 0.3:
            t['im'] = [r.randint(-3, 3) for _ in range(n)]
    return heap


READS = ['index', 'indices', 'shapes', 'legsof', 'front', 'rearrange', 'totensor', 'frontlegs', 'complement', 'matrix', 'trace',
         'rename', 'tag', 'untag', 'fuselegs', 'fuse', 'sumleg', 'sumout']
FOCUS = {
    'C01': ['contract'] * 6 + ['front', 'rename'],
    'C02': READS + ['contract', 'contractlist', 'copylist', 'copy'],
    'C03': READS,
    'C04': ['copylist'] * 5 + ['copy', 'contractlist', 'contractlist', 'tolike', 'front'],
    'C05': ['contractlist'] * 5 + ['copylist'],
    'C16': READS + ['contract', 'contractlist', 'copylist', 'tolike'],
    'C17': READS + ['contract', 'contract', 'copy'],
    'C18': ['bad'],
}
KINDS = {'C16': ['like', 'dlike', 'dense', 'like'], 'C17': ['diag', 'diag', 'dense'], 'C02': ['dense', 'dense', 'diag', 'like'],
         'C18': ['dense', 'dense', 'diag', 'like']}


def event_random(r, H, op):
    live = [i + 1 for i, t in enumerate(H) if t['k'] != 'gone']
    a = r.choice(live)
    t = H[a - 1]
    L, D, n = t['L'], t['D'], len(t['L'])
    shapeless = 'like' in t['k']
    diag = t['k'] in ('diag', 'dlike')
    labs = r.sample(L, r.randint(0, n))
    perm = r.sample(range(1, n + 1), n)
    bonded = any(p != OPEN for p in t['P'])
    if op == 'bad':
        c = r.choice(['front', 'legsof', 'rearrange', 'totensor', 'frontlegs', 'matrix', 'trace', 'fuselegs', 'fuse', 'sumleg', 'tag', 'mixed'])
        if n == 0:
            return None
        more = labs + [r.choice(L)] * (L.count(L[0]) + 1)
        if c in ('front', 'legsof'):
            return dict(op=c, a=a, labs=r.choice([labs + ['nosuch'], [L[0]] * (L.count(L[0]) + 1), ['nosuch'] + labs]))
        if c in ('rearrange', 'totensor'):
            if c == 'totensor' and shapeless:
                return dict(op=c, a=a, labs=list(L))
            w = r.sample(L, n)
            return dict(op=c, a=a, labs=r.choice([w[1:], w + [w[0]], w[1:] + [w[-1] if w[-1] != w[0] else 'nosuch'], sorted(set(w)) if len(set(w)) < n else w[1:]]))
        if c == 'frontlegs':
            return dict(op=c, a=a, ps=r.choice([perm[:1] * 2, perm + perm[:1], [0], perm[:1] + [0]]))
        if c == 'matrix':
            k = r.randint(0, n)
            ps, qs = perm[:k], perm[k:]
            x = r.choice(['less', 'twice', 'foreign'])
            if x == 'less':
                ps, qs = (ps[1:], qs) if ps else (ps, qs[1:])
            elif x == 'twice':
                ps = ps + perm[:1]
            else:
                qs = qs + [0]
            return dict(op=c, a=a, ps=ps, qs=qs)
        if c == 'trace':
            if diag:
                return None
            k = r.randint(0, n)
            return dict(op=c, a=a, ps=perm[:k], qs=perm[k:])
        if c == 'fuselegs':
            return dict(op=c, a=a, ps=r.choice([perm[:1] * 2, [], [0], perm[:1] + [0]]) if not diag else perm, new='m')
        if c == 'fuse':
            return dict(op=c, a=a, labs=r.choice([[L[0]] * 2, [], ['nosuch'], [L[-1], 'nosuch']]) if not diag else list(L), new='m')
        if c == 'sumleg':
            p = r.randint(1, n)
            if D[p - 1] < 2 or shapeless:
                return None
            return dict(op=c, a=a, p=p, w=[1] * (D[p - 1] + 1))
        if c == 'tag':
            if not any('-' in x for x in L):
                return dict(op='rename', a=a, **{'from': [r.choice(L)]}, to=['p-q'])
            return dict(op='tag', a=a, name='T')
        if c == 'mixed':
            m = [(x, y) for x in live for y in live if ('like' in H[x - 1]['k']) != ('like' in H[y - 1]['k'])]
            if not m:
                return dict(op='tolike', a=a) if len(live) < 4 else None
            return dict(op=r.choice(['contract', 'contractlist']), seq=[[0, 1]], inplace=r.random() < .5, **{'as': list(r.choice(m))})
        return None
    if op == 'index':
        return dict(op=op, a=a, lab=r.choice(L + ['nosuch']), back=r.random() < 0.5)
    if op == 'indices':
        return dict(op=op, a=a, labs=[r.choice(L + ['nosuch'] * (r.random() < .2)) for _ in range(r.randint(0, n))] if L else [], back=r.random() < 0.5)
    if op == 'shapes':
        return dict(op=op, a=a, labs=labs + ['nosuch'] * (r.random() < 0.3), back=r.random() < 0.5)
    if op in ('legsof', 'front'):
        return dict(op=op, a=a, labs=labs)
    if op in ('rearrange', 'totensor'):
        return None if op == 'totensor' and shapeless else dict(op=op, a=a, labs=r.sample(L, n))
    if op in ('frontlegs', 'complement'):
        return dict(op=op, a=a, ps=perm[:r.randint(0, n)])
    if op == 'matrix':
        if shapeless:
            return None
        k = r.randint(0, n)
        return dict(op=op, a=a, ps=perm[:k], qs=perm[k:], how='both')
    if op == 'trace':
        if shapeless or (diag and n % 2):
            return None
        for _ in range(8):
            perm = r.sample(range(1, n + 1), n)
            k = n // 2 if diag else r.randint(0, n)
            if np.prod([D[i - 1] for i in perm[:k]], dtype=int) == np.prod([D[i - 1] for i in perm[k:]], dtype=int):
                return dict(op=op, a=a, ps=perm[:k], qs=perm[k:])
        return None
    if op == 'rename':
        k = r.choice([1, 1, 2])
        return dict(op=op, a=a, **{'from': [r.choice(L + ['nosuch']) for _ in range(k)]}, to=[r.choice(['x', 'y', 'w', 'x-y', 'v', 'x-y-v', 'w-x-']) for _ in range(k)])
    if op == 'tag':
        return None if any('-' in x for x in L) else dict(op=op, a=a, name='T%d' % r.randint(1, 2))
    if op == 'untag':
        return dict(op=op, a=a)
    if op in ('copy', 'tolike'):
        return dict(op=op, a=a) if len(live) < 5 else None
    free = [i + 1 for i in range(n) if t['P'][i] == OPEN or r.random() < .1]
    if op == 'fuselegs':
        ps = r.sample(free, r.randint(1, len(free))) if free and not diag else None
        return ps and dict(op=op, a=a, ps=ps, new=r.choice(['m', 'x']))
    if op == 'fuse':
        c = [x for x in sorted(set(L)) if L.index(x) + 1 in free]
        ls = r.sample(c, r.randint(1, len(c))) if c and not diag else None
        return ls and dict(op=op, a=a, labs=ls, new=r.choice(['m', 'x']))
    if op == 'sumleg':
        if not free:
            return None
        p = r.choice(free)
        return dict(op=op, a=a, p=p, w=[r.randint(-2, 3) for _ in range(D[p - 1])] if r.random() < .5 else [])
    if op == 'sumout':
        if bonded and r.random() < .8:
            return None
        back = r.random() < 0.5
        ls = [r.choice(L + ['nosuch']) for _ in range(r.randint(1, 2))] if L else ['nosuch']
        w = []
        if len(ls) == 1 and len({D[i] for i in range(n) if L[i] == ls[0]}) == 1 and r.random() < .5:
            w = [r.randint(-2, 3) for _ in range(D[L.index(ls[0])])]
        return dict(op=op, a=a, labs=ls, back=back, w=w, bare=r.random() < .5)
    if op in ('contract', 'contractlist', 'copylist'):
        k = 2 if op == 'contract' else r.randint(1, len(live))
        if k > len(live):
            return None
        as_ = r.sample(live, k)
        if op == 'copylist':
            outer = [p[0] for x in as_ for p in H[x - 1]['P'] if p != OPEN and p[0] not in as_]
            outg = r.random() < 0.4
            return dict(op=op, like=r.random() < .2 and not (outg and outer), outg=outg, **{'as': as_}) if len(live) + k < 8 else None
        if len({('like' in H[x - 1]['k']) for x in as_}) > 1:
            return None
        rest = sum(1 for x in as_ for p in H[x - 1]['P'] if p == OPEN or p[0] not in as_)
        size = 1
        for x in as_:
            for d, p in zip(H[x - 1]['D'], H[x - 1]['P']):
                if p == OPEN or p[0] not in as_:
                    size *= d
        if rest > 5 or size > 100:
            return None
        mags = 1
        for x in as_:
            mags *= max([1] + [abs(v) for v in H[x - 1]['re'] + H[x - 1]['im']]) * 3
        if mags > 1e6:
            return None
        if op == 'contract':
            return dict(op=op, **{'as': as_})
        seq, idx = [], list(range(k))
        while len(idx) > 1:
            s, u = r.sample(idx, 2)
            seq.append([s, u])
            idx.remove(max(s, u))
        return dict(op=op, seq=seq if r.random() < .7 else [], inplace=r.random() < .5, **{'as': as_})
    raise KeyError(op)


def histories(run, prop, count, steps=4):
    recs = []
    seen = {}
    for i in range(count):
        r = random.Random('legs/%s/%s/%d' % (prop, run.seed, i))
        H = heap_random(r, KINDS.get(prop, ['dense', 'dense', 'dense', 'diag']))
        try:
            b = make(H)
        except Exception as x:
            run.violate('tensors with equal names cannot be made: %s' % x, dict(op='make', heap=H))
            return
        for _ in range(steps):
            S = b.snap()
            if all(len(t['L']) > 5 for t in S):
                break
            e = None
            for _ in range(6):
                e = event_random(r, S, r.choice(FOCUS[prop]))
                if e and not ('a' in e and len(S[e['a'] - 1]['L']) > 5):
                    break
                e = None
            if not e:
                continue
            rec = observe(b, e)
            recs.append(rec)
            seen[e['op']] = seen.get(e['op'], 0) + 1
            if rec['broken'] or (rec['failed'] and prop != 'C18'):
                break
            if any(max([0] + [abs(v) for v in t['re'] + t['im']]) > 10 ** 6 for t in rec['after']):
                break
    run.extra['repeated_names'] = seen
    for i in range(0, len(recs), 2000):
        validate_records(run, 'TraceLegs', recs[i:i + 2000])


def replay(run, prop, env, cap):
    """Every request of the closed model MCLegs on the real library."""
    from netchecks import behaviours
    bs = behaviours(run, 'MCLegs', env)
    ops = set(FOCUS[prop])
    if prop != 'C18':
        bs = [b for b in bs if b['e']['op'] in ops and b['ok']]
    else:
        bs = [b for b in bs if not b['ok']]
    run.extra['legs_model_requests'] = len(bs)
    if cap and len(bs) > cap:
        bs = random.Random('%s/%s' % (prop, run.seed)).sample(bs, cap)
    recs = []
    for b in bs:
        recs.append(observe(make(b['h']), b['e']))
    for i in range(0, len(recs), 2000):
        validate_records(run, 'TraceLegs', recs[i:i + 2000], label='MCLegs request')


def legs_check(run):
    p = run.prop
    if run.quick:
        replay(run, p, dict(WIDE='0'), 400)
        histories(run, p, 350)
    else:
        replay(run, p, dict(WIDE='1'), 6000)
        histories(run, p, 5000, steps=6)
