"""C09 and C10: matrix product states, judged by Mps."""
from net import *
from seqchecks import guarded, validate_records
from splitchecks import val, fixed, gram, dense, network

MAXCHI = 1000


def lab():
    from CTL.examples import MPS
    return MPS


# ---------------------------------------------------------------- building
def rnd(r, D, cplx, lo=-2, hi=2):
    n = int(np.prod(D, dtype=int))
    while True:
        a = np.array([r.randint(lo, hi) for _ in range(n)], dtype=float)
        if cplx:
            a = a + 1j * np.array([r.randint(-1, 1) for _ in range(n)])
        if np.any(a):
            return a.reshape(D)


def value(L, a):
    return val(L, np.asarray(a).shape, np.asarray(a))


def chain(r, n, phys, bonds, cplx, outer, pre):
    """Exact sites of an open chain as (names, array)."""
    sites = []
    for i in range(n):
        L = ([pre + '%d' % (i - 1)] if i else []) + [outer[i]] + ([pre + '%d' % i] if i < n - 1 else [])
        D = ([bonds[i - 1]] if i else []) + [phys[i]] + ([bonds[i]] if i < n - 1 else [])
        sites.append((L, rnd(r, D, cplx)))
    return sites


def einsum(sites, out):
    ids = {}
    args = []
    for L, a in sites:
        args += [a, [ids.setdefault(x, len(ids)) for x in L]]
    return np.einsum(*args, [ids[x] for x in out])


class Net:
    """Real tensors for a list of exact tensors; legs of equal names are linked, outer ones to dummies."""
    def __init__(self, r, sites, dummies=True, diag=()):
        X = lib()
        self.tok = {}
        self.hold = []
        self.ts = []
        ends = {}
        for i, (L, a) in enumerate(sites):
            p = r.sample(range(len(L)), len(L)) if i not in diag else list(range(len(L)))
            labels = ['q%d' % k for k in r.sample(range(9), len(L))]
            if i in diag:
                t = X.DiagonalTensor(data=given(a[(np.arange(a.shape[0]),) * len(L)]), labels=labels)
            else:
                t = X.Tensor(data=given(np.ascontiguousarray(np.transpose(a, p))), labels=labels)
            for k, j in enumerate(p):
                ends.setdefault(L[j], []).append(t.legs[k] if t.labels == labels else t.getLeg(labels[k]))
            self.ts.append(t)
        for x, ls in ends.items():
            if len(ls) == 2:
                ls = r.sample(ls, 2)
                X.makeLink(ls[0], ls[1])
            elif dummies:
                d = X.Tensor(data=given(np.arange(1.0, ls[0].dim + 1)), labels=['to'])
                self.hold.append(d)
                X.makeLink(ls[0], d.legs[0])
                self.tok[id(d.legs[0])] = x

    def token(self, leg):
        o = leg.anotherSide()
        if o is None:
            return ''
        if id(o) not in self.tok:
            raise Unreadable('outer leg leads to a stranger')
        if o.anotherSide() is not leg:
            raise Unreadable('partner of an outer leg does not lead back')
        return self.tok[id(o)]


def check_site(t, want):
    if sorted(t.labels) != sorted(want):
        raise Unreadable('site with legs %s' % (t.labels,))
    if not t.tensorLikeFlag:
        mustbe(t.a)
    if t.tensorLikeFlag or tuple(np.asarray(t.a).shape) != ((t.legs[0].dim,) if t.diagonalFlag else tuple(l.dim for l in t.legs)):
        raise Unreadable('site with data of another shape')
    for l in t.legs:
        if l.tensor is not t:
            raise Unreadable('leg of a site owned by another tensor')


def observe(m, token, others=None):
    """The state of an MPS object, see Mps."""
    n = m.n
    ts = [m.getTensor(i) for i in range(n)]
    L, B, gl, gr = [], [], [], []
    for i, t in enumerate(ts):
        check_site(t, ['o'] if n == 1 else ['o', 'r'] if i == 0 else ['l', 'o'] if i == n - 1 else ['l', 'o', 'r'])
    for i in range(n - 1):
        a, b = ts[i].getLeg('r'), ts[i + 1].getLeg('l')
        if a.anotherSide() is not b or b.anotherSide() is not a:
            raise Unreadable('neighbours are not joined by r and l')
        B.append(int(a.dim))
    outer = [t.getLeg('o') for t in ts]
    place = {id(l): str(i + 1) for i, l in enumerate(outer)}
    names, a = network(ts, lambda i, leg: place[id(leg)])
    empty = dict(L=[], D=[], re=[], im=[])
    for i, t in enumerate(ts):
        lab_ = list(t.labels)
        d = dense(t)
        d = np.transpose(d, [lab_.index(x) for x in ('l', 'o', 'r') if x in lab_])
        if i == 0:
            d = d[None]
        if i == n - 1:
            d = d[..., None]
        A = d.reshape(-1, d.shape[2])
        C = np.moveaxis(d, 0, 2).reshape(-1, d.shape[0])
        gl.append(gram(A.conj().T @ A) if i < n - 1 else empty)
        gr.append(gram(C.conj().T @ C) if i > 0 else empty)
    c = m.activeIdx
    o = np.argsort([int(x) for x in names])
    return dict(order=[token(l) for l in outer], v=fixed([names[j] for j in o], np.transpose(a, o)), B=B, gl=gl, gr=gr,
                chi=int(m.chi) if m.chi is not None else -7, centre=-1 if c is None else int(c))


# --------------------------------------------------------------- histories
def pair_rank(m, a, b):
    """Rank of the two sites a, b with their outer legs exchanged (0: no clear answer)."""
    i, j = min(a, b), max(a, b)
    n = m.n
    ds = []
    for k in (i, j):
        t = m.getTensor(k)
        ls = list(t.labels)
        d = np.transpose(dense(t), [ls.index(x) for x in ('l', 'o', 'r') if x in ls])
        if k == 0:
            d = d[None]
        if k == n - 1:
            d = d[..., None]
        ds.append(d)
    x = np.einsum('abc,cde->abde', ds[0], ds[1]).transpose(0, 2, 1, 3)
    s = np.linalg.svd(x.reshape(x.shape[0] * x.shape[1], -1), compute_uv=False)
    k = int((s > 1e-6 * s[0]).sum())
    return k if s[0] > 1e-3 and not np.any((s > 1e-10 * s[0]) & (s <= 1e-6 * s[0])) else 0


def perform(m, e, nt):
    X = lib()
    op = e['op']
    if op == 'canon':
        m.canonicalize(e['a'])
    elif op == 'swap':
        m.swap(e['a'], e['b'])
    elif op == 'move':
        if e.get('warn') is None:
            m.moveTensor(e['a'], e['b'])
        else:
            m.moveTensor(e['a'], e['b'], warningFlag=e['warn'])
    elif op == 'adj':
        x = m.makeAdjacent(e['a'], e['b'])
        e['ret'] = [int(x[0]), int(x[1])]
        if len(x) != 2:
            raise Unreadable('indices')
    elif op == 'check':
        e['ret'] = [1 if (m.checkCanonical() if e['a'] == -1 else m.checkCanonical(e['a'])) else 0]
    elif op == 'set':
        if 0 <= e['a'] < m.n:
            t = m.getTensor(e['a'])
            m.setTensor(e['a'], X.Tensor(data=t.a * e['k'], legs=list(t.legs)))
        else:
            m.setTensor(e['a'], m.getTensor(0))
    elif op == 'merge':
        if 0 <= e['a'] < m.n - 1:
            a, b = m.getTensor(e['a']), m.getTensor(e['a'] + 1)
            a.renameLabel('o', 'oa')
            b.renameLabel('o', 'ob')
            t = X.contract(a, b)
            t.outProduct(['oa', 'ob'], 'o')
            m.mergeTensor(e['a'], t)
        else:
            m.mergeTensor(e['a'], m.getTensor(0))
    elif op == 'copy':
        cs = m.copyOfTensors()
        ok = len(cs) == m.n
        for i, t in enumerate(cs):
            s = m.getTensor(i)
            if t is s or list(t.labels) != list(s.labels) and sorted(t.labels) != sorted(s.labels):
                ok = False
                continue
            p = [list(t.labels).index(x) for x in s.labels]
            ok = ok and same(np.transpose(t.a, p), s.a) and not np.shares_memory(t.a, s.a) and t.getLeg('o').bond is None
            ok = ok and (i == 0 or t.getLeg('l').anotherSide() is cs[i - 1].getLeg('r'))
        e['ret'] = [1 if ok else 0]
    elif op == 'query':
        ts = [m.getTensor(i) for i in range(m.n)]
        ok = all(m.hasTensor(t) and m.tensorIndex(t) == i for i, t in enumerate(ts)) and not any(m.hasTensor(t) for t in nt.hold)
        ok = ok and m.getTensor(m.n - 1) is ts[-1] and isinstance(repr(m), str)
        e['ret'] = [1 if ok else 0]


def step(**kw):
    return dict(dict(a=0, b=0, k=1, rank=0, ret=[0], exc='', obs=''), **kw)


def rand_step(r, n, merge, centre):
    x = r.random()
    if x < .12:                                   # requests that cannot be met
        return r.choice([step(op='canon', a=n), step(op='canon', a=-1), step(op='swap', a=0, b=2), step(op='swap', a=-1, b=0),
                         step(op='swap', a=n - 1, b=n), step(op='move', a=0, b=n), step(op='move', a=-1, b=0), step(op='adj', a=0, b=0),
                         step(op='adj', a=n, b=0), step(op='check', a=n), step(op='merge', a=n - 1), step(op='set', a=n), step(op='set', a=-1),
                         step(op='check', a=-1)])
    if x < .35 or n == 1:
        return step(op='canon', a=r.randrange(n))
    if x < .5:
        a = r.randrange(n - 1)
        return r.choice([step(op='swap', a=a, b=a + 1), step(op='swap', a=a + 1, b=a)])
    if x < .65:
        return step(op='move', a=r.randrange(n), b=r.randrange(n), warn=r.choice([None, True, False]))
    if x < .74 and not merge:
        a, b = r.sample(range(n), 2)
        return step(op='adj', a=a, b=b)
    if x < .8 and merge and n > 2:
        return step(op='merge', a=r.randrange(n - 1))
    if x < .9:
        return step(op='check', a=r.choice([-1, -1] + list(range(n))))
    if x < .94:
        return step(op='set', a=r.randrange(n), k=r.choice([-1, 2]))
    return step(op=r.choice(['copy', 'query']))


def history(r, steps=None, n=None, merge=None, exact=None):
    n = n or r.choice([1, 2, 2, 3, 3, 4, 4, 5])
    cplx = r.random() < .35
    merge = (steps is None and r.random() < .3) if merge is None else merge
    exact = r.random() < .6 if exact is None else exact
    while True:
        phys = [r.choice([1, 2, 2, 2, 3]) for _ in range(n)]
        bonds = [r.choice([1, 2, 2, 3]) for _ in range(n - 1)]
        outer = ['x%d' % i for i in range(n)]
        sites = chain(r, n, phys, bonds, cplx, outer, 'b')
        if np.prod(phys) <= 48 and np.any(einsum(sites, outer)):
            break
    chi = MAXCHI if exact else max(bonds + [1]) + r.choice([0, 0, 1, 2])
    rec = dict(op='hist', failed='', sites=[value(L, a) for L, a in sites], order=outer, chi=chi, steps=[], obs='')
    count = r.randint(3, 9)

    def f(rec):
        M = lab()
        nt = Net(r, sites, dummies=not merge)
        if r.random() < .25:
            orig = nt.ts
            keep = [np.array(t.a) for t in orig]
            m = M.FreeBoundaryMPS(orig, chi=chi, inplace=False)
            if any(m.getTensor(i) is t for i, t in enumerate(orig)):
                raise Unreadable('original tensors used')
        else:
            orig = None
            m = M.FreeBoundaryMPS(nt.ts, chi=chi)
        rec['obs'] = observe(m, nt.token)
        todo = [dict(step(), **s) for s in steps] if steps is not None else None
        for k in range(count if todo is None else len(todo)):
            e = todo[k] if todo is not None else rand_step(r, m.n, merge, m.activeIdx)
            if e['op'] == 'swap' and 0 <= e['a'] < m.n and 0 <= e['b'] < m.n and abs(e['a'] - e['b']) == 1:
                e['rank'] = pair_rank(m, e['a'], e['b'])
            try:
                perform(m, e, nt)
            except (OpTimeout, Unreadable):
                raise
            except Exception as x:
                e['exc'] = type(x).__name__
            e.pop('warn', None)
            e['obs'] = observe(m, nt.token)
            rec['steps'].append(e)
            if max([abs(v) for v in e['obs']['v']['re']] + [0]) > 4e8:
                break
        if orig is not None and not all(same(a, t.a) for a, t in zip(keep, orig)):
            raise Unreadable('original tensors changed')
    return guarded(f, rec)


# ------------------------------------------------------------ construction
def creation(r):
    n = r.choice([1, 2, 3, 3, 4, 5])
    cplx = r.random() < .35
    diag = n > 1 and r.random() < .15
    while True:
        d = r.choice([2, 3])
        phys = [d] * n if diag else [r.choice([1, 2, 2, 3]) for _ in range(n)]
        bonds = [d] * (n - 1) if diag else [r.choice([1, 1, 2, 3]) for _ in range(n - 1)]
        outer = ['x%d' % i for i in range(n)]
        sites = chain(r, n, phys, bonds, cplx, outer, 'b')
        if diag:
            for i, (L, a) in enumerate(sites):
                b = np.zeros_like(a)
                for j in range(d):
                    b[(j,) * a.ndim] = a[(j,) * a.ndim] if i == 0 else 1
                sites[i] = (L, b)
        if np.prod(phys) <= 60 and np.any(einsum(sites, outer)):
            break
    perm = list(range(n))
    chi = r.choice([MAXCHI, MAXCHI, 16, max(bonds + [1]), max(bonds + [1]), 1, 2])
    v = einsum(sites, outer)
    rec = dict(op='create', failed='', sites=[value(L, a) for L, a in sites], order=outer, bonds=bonds, chi=chi, obs='', given=fixed(outer, v))

    def f(rec):
        X = lib()
        nt = Net(r, [(outer, v)], dummies=r.random() < .7, diag=(0,) if diag else ())
        t = nt.ts[0]
        # one site per leg, in the order of the legs
        legs = list(t.legs)
        if diag or not nt.tok:
            # the legs are the indices in the order of the data
            if not diag:
                t2 = X.Tensor(data=given(v), labels=['q%d' % i for i in r.sample(range(9), n)])
                t = t2
        else:
            rec['order'] = [nt.token(l) for l in legs]
            p = [outer.index(x) for x in rec['order']]
            # the same tensor as a chain in another order: only exact when chi is no limit
            if rec['order'] != outer:
                rec['bonds'] = [MAXCHI if chi < MAXCHI else 1] * (n - 1)
        m = lab().createMPSFromTensor(t, chi=chi) if chi != 16 or r.random() < .5 else lab().createMPSFromTensor(t)
        rec['obs'] = observe(m, nt.token)
    return guarded(f, rec)


def randoms(r):
    n = r.choice([0, 1, 2, 2, 3, 4, 5])
    uni = r.random() < .4
    p = [r.choice([2, 3])] * n if uni else [r.choice([1, 2, 3]) for _ in range(n)]
    b = [r.choice([2, 3])] * max(n - 1, 0) if uni else [r.choice([1, 2, 3]) for _ in range(max(n - 1, 0))]
    rec = dict(op='random', failed='', valid=n > 1, p=list(p), b=list(b), chi=0, norms=[], obs='')
    pa = p[0] if uni and n else list(p)
    ba = b[0] if uni and n > 1 else list(b)
    if n > 1 and not uni and r.random() < .2:
        (ba if r.random() < .5 else pa).append(2)
        rec['valid'] = False
    chi = max(b + [1]) + r.randint(0, 2)
    deflt = uni and r.random() < .5
    rec['chi'] = b[0] if deflt and n > 1 else chi

    def f(rec):
        m = lab().makeRandomMPS(n, ba, pa) if deflt else lab().makeRandomMPS(n, ba, pa, chi)
        rec['obs'] = observe(m, lambda leg: '' if leg.bond is None else 'linked')
        rec['norms'] = [int(round(1000 * float(m.getTensor(i).norm()))) for i in range(m.n)]
    return guarded(f, rec)


def lists(r):
    n = r.choice([0, 1, 2, 3, 4])
    kind = r.choice(['good', 'cut', 'double', 'rank', 'order'])
    rec = dict(op='list', failed='', ranks=[], joins=[], same=True)

    def f(rec):
        X = lib()
        sites = chain(r, n, [2] * n, [2] * max(n - 1, 0), False, ['x%d' % i for i in range(n)], 'b') if n else []
        if n > 1 and kind == 'cut':
            k = r.randrange(n - 1)
            L, a = sites[k]
            sites[k] = ([x if x != 'b%d' % k else 'cut' for x in L], a)
        elif n > 1 and kind == 'double':
            k = r.randrange(n - 1)
            for j in (k, k + 1):
                L, a = sites[j]
                sites[j] = ([x if not x.startswith('x') else 'dd' for x in L], a)
        elif n > 1 and kind == 'rank':
            k = r.randrange(n)
            L, a = sites[k]
            if r.random() < .5:
                sites[k] = (L + ['more'], np.stack([a, a], axis=-1))
            else:
                j = [i for i, x in enumerate(L) if x.startswith('x')][0]
                sites[k] = ([x for x in L if not x.startswith('x')], a.sum(axis=j))
        elif n > 2 and kind == 'order':
            r.shuffle(sites)
        nt = Net(r, sites)
        ts = nt.ts
        rec['ranks'] = [len(t.legs) for t in ts]
        rec['joins'] = [len(set(sites[i][0]) & set(sites[i + 1][0])) for i in range(n - 1)]
        before = [(list(t.labels), np.array(t.a), [l.bond for l in t.legs]) for t in ts]
        try:
            lab().FreeBoundaryMPS(ts, chi=MAXCHI)
        finally:
            rec['same'] = all(b[0] == list(t.labels) and same(b[1], t.a) and b[2] == [l.bond for l in t.legs] for b, t in zip(before, ts))
    return guarded(f, rec)


# ---------------------------------------------------------- several states
def two(r, share, adjacent=False):
    """Two chains sharing bonds; returns sites of both and the outer names."""
    while True:
        nA, nB = r.choice([1, 2, 2, 3, 4]), r.choice([1, 2, 2, 3, 4])
        if share > min(nA, nB):
            continue
        cplx = r.random() < .3
        oa, ob = ['a%d' % i for i in range(nA)], ['c%d' % i for i in range(nB)]
        if adjacent:
            ia, ib = r.randrange(nA - 1), r.randrange(nB - 1)
            pa, pb = [ia, ia + 1], r.sample([ib, ib + 1], 2)
            ra = [i for i in range(nA) if i not in pa]
            rb = [i for i in range(nB) if i not in pb]
            if share > 2:
                if not ra or not rb:
                    continue
                pa.append(r.choice(ra))
                pb.append(r.choice(rb))
        else:
            pa, pb = r.sample(range(nA), share), r.sample(range(nB), share)
            ia = ib = 0
        dA, dB = [r.choice([1, 2, 2, 3]) for _ in range(nA)], [r.choice([1, 2, 2, 3]) for _ in range(nB)]
        for k, (i, j) in enumerate(zip(pa, pb)):
            oa[i] = ob[j] = 's%d' % k
            dB[j] = dA[i]
        A = chain(r, nA, dA, [r.choice([1, 2, 2, 3]) for _ in range(nA - 1)], cplx, oa, 'u')
        B = chain(r, nB, dB, [r.choice([1, 2, 2, 3]) for _ in range(nB - 1)], cplx, ob, 'w')
        outer = [x for x in oa + ob if not x.startswith('s')]
        size = int(np.prod([d for x, d in zip(oa + ob, dA + dB) if not x.startswith('s')], dtype=int))
        if size > 100:
            continue
        v = einsum(A + B, outer)
        if np.any(v) and np.any(einsum(A, oa)) and np.any(einsum(B, ob)) and np.abs(v).max() < 1e5:
            return A, B, outer, ia, ib, pa, pb


def whole(op, **kw):
    return dict(dict(op=op, failed='', valid=True, same=True, sites=[], outer=[], obs=[], wantchi=[], common=0, wantcommon=0, tight=0, newdim=0, free=False, res=''), **kw)


def result(ts, nt):
    L, a = network(ts, lambda i, leg: nt.token(leg) or '?')
    if '?' in L:
        raise Unreadable('outer leg without partner')
    return fixed(L, a)


def states(r, A, B, nt, chis):
    M = lab()
    ms = []
    k = len(A)
    for ts, chi in ((nt.ts[:k], chis[0]), (nt.ts[k:], chis[1])):
        m = M.FreeBoundaryMPS(ts, chi=chi)
        if r.random() < .3:
            m.canonicalize(r.randrange(m.n))
        ms.append(m)
    return ms


def shared_token(ma, mb, nt):
    """Token function accepting legs between the two states."""
    mine = {id(l) for m in (ma, mb) for i in range(m.n) for l in m.getTensor(i).legs}

    def f(leg):
        o = leg.anotherSide()
        if o is not None and id(o) in mine:
            if o.anotherSide() is not leg:
                raise Unreadable('bond between the states')
            return 'shared'
        return nt.token(leg)
    return f


def sites_of(*ms):
    return [m.getTensor(i) for m in ms for i in range(m.n)]


def ncommon(ma, mb):
    a = {id(l): l for i in range(ma.n) for l in ma.getTensor(i).legs}
    return [l for i in range(mb.n) for l in mb.getTensor(i).legs if l.anotherSide() is not None and id(l.anotherSide()) in a]


def unchanged(ma, mb, nt, before):
    L, a = network(sites_of(ma, mb), lambda i, leg: nt.token(leg) or '?')
    if sorted(L) != sorted(before[0]):
        return False
    return bool(np.allclose(np.transpose(a, [L.index(x) for x in before[0]]), before[1], atol=1e-6 * (1 + np.abs(before[1]).max())))


def contract2(r):
    share = r.choice([1] * 8 + [0, 2])
    A, B, outer, *_ = two(r, share)
    chis = [r.choice([MAXCHI, 2 * MAXCHI]), r.choice([MAXCHI, 3 * MAXCHI])]
    rec = whole('contract2', sites=[value(L, a) for L, a in A + B], outer=outer, valid=share == 1)

    def f(rec):
        nt = Net(r, A + B)
        ma, mb = states(r, A, B, nt, chis)
        before = network(sites_of(ma, mb), lambda i, leg: nt.token(leg) or '?')
        try:
            m = lab().contractMPS(ma, mb)
        except Exception:
            rec['same'] = unchanged(ma, mb, nt, before)
            raise
        if isinstance(m, lab().FreeBoundaryMPS):
            rec['obs'] = [observe(m, nt.token)]
            rec['wantchi'] = [min(chis)]
            rec['res'] = result(sites_of(m), nt)
        else:
            rec['res'] = result([m], nt)
    return guarded(f, rec)


def merge2(r):
    how = r.choice(['all', 'all', 'all', 'late', 'pair', 'bond'])
    share = r.choice([0, 1, 2, 2, 3]) if how in ('all', 'late') else r.choice([2, 2, 3])
    A, B, outer, ia, ib, pa, pb = two(r, share, adjacent=how == 'pair')
    tight = how in ('all', 'bond') and share > 1 and r.random() < .25
    chis = [3, r.choice([3, 4])] if tight else [r.choice([MAXCHI, 2 * MAXCHI]), r.choice([MAXCHI, 3 * MAXCHI])]
    rec = whole('merge2', sites=[value(L, a) for L, a in A + B], outer=outer, wantchi=list(chis), tight=min(chis) if tight else 0,
                valid=not (how == 'late' and share > 2), wantcommon=min(share, 1) if how in ('all', 'late') else share - 1)

    def f(rec):
        nt = Net(r, A + B)
        ma, mb = states(r, A, B, nt, chis)
        before = network(sites_of(ma, mb), lambda i, leg: nt.token(leg) or '?')
        bond = None
        try:
            M = lab()
            if how == 'all':
                M.mergeMPS(ma, mb)
            elif how == 'late':
                M.mergeMPS(ma, mb, beginFlag=False)
            elif how == 'pair':
                bond = M.doubleMerge(ma, mb, ia, ib)
            else:
                b1, b2 = r.sample(M.commonBonds(ma, mb), 2)
                bond = M.doubleMergeByBond(ma, mb, b1, b2)
        except Exception:
            rec['same'] = unchanged(ma, mb, nt, before)
            raise
        c = ncommon(ma, mb)
        rec['common'] = len(c)
        if len(M.commonBonds(ma, mb)) != len(c) or [len(x) for x in M.commonLegs(ma, mb)] != [len(c), len(c)]:
            raise Unreadable('common bonds')
        if bond is not None and not any(l.bond is bond for l in c):
            raise Unreadable('bond returned')
        if share > 1:
            rec['newdim'] = int(bond.legs[0].dim if bond is not None else c[0].dim)
        tk = shared_token(ma, mb, nt)
        rec['obs'] = [observe(ma, tk), observe(mb, tk)]
        rec['res'] = result(sites_of(ma, mb), nt)
    return guarded(f, rec)


def network_case(r):
    while True:
        n = r.choice([1, 2, 2, 3, 3, 4, 4, 5])
        cplx = r.random() < .3
        L = [[] for _ in range(n)]
        dims = {}
        for i in range(1, n):
            j = r.randrange(i)
            x = 'e%d' % len(dims)
            dims[x] = r.choice([1, 2, 2, 2, 3])
            L[i].append(x)
            L[j].append(x)
        for _ in range(r.choice([0, 0, 1, 2, 3]) if n > 1 else 0):
            i, j = r.sample(range(n), 2)
            x = 'e%d' % len(dims)
            dims[x] = 2
            L[i].append(x)
            L[j].append(x)
        outer = []
        for i in range(n):
            while r.random() < .3 and len(outer) < 4:
                x = 'x%d' % len(outer)
                outer.append(x)
                dims[x] = r.choice([1, 2, 2])
                L[i].append(x)
        if any(not x or len(x) > 4 for x in L) or np.prod([dims[x] for x in outer], dtype=int) > 32:
            continue
        diag = []
        sites = []
        for i in range(n):
            r.shuffle(L[i])
            D = [dims[x] for x in L[i]]
            if len(D) > 1 and len(set(D)) == 1 and r.random() < .12:
                a = np.zeros(D)
                for j in range(D[0]):
                    a[(j,) * len(D)] = r.choice([1, -1, 2])
                diag.append(i)
            else:
                a = rnd(r, D, cplx)
            sites.append((L[i], a))
        v = einsum(sites, outer)
        if np.any(v) and np.abs(v).max() < 1e5:
            return sites, outer, diag


def sequence_over_bonds(r, sites):
    live = {i: set(L) for i, (L, a) in enumerate(sites)}
    seq = []
    while len(live) > 1:
        ps = [(i, j) for i in live for j in live if i != j and live[i] & live[j]]
        i, j = r.choice(ps)
        seq.append((i, j))
        lo, hi = min(i, j), max(i, j)
        u = live[i] ^ live[j]
        live[lo] = u
        del live[hi]
    return seq


def over_bonds(sites, seq):
    live = {i: set(L) for i, (L, a) in enumerate(sites)}
    for i, j in seq:
        if not live[i] & live[j]:
            return False
        lo, hi = min(i, j), max(i, j)
        live[lo] = live[i] ^ live[j]
        del live[hi]
    return True


def contract_net(r):
    sites, outer, diag = network_case(r)
    rec = whole('net', sites=[value(L, a) for L, a in sites], outer=outer)
    how = r.choice(['greedy', 'greedy', 'optimal', 'given', 'given', 'given'])
    seq = sequence_over_bonds(r, sites)
    rec['how'] = how

    def f(rec):
        nt = Net(r, sites, diag=diag)
        kw = dict(chi=MAXCHI)
        if how != 'given':
            # the sequence the search would give must be one over bonds
            g = lib().oc.generateGreedySequence(nt.ts) if how == 'greedy' else lib().oc.generateOptimalSequence(nt.ts)
            if not over_bonds(sites, g):
                kw['seq'] = list(seq)
                rec['how'] = 'given'
        if 'seq' in kw:
            pass
        elif how == 'optimal':
            kw['greedyFlag'] = False
        elif how == 'given':
            kw['seq'] = list(seq)
        t = lab().contractWithMPS(nt.ts, **kw)
        if any(l.bond is None for l in t.legs):
            if any(l.bond is not None for l in t.legs):
                raise Unreadable('some legs of the result attached')
            rec['free'] = True
            rec['res'] = fixed([str(i + 1) for i in range(len(t.legs))], dense(t))
        else:
            rec['res'] = result([t], nt)
    return guarded(f, rec)


# ------------------------------------------------------------------ checks
KNOWN = {'centre kept by mergeTensor': 'mps-merge-centre'}


def judge(run, recs):
    ev = run.extra.setdefault('events', {})
    for e in recs:
        for k in [e['op']] + ['hist.' + s['op'] for s in e.get('steps', [])]:
            ev[k] = ev.get(k, 0) + 1
    run.sample({k: v for k, v in recs[0].items() if k not in ('steps', 'obs')})
    for i in range(0, len(recs), 600):
        had = len(run.violations)
        validate_records(run, 'TraceMps', recs[i:i + 600])
        for what, d in run.violations[had:]:
            for text, key in KNOWN.items():
                if text in what:
                    d['key'] = key


def probe_default_chi(run):
    """FreeBoundaryMPS built without chi: the limit recorded is that of its bonds."""
    r = random.Random('probe')
    sites = chain(r, 3, [2, 2, 2], [2, 2], False, ['x0', 'x1', 'x2'], 'b')
    rec = guarded(lambda rec: rec.update(chi=int(lab().FreeBoundaryMPS(Net(r, sites).ts).chi)), dict(failed='', chi=0))
    if rec['failed'] or rec['chi'] != 2:
        run.violate('FreeBoundaryMPS without chi records %s for bonds of dimension 2' % (rec['failed'] or rec['chi']),
                    dict(key='mps-default-chi' if rec['chi'] == -1 else 'default-chi', rec=rec))


def probe_merge_centre(run):
    r = random.Random('probe')
    judge(run, [history(r, steps=[step(op='canon', a=3), step(op='merge', a=0)], n=4, merge=True, exact=True)])


def probe_outer(run):
    """A network whose best sequence has an outer product."""
    r = random.Random('probe')
    sites = [(['x0', 'e1', 'e0'], rnd(r, [1, 2, 2], False)), (['e0'], rnd(r, [2], False)), (['e1'], rnd(r, [2], False))]
    rec = whole('net', sites=[value(L, a) for L, a in sites], outer=['x0'])

    def f(rec):
        t = lab().contractWithMPS(Net(r, sites).ts, chi=MAXCHI, greedyFlag=False)
        rec['ok'] = bool(np.allclose(np.ravel(dense(t)), np.ravel(einsum(sites, ['x0']))))
    rec = guarded(f, rec)
    if rec['failed'] or not rec['ok']:
        run.violate('contractWithMPS(greedyFlag=False) on a star: ' + (rec['failed'] or 'wrong value'),
                    dict(key='mps-outer-product' if rec['failed'] == 'AssertionError' else 'mps-star', rec=rec))


def model(run, n, depth):
    """The closed model of the moves; its behaviours are performed on real states."""
    from netchecks import behaviours
    hs = behaviours(run, 'MCMps', dict(SITES=str(n), DEPTH=str(depth)))
    r = random.Random('%s/%s' % (run.seed, n))
    return [history(random.Random('%s/%s/%s/%d' % (run.seed, n, depth, i)), steps=h, n=n, merge=False, exact=r.random() < .8) for i, h in enumerate(hs)]


def many(run, f, count):
    return [f(random.Random('%s/%s/%s/%d' % (run.prop, run.seed, f.__name__, i))) for i in range(count)]


def c09(run):
    from netchecks import require_lib
    if not require_lib(run):
        return
    probe_default_chi(run)
    probe_merge_centre(run)
    judge(run, model(run, 3, 2))
    judge(run, model(run, 4, 1 if run.quick else 2))
    if not run.quick:
        judge(run, model(run, 3, 3))
    judge(run, many(run, history, run.n(700, 9000)))
    judge(run, many(run, lists, run.n(150, 1000)))
    run.assumptions.append('bonds given do not exceed the given chi; a truncating exchange is only held to the bound on its bond')


def c10(run):
    from netchecks import require_lib
    if not require_lib(run):
        return
    probe_outer(run)
    judge(run, many(run, creation, run.n(500, 5000)))
    judge(run, many(run, randoms, run.n(150, 1000)))
    judge(run, many(run, contract2, run.n(400, 5000)))
    judge(run, many(run, merge2, run.n(400, 5000)))
    judge(run, many(run, contract_net, run.n(400, 5000)))
