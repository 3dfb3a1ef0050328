"""C08 and C13: splittings over a bounded bond, judged by Split."""
from net import *
from seqchecks import guarded, validate_records

SCALE = 1000


# ---------------------------------------------------------------- certificates
def block(r, n, cplx):
    """An n x n Gaussian-integer matrix with orthogonal columns."""
    if n == 1:
        m = np.array([[r.choice([1, -1, 2])]])
    elif n == 2:
        a, b = r.choice([(1, 1), (1, 2), (1, 0), (2, 1), (1, 3)])
        m = np.array([[a, -b], [b, a]])
    elif n == 3:
        m = np.array([[1, 2, 2], [2, 1, -2], [2, -2, 1]])
    elif n == 4:
        a, b, c, d = r.choice([(1, 1, 1, 1), (1, 1, 0, 1), (1, 2, 1, 0), (1, 0, 0, 1), (2, 1, 1, 1)])
        m = np.array([[a, -b, -c, -d], [b, a, -d, c], [c, d, a, -b], [d, -c, b, a]])
    else:
        raise ValueError(n)
    m = m.astype(complex)
    return m


def orth(r, n, cplx):
    """Integer matrix with orthogonal columns, as dense as the size allows."""
    ms = []
    left = n
    if n in (6, 8, 9, 12, 16) and r.random() < 0.7:
        a, b = {6: (2, 3), 8: (2, 4), 9: (3, 3), 12: (3, 4), 16: (4, 4)}[n]
        m = np.kron(block(r, a, cplx), block(r, b, cplx))
    else:
        while left > 0:
            k = min(left, r.choice([1, 2, 2, 3, 4, 4]))
            ms.append(block(r, k, cplx))
            left -= k
        m = np.zeros((n, n), dtype=complex)
        p = 0
        for b in ms:
            k = len(b)
            m[p:p + k, p:p + k] = b
            p += k
    m = m[r.sample(range(n), n)][:, r.sample(range(n), n)]
    units = [1, -1, 1j, -1j] if cplx else [1, -1]
    m = m * np.array([r.choice(units) for _ in range(n)])[:, None] * np.array([r.choice(units) for _ in range(n)])[None, :]
    return m


def val(L, D, a):
    a = np.asarray(a)
    re, im = [int(round(x)) for x in a.real.ravel()], [int(round(x)) for x in np.asarray(a.imag).ravel()]
    return dict(L=list(L), D=[int(d) for d in D], re=re, im=im if any(im) else [])


def certificate(r, R, C, rank, cplx, psd=False, square=False):
    """(U, V, s) with distinct strengths in descending order."""
    for _ in range(300):
        U = orth(r, R, cplx)
        V = U.conj() if psd else orth(r, C, cplx)
        ku = r.sample(range(R), rank)
        kv = ku if psd else r.sample(range(C), rank)
        U2, V2 = U[:, ku], V[:, kv]
        s = np.array([r.randint(1, 6 if rank < 4 else 9) for _ in range(rank)])
        nu = np.rint((abs(U2) ** 2).sum(0)).astype(int)
        nv = np.rint((abs(V2) ** 2).sum(0)).astype(int)
        q = s * s * nu * nv
        o = np.argsort(-q)
        U2, V2, s, q = U2[:, o], V2[:, o], s[o], q[o]
        if len(set(q)) < rank or q.max() > 40000:
            continue
        if square and any(int(round(x ** .5)) ** 2 != x for x in q):
            continue
        return U2, V2, s, q
    return None


def unimodular(r, n):
    g = np.eye(n, dtype=int)
    h = np.eye(n, dtype=int)
    for _ in range(r.randint(0, 3) if n > 1 else 0):
        i, j = r.sample(range(n), 2)
        k = r.choice([1, -1])
        # g -> E g, h -> h E^-1
        g[i] += k * g[j]
        h[:, j] -= k * h[:, i]
    if n > 1 and r.random() < 0.7:
        p = r.sample(range(n), n)
        g, h = g[p], h[:, p]
    return g, h


# ------------------------------------------------------------------ projection
def fixed(L, a, scale=SCALE):
    a = np.asarray(a)
    if a.size and not np.all(np.isfinite(a)):
        raise Unreadable('not finite')

    def f(x):
        return [int(v) for v in np.clip(np.rint(np.asarray(x, dtype=float) * scale), -2e9, 2e9).ravel()]
    im = f(a.imag) if np.iscomplexobj(a) else []
    return dict(L=list(L), D=[int(d) for d in a.shape], re=f(a.real), im=im if any(im) else [])


def gram(m):
    return fixed([], m)


def dense(t):
    """The entries of a tensor with all its legs, by numpy alone."""
    if not t.diagonalFlag or len(t.legs) == 0:
        return np.asarray(t.a)
    a = np.zeros(tuple(l.dim for l in t.legs), dtype=np.asarray(t.a).dtype)
    a[np.diag_indices(t.legs[0].dim, len(t.legs))] = t.a
    return a


def network(ts, name):
    """Einstein sum of linked tensors by numpy; name(tensor index, leg) gives the name of an open leg."""
    ids, args, out, L = {}, [], [], []
    mine = {id(l) for t in ts for l in t.legs}
    for i, t in enumerate(ts):
        sub = []
        for leg in t.legs:
            o = leg.anotherSide()
            if o is not None and id(o) in mine:
                key = tuple(sorted((id(leg), id(o))))
                sub.append(ids.setdefault(key, len(ids)))
            else:
                k = ids.setdefault(id(leg), len(ids))
                sub.append(k)
                out.append(k)
                L.append(name(i, leg))
        args += [dense(t), sub]
    return L, np.einsum(*args, out)


# ------------------------------------------------------------------ pairs
def split_dims(r, n):
    """Random ordered factorisation of n into 0..3 dimensions (1s included at times)."""
    res = []
    while n > 1:
        fs = [d for d in range(2, n + 1) if n % d == 0]
        d = r.choice(fs)
        res.append(d)
        n //= d
    if r.random() < 0.15:
        res.append(1)
    r.shuffle(res)
    return res


NAMES = ['l', 'r', 'u', 'd', 'x', 'y', 'o', 'b', 'a', 'phys']


def pair(r, op, like=False):
    """A random linked pair with known singular values, and bystanders; returns (world, event)."""
    while True:
        w = World()
        cplx = r.random() < 0.35
        R, C = r.choice([1, 2, 2, 3, 4, 4, 6, 8]), r.choice([1, 2, 3, 4, 4, 6, 8])
        da, db = split_dims(r, R), split_dims(r, C)
        if not da and r.random() < .7 or not db and r.random() < .7:
            continue
        if len(da) + len(db) > 5:
            continue
        K = r.choice([1, 2, 3, 4, 4, 6, 8])
        ds = split_dims(r, K)
        if not ds:
            ds = [1]
        if len(ds) > 3:
            continue
        na, nb = r.sample(NAMES, len(da)), r.sample(NAMES, len(db))
        restA = [n for n in NAMES + ['s%d' % i for i in range(4)] if n not in na]
        restB = [n for n in NAMES + ['s%d' % i for i in range(4)] if n not in nb]
        sa = r.sample(restA, len(ds))
        sb = r.sample(restB, len(ds))
        if op == 'schmidt' and any(x == y for x, y in zip(sa, sb)):
            continue
        swapA, swapB = [], []
        if op == 'schmidt' and r.random() < 0.5 and na and nb:
            k = r.randint(1, min(len(na), len(nb), 2))
            swapA, swapB = r.sample(na, k), r.sample(nb, k)
        if op == 'schmidt' and (set(swapB) & set(sa) or set(swapA) & set(sb)):
            continue
        finalU = [n for n in na if n not in swapA] + swapB
        finalV = [n for n in nb if n not in swapB] + swapA
        if len(set(finalU)) < len(finalU) or len(set(finalV)) < len(finalV):
            continue
        dimA, dimB = dict(zip(na, da)), dict(zip(nb, db))
        du = [dimA[n] for n in na if n not in swapA] + [dimB[n] for n in swapB]
        dv = [dimB[n] for n in nb if n not in swapB] + [dimA[n] for n in swapA]
        RU, CV = int(np.prod(du, dtype=int)), int(np.prod(dv, dtype=int))
        if RU > 8 or CV > 8:
            continue
        name = r.choice(['', '', 'm', 'link']) if op == 'merge' else ''
        if name and (name in na or name in nb):
            continue
        top = min(RU, CV) if swapA else min(RU, CV, K)
        if swapA and K < min(R, C):
            continue
        rank = top if r.random() < 0.5 else r.randint(1, top)
        ce = certificate(r, RU, CV, rank, cplx)
        if ce is None:
            continue
        U, V, s, q = ce
        M = (U * s) @ V.T
        # M over (finalU | finalV) as tensor, then as matrix (na | nb)
        T = M.reshape(du + dv)
        pos = [('a', n) for n in na if n not in swapA] + [('b', n) for n in swapB] + \
              [('b', n) for n in nb if n not in swapB] + [('a', n) for n in swapA]
        order = [pos.index(('a', n)) for n in na] + [pos.index(('b', n)) for n in nb]
        Mat = T.transpose(order).reshape(R, C)
        G, Gi = unimodular(r, K)
        if not swapA:
            A0, B0 = np.zeros((R, K), dtype=complex), np.zeros((K, C), dtype=complex)
            half = r.random() < 0.5
            A0[:, :rank] = U * s if half else U
            B0[:rank] = V.T if half else (V * s).T
            if rank < K and r.random() < 0.5:
                # an operand of higher rank than the product
                B0[rank:] = np.array([[r.randint(-2, 2) for _ in range(C)] for _ in range(K - rank)])
        elif R <= C:
            A0, B0 = np.zeros((R, K), dtype=complex), np.zeros((K, C), dtype=complex)
            A0[:, :R] = np.eye(R)
            B0[:R] = Mat
        else:
            A0, B0 = np.zeros((R, K), dtype=complex), np.zeros((K, C), dtype=complex)
            A0[:, :C] = Mat
            B0[:C] = np.eye(C)
        A, B = A0 @ Gi, G @ B0
        if np.abs(A).max() > 500 or np.abs(B).max() > 500:
            continue
        assert np.allclose(A @ B, Mat)
        chi = r.choice([1, 1, 2, 2, 3, rank, max(rank - 1, 1), 20])
        break
    LA, LB = na + sa, sb + nb
    TA = A.reshape(da + ds)
    TB = B.reshape(ds + db)

    def new(i, L, t):
        p = r.sample(range(len(L)), len(L))
        t = t.transpose(p)
        e = val([L[j] for j in p], t.shape, t)
        e.update(op='new', r=i, kind='like' if like else 'dense', via=r.choice(['labels', 'legs', 'fortran', 'shape']) if not like else 'labels',
                 _complex=cplx)
        if like:
            e['re'], e['im'] = [], []
        w.do(e)
    new('A', LA, TA)
    new('B', LB, TB)
    ks = r.sample(range(len(ds)), len(ds))
    for k in ks:
        if r.random() < .5:
            w.do(dict(op='link', a='A', la=[sa[k]], b='B', lb=[sb[k]]))
        else:
            w.do(dict(op='link', a='B', la=[sb[k]], b='A', lb=[sa[k]]))
    # bystanders
    free = [('A', n, dimA[n]) for n in na] + [('B', n, dimB[n]) for n in nb]
    for i in range(r.choice([0, 0, 1, 1, 2])):
        tgt = r.sample(free, min(len(free), r.randint(0, 2)))
        L = ['c%d' % j for j in range(len(tgt))] + (['z'] if r.random() < .4 else [])
        D = [t[2] for t in tgt] + ([2] if len(L) > len(tgt) else [])
        t = np.array([r.randint(-3, 3) for _ in range(int(np.prod(D, dtype=int)))]).reshape(D)
        new('C%d' % i, L, t.astype(complex))
        w.do(dict(op='link', a='C%d' % i, la=['c%d' % j for j in range(len(tgt))], b='', lb=[]) if not tgt else
             dict(op='link', a='C%d' % i, la=['c0'], b=tgt[0][0], lb=[tgt[0][1]]))
        for j in range(1, len(tgt)):
            w.do(dict(op='link', a=tgt[j][0], la=[tgt[j][1]], b='C%d' % i, lb=['c%d' % j]))
        free = [f for f in free if f not in tgt]
    # scramble the internal order of the legs
    for i in ('A', 'B'):
        if r.random() < .5:
            L = list(w.t[i].labels)
            w.t[i].moveLabelsToFront(r.sample(L, r.randint(1, len(L))))
    e = dict(op=op, a='A', b='B', u='u', v='v', m='', chi=chi, name=name, swapA=swapA, swapB=swapB,
             cert=dict(U=val(['1' + n for n in finalU] + ['*'], du + [rank], U), V=val(['2' + n for n in finalV] + ['*'], dv + [rank], V),
                       s=[int(x) for x in s]))
    if like:
        e['cert'] = ''
    return w, e


def run_pair(r, w, e):
    X = lib()
    e['pre'] = w.snap()
    e.update(post=[], prod='', gramU='', gramV='', mdiag=True, like={})
    swapped = e['op'] == 'merge' and r.random() < 0.4
    sqrt = e['op'] == 'schmidt' and r.random() < 0.5
    # the same pair in other units (an exact power of two): what is zero does not depend on them
    unit = r.choice([0] * 5 + [-26, -13, 20]) if e['op'] == 'merge' else 0

    def f(rec):
        ta, tb = w.t['A'], w.t['B']
        if unit and not ta.tensorLikeFlag:
            ta.a, tb.a = ta.a * 2.0 ** unit, tb.a * 2.0 ** unit
        kw = {}
        if e['op'] == 'merge':
            if e['chi'] == 20 and r.random() < .3:
                e['chi'] = rec['chi'] = 0
            if e['chi']:
                kw['chi'] = e['chi']
            if e['name']:
                kw['bondName'] = e['name']
            if r.random() < .3:
                kw['renameWarning'] = False
            if swapped:
                v, u = X.merge(tb, ta, **kw)
            else:
                u, v = X.merge(ta, tb, **kw)
            m = None
        else:
            from CTL.examples.Schimdt import SchimdtDecomposition
            if e['swapA']:
                kw['swapLabels'] = (list(e['swapA']), list(e['swapB']))
            if sqrt:
                kw['squareRootSeparation'] = True
            u, m, v = SchimdtDecomposition(ta, tb, e['chi'], **kw)
            if sqrt and m is not None:
                raise Unreadable('middle tensor returned')
        del w.t['A'], w.t['B']
        w.t['u'], w.t['v'] = u, v
        facs = [u, v]
        rec['like'] = dict(u=bool(u.tensorLikeFlag), v=bool(v.tensorLikeFlag))
        if m is not None:
            w.t['m'] = m
            rec['m'] = 'm'
            rec['mdiag'] = bool(m.diagonalFlag)
            rec['like']['m'] = bool(m.tensorLikeFlag)
            facs.append(m)
        if all(not x.tensorLikeFlag for x in facs):
            mustbe(*[x.a for x in facs])
            for x in facs:
                if np.asarray(x.a).shape != ((x.legs[0].dim,) if x.diagonalFlag else tuple(l.dim for l in x.legs)):
                    raise Unreadable('data of shape %s' % (np.asarray(x.a).shape,))
            L, a = network(facs, lambda i, leg: '123'[i] + leg.name)
            a = a * 2.0 ** (-2 * unit)
            rec['prod'] = fixed(L, a)
            if m is not None:
                for nm, x in (('gramU', u), ('gramV', v)):
                    k = [j for j, l in enumerate(x.legs) if l.anotherSide() is not None and l.anotherSide().tensor is m]
                    mat = np.moveaxis(dense(x), k[0], -1).reshape(-1, x.legs[k[0]].dim)
                    rec[nm] = gram(mat.conj().T @ mat)
        # only the structure of the factors is in the snapshot
        keep = {}
        rec['post'] = snap_structure(w, [i for i in ('u', 'v', 'm') if i in w.t])
    return guarded(f, e | dict(failed=''))


def snap_structure(w, factors):
    """Snapshot in which the factors (which have real entries) appear as shape-only."""
    held = {}
    for i in factors:
        t = w.t[i]
        held[i] = (t.tensorLikeFlag,)
        t.tensorLikeFlag = True
    try:
        s = w.snap()
    finally:
        for i, (fl,) in held.items():
            w.t[i].tensorLikeFlag = fl
    return s


# ---------------------------------------------------------------- matrices
def matrix_case(r, psd=False, square=False, cplx=None):
    while True:
        R, C = r.choice([1, 2, 3, 4, 4, 6, 8]), r.choice([1, 2, 3, 4, 4, 6, 8])
        if psd:
            C = R
        c = r.random() < 0.3 if cplx is None else cplx
        top = min(R, C)
        rank = top if r.random() < .5 else r.randint(1, top)
        ce = certificate(r, R, C, rank, c, psd, square)
        if ce:
            break
    U, V, s, q = ce
    M = (U * s) @ V.T
    if not c:
        M = M.real
    cert = dict(U=val(['r', '*'], [R, rank], U), V=val(['c', '*'], [C, rank], V), s=[int(x) for x in s], root=[])
    if square:
        cert['root'] = [int(round(x ** .5)) for x in q]
    chi = r.choice([1, 1, 2, 3, rank, max(rank - 1, 1), rank + 1, 20])
    return M, cert, R, C, rank, chi, q


def rec0(op, **kw):
    e = dict(op=op, failed='', prod='', gramU='', gramV='', vals=[], err=0, k=0, sv=True, order=2)
    e.update(kw)
    return e


def squares(s):
    return ints(np.asarray(s, dtype=float) ** 2)


def million(x):
    x = float(x)
    if not np.isfinite(x):
        raise Unreadable('error not finite')
    return int(round(min(max(x, -1000), 1000) * 1e6))


def do_svd(r):
    order = r.choice([2, 2, 4, 1])
    M, cert, R, C, rank, chi, q = matrix_case(r, square=order == 1)
    if order == 4:
        cert = None
        while cert is None or max(x for x in q) > 600:
            M, cert, R, C, rank, chi, q = matrix_case(r)
    sv = r.random() < .6
    e = rec0('svd', cert=cert, mat=val([], M.shape, M), chi=chi, order=order, sv=sv)

    def f(rec):
        from CTL.funcs.decompose import SVDDecomposition
        kw = dict(chi=chi)
        if order != 2 or r.random() < .5:
            kw['errorOrder'] = order
        a = given(np.array(M))
        keep = a.copy()
        if sv:
            u, s, vh, err = SVDDecomposition(a, returnSV=True, **kw)
            mustbe(u, s, vh)
            if u.ndim != 2 or np.ndim(s) != 1 or u.shape[1] != len(s) or vh.shape[0] != len(s):
                raise Unreadable('shapes %s %s %s' % (u.shape, np.shape(s), vh.shape))
            rec['k'] = len(s)
            rec['prod'] = fixed(['r', 'c'], (u * s) @ vh)
            rec['gramU'], rec['gramV'] = gram(u.conj().T @ u), gram(vh @ vh.conj().T)
            rec['vals'] = squares(s)
        else:
            u, v, err = SVDDecomposition(a, **kw)
            mustbe(u, v)
            if u.shape[1] != v.shape[1]:
                raise Unreadable('shapes %s %s' % (u.shape, v.shape))
            rec['k'] = u.shape[1]
            rec['prod'] = fixed(['r', 'c'], u @ v.conj().T)
        rec['err'] = million(err)
        if not same(a, keep):
            raise Unreadable('input changed')
    return guarded(f, e)


def do_env(r):
    M, cert, R, C, rank, chi, q = matrix_case(r, psd=True)
    # eigenvalues have to be distinct as well
    nu = [sum(x * x for x in cert['U']['re'][i::rank]) + sum(x * x for x in (cert['U']['im'] or [0] * (R * rank))[i::rank]) for i in range(rank)]
    lam = [s * n for s, n in zip(cert['s'], nu)]
    if len(set(lam)) < len(lam):
        return do_env(r)
    e = rec0('env', cert=cert, mat=val([], M.shape, M), chi=chi)

    def f(rec):
        from CTL.funcs.linalg import solveEnv
        a = given(np.array(M))
        p, err = solveEnv(a, chi)
        mustbe(p)
        p = np.asarray(p)
        if p.ndim != 2 or p.shape[0] != R:
            raise Unreadable('shape %s' % (p.shape,))
        k = p.shape[1]
        rec['k'] = k
        rec['gramU'] = gram(p.conj().T @ p)
        w = (lam + [0] * k)[:k]
        rec['prod'] = fixed(['r', 'c'], (p * np.array(w)) @ p.conj().T)
        rec['err'] = million(err)
        if not same(a, M):
            raise Unreadable('input changed')
    return guarded(f, e)


def do_mschmidt(r):
    M, cert, R, C, rank, chi, q = matrix_case(r)
    if r.random() < .3:
        chi = 0
    facs = [d for d in range(1, R + 1) if R % d == 0]
    s0 = r.choice(facs)
    dim = R // s0
    e = rec0('mschmidt', cert=cert, mat=val([], M.shape, M), chi=chi)

    def f(rec):
        from CTL.examples.Schimdt import matrixSchimdtDecomposition
        if s0 == 1 and r.random() < .6:
            a, one = given(np.array(M).reshape(-1)), True
        else:
            a, one = given(np.array(M).reshape(s0, dim * C)), False
        kw = {} if chi == 0 else dict(chi=chi)
        u, v = matrixSchimdtDecomposition(a, dim, **kw)
        mustbe(u, v)
        if u.shape[:-1] != ((dim,) if one else (s0, dim)) or v.shape != (u.shape[-1], C):
            raise Unreadable('shapes %s %s' % (u.shape, v.shape))
        u = u.reshape(R, -1)
        rec['k'] = u.shape[1]
        rec['gramU'] = gram(u.conj().T @ u)
        rec['prod'] = fixed(['r', 'c'], u @ v)
    return guarded(f, e)


def do_tsvd(r):
    w = World()
    while True:
        M, cert, R, C, rank, chi, q = matrix_case(r, cplx=False)
        dr, dc = split_dims(r, R) or [1], split_dims(r, C) or [1]
        if len(dr) + len(dc) <= 5:
            break
    names = r.sample(NAMES, len(dr) + len(dc))
    rows, cols = names[:len(dr)], names[len(dr):]
    like = r.random() < .06
    T = np.asarray(M).reshape(dr + dc)
    p = r.sample(range(len(names)), len(names))
    e = val([names[j] for j in p], T.transpose(p).shape, T.transpose(p))
    e.update(op='new', r='A', kind='like' if like else 'dense', via='labels')
    w.do(e)
    given = r.choice(['both', 'rows', 'cols'])
    inner = r.choice([[], [], ['iu', 'iv']])
    order = r.choice([2, 2, 4]) if max(q) < 600 else 2
    rec = rec0('tsvd', a='A', cert=cert, chi=chi, rows=rows, cols=cols, rgiven=given != 'cols', cgiven=given != 'rows', inner=inner,
               order=order, pre=w.snap(), post=[], uL=[], vL=[], sL=[])

    def f(rec):
        from CTL.tensor.tensorFunc import tensorSVDDecomposition
        kw = dict(chi=chi)
        if given != 'cols':
            kw['rows'] = list(rows)
        if given != 'rows':
            kw['cols'] = list(cols)
        if inner:
            kw['innerLabels'] = tuple(inner)
        if order != 2 or r.random() < .5:
            kw['errorOrder'] = order
        d = tensorSVDDecomposition(w.t['A'], **kw)
        rec['post'] = w.snap()
        u, s, v = d['u'], d['s'], d['v']
        if not u.tensorLikeFlag:
            mustbe(u.a, s.a, v.a)
        rec['uL'], rec['vL'], rec['sL'] = list(u.labels), list(v.labels), list(s.labels)
        if len(u.legs) != 2 or len(v.legs) != 2 or len(s.legs) != 2 or not s.diagonalFlag:
            raise Unreadable('shapes')
        # which index of u and v is the inner one is said by the labels
        iu = [i for i, l in enumerate(u.labels) if l.startswith('inner:') or l == 'iu']
        iv = [i for i, l in enumerate(v.labels) if l.startswith('inner:') or l == 'iv']
        if len(iu) != 1 or len(iv) != 1:
            raise Unreadable('inner labels %s %s' % (u.labels, v.labels))
        U = np.asarray(u.a) if iu[0] == 1 else np.asarray(u.a).T
        V = np.asarray(v.a) if iv[0] == 0 else np.asarray(v.a).T
        sv = np.asarray(s.a)
        if U.shape != (R, len(sv)) or V.shape != (len(sv), C) or tuple(u.shape) != u.a.shape or tuple(v.shape) != v.a.shape:
            raise Unreadable('shapes %s %s %s' % (u.shape, s.shape, v.shape))
        rec['k'] = len(sv)
        rec['prod'] = fixed(['r', 'c'], (U * sv) @ V)
        rec['gramU'], rec['gramV'] = gram(U.T @ U), gram(V @ V.T)
        rec['vals'] = squares(sv)
        rec['err'] = million(d['error'])
    return guarded(f, rec)


def do_iso(r):
    w = World()
    n = r.randint(1, 3)
    L = r.sample(NAMES, n)
    D = [r.choice([1, 2, 2, 3]) for _ in range(n)]
    size = int(np.prod(D))
    k = r.randint(1, n) if r.random() < .95 else 0
    labels = r.sample(L, k)
    p = [L.index(x) for x in L if x not in labels] + [L.index(x) for x in labels]
    rest = int(np.prod([D[L.index(x)] for x in L if x not in labels], dtype=int))
    m = size // rest
    kind = r.random()
    a = np.zeros((rest, m), dtype=complex)
    if kind < .6 and rest <= m:
        cs = r.sample(range(m), rest)
        for i in range(rest):
            a[i, cs[i]] = r.choice([1, -1, 1j])
        if r.random() < .4:
            a[r.randrange(rest), r.randrange(m)] = r.choice([0, 1, 2, -1, 1j])
        if r.random() < .1:
            a *= r.choice([-1, 2, 1j])
    else:
        for i in range(rest):
            for j in range(m):
                a[i, j] = r.choice([0, 0, 1, -1])
    if rest == m and kind < .5:
        pass
    t = a.reshape([D[j] for j in p])
    t = np.transpose(t, np.argsort(p))
    e = val(L, t.shape, t)
    e.update(op='new', r='A', kind=r.choice(['dense'] * 12 + ['like', 'diag']), via='labels')
    if e['kind'] == 'diag':
        d = r.choice([1, 2, 2, 3])
        e.update(D=[d] * n, re=[r.choice([1, 1, 1, -1, 0]) for _ in range(d)], im=[])
    if e['kind'] == 'like':
        e['re'], e['im'] = [], []
    w.do(e)
    if r.random() < .15:
        labels = labels + ['nosuch']
    # tolerance: the usual one (0), or half an odd number; stretch: the same tensor a millionth too large
    h = r.choice([0, 0, 1, 3, 5])
    stretch = h == 0 and e['kind'] == 'dense' and r.random() < .25
    rec = dict(op='iso', a='A', labels=labels, pre=w.snap(), post=[], ret=False, h=h, stretch=stretch)

    def f(rec):
        from CTL.tensor.tensorFunc import isIsometry
        if stretch:
            c = w.t['A'].copy()
            c.a = c.a * (1 + 1e-6)
            x = isIsometry(c, list(labels))
        elif h:
            x = isIsometry(w.t['A'], list(labels), eps=h / 2)
        else:
            x = isIsometry(w.t['A'], list(labels))
        rec['post'] = w.snap()
        rec['ret'] = bool(x)
    return guarded(f, rec | dict(failed=''))


def tally(run, recs):
    ev = run.extra.setdefault('events', {})
    for e in recs:
        k = e['op'] + ('-like' if e.get('cert') == '' else '')
        ev[k] = ev.get(k, 0) + 1


def judge(run, recs):
    tally(run, recs)
    run.sample({k: v for k, v in recs[0].items() if k not in ('pre', 'post')})
    for i in range(0, len(recs), 1500):
        validate_records(run, 'TraceSplit', recs[i:i + 1500])


def split_laws(run, depth):
    out, gen, dist, rc = tlc('MCSplit', env=dict(BOX=str(depth)))
    if rc != 0:
        raise TlcError('MCSplit: rc %d\n%s' % (rc, tlc_tail(out, 40)))
    run.states += dist
    run.transitions += max(gen - 1, 0)


def pairs(run, op, count, like=0.1, tag=''):
    recs = []
    for i in range(count):
        r = random.Random('%s/%s/%s%s/%d' % (run.prop, run.seed, op, tag, i))
        w, e = pair(r, op, r.random() < like)
        recs.append(run_pair(r, w, e))
    return recs


def c08(run):
    from netchecks import require_lib, random_programs, profile
    if not require_lib(run):
        return
    split_laws(run, 1 if run.quick else 2)
    judge(run, pairs(run, 'merge', run.n(900, 12000)))
    prof = profile(kinds=['dense', 'dense', 'dense', 'like'], ranks=[1, 2, 3, 3, 4], complex=0.3,
                   ops=dict(new=2, newnet=4, link=9, merge=8, rename=1, rearrange=1, front=1, contract=1, drop=1, copy=.3))
    random_programs(run, prof, run.n(250, 4000), 18)
    run.assumptions.append('singular values are distinct at the cut, so the best approximation is unique')


def c13(run):
    from netchecks import require_lib
    if not require_lib(run):
        return
    split_laws(run, 1 if run.quick else 2)
    recs = []
    n = run.n(1, 12)
    for op, f, c in (('svd', do_svd, 350), ('tsvd', do_tsvd, 350), ('env', do_env, 250), ('mschmidt', do_mschmidt, 200), ('iso', do_iso, 350)):
        for i in range(c * n):
            recs.append(f(random.Random('%s/%s/%s/%d' % (run.prop, run.seed, op, i))))
    recs += pairs(run, 'schmidt', 350 * n)
    random.Random(run.seed).shuffle(recs)
    judge(run, recs)
    run.assumptions.append('singular values are distinct at the cut, so the best approximation is unique')


def c16(run):
    """Shape-only prediction: heap programs, plus costs of sequences and bonds of splittings."""
    import netchecks, seqchecks
    netchecks.net_check(run, 700, 9000)
    if run.violations and run.states == 0:
        return
    seqchecks.seq_records(run, run.n(120, 1500), 5, like=0.8, tag='like')
    recs = pairs(run, 'merge', run.n(250, 3000), like=0.6, tag='like') + pairs(run, 'schmidt', run.n(250, 3000), like=0.6, tag='like')
    judge(run, recs)
