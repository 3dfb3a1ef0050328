"""C14 and C15: partition functions of lattices by coarse graining, judged by Lattice."""
from net import *
from seqchecks import guarded, validate_records
from splitchecks import val

LEGS = ['l', 'r', 'u', 'd']
BIG = 5e8


def value(a):
    """A lattice tensor a[l, r, u, d] as a value of the specification."""
    return val(LEGS, a.shape, a)


# ----------------------------------------------- the same sums, to pick instances
CAP = [4096]     # entries of the largest intermediate


class Huge(Exception):
    pass


def eins(terms):
    """Einstein sum term by term, in the order of the specification; refuses what TLC cannot hold."""
    acc, L = None, []
    for i, (N, a) in enumerate(terms):
        later = {x for M, _ in terms[i + 1:] for x in M}
        if acc is None:
            acc, L = a, list(N)
            continue
        keep = [x for x in L + [y for y in N if y not in L] if x in later]
        ids = {}
        acc = np.einsum(acc, [ids.setdefault(x, len(ids)) for x in L], a, [ids.setdefault(x, len(ids)) for x in N], [ids[x] for x in keep])
        L = keep
        if acc.size > CAP[0] or np.abs(acc).max(initial=0) > BIG:
            raise Huge
    acc = acc.sum()
    if abs(acc) > BIG:
        raise Huge
    return float(acc)


def open_terms(a, L):
    return [([('h', x, y), ('h', x + 1, y), ('v', x, y + 1), ('v', x, y)], a) for y in range(L) for x in range(L)]


def open_z(a, L):
    if L == 1:
        return float(a.sum())
    return eins(open_terms(a, L))


def corner_rank(a, k):
    """Rank of the exact corner of k x k sites."""
    acc, L = None, []
    out = [('v', x, k) for x in range(k)] + [('h', k, y) for y in range(k)]
    terms = open_terms(a, k)
    for i, (N, t) in enumerate(terms):
        later = {x for M, _ in terms[i + 1:] for x in M} | set(out)
        if acc is None:
            acc, L = np.ones(()), []
        keep = [x for x in L + [y for y in N if y not in L] if x in later]
        ids = {}
        acc = np.einsum(acc, [ids.setdefault(x, len(ids)) for x in L], t, [ids.setdefault(x, len(ids)) for x in N], [ids[x] for x in keep])
        L = keep
    m = np.transpose(acc, [L.index(x) for x in out]).reshape(int(np.prod([d for x, d in zip(L, acc.shape) if x[0] == 'v'], dtype=int)), -1)
    s = np.linalg.svd(m, compute_uv=False)
    if np.any((s > 1e-12 * s[0]) & (s < 1e-5 * s[0])):
        return 10 ** 6
    return int((s > 1e-5 * s[0]).sum())


def periodic(Ts, right, up):
    terms = []
    n = len(Ts)
    for s in range(n):
        l, d = right.index(s), up.index(s)
        hl = ('hh', s) if l == s else ('h', l)
        vd = ('vv', s) if d == s else ('v', d)
        terms.append(([hl, ('h', s), ('v', s), vd], Ts[s]))
        if l == s:
            terms.append(([('hh', s), ('h', s)], np.eye(Ts[s].shape[0])))
        if d == s:
            terms.append(([('vv', s), ('v', s)], np.eye(Ts[s].shape[2])))
    return eins(terms)


def torus(W, H):
    return ([s - s % W + (s % W + 1) % W for s in range(W * H)], [(s + W) % (W * H) for s in range(W * H)])


def torus_z(a, W, H):
    return periodic([a] * (W * H), *torus(W, H))


def twisted_z(a, n):
    m = 2 ** (n // 2)
    if n % 2 == 0:
        return torus_z(a, m, m)
    right = [s - s % (2 * m) + (s % (2 * m) + 1) % (2 * m) for s in range(2 * m * m)]
    up = [s + 2 * m if s // (2 * m) + 1 < m else (s % (2 * m) + m) % (2 * m) for s in range(2 * m * m)]
    return periodic([a] * (2 * m * m), right, up)


def feasible(f, *args):
    """The number, or None when the specification could not hold it."""
    try:
        return f(*args)
    except Huge:
        return None


def number(x):
    """A number reported by the library as a nearby integer."""
    if isinstance(x, np.ndarray):
        x = x.item()
    x = complex(x)
    if not np.isfinite(x.real) or abs(x.imag) > 1e-6 * (1 + abs(x)):
        return dict(z=0, near=False)
    x = x.real
    if abs(x) > 2e9:
        return dict(z=2000000000, near=False)
    z = int(round(x))
    return dict(z=z, near=abs(x - z) <= 1e-6 * max(1.0, abs(x)))


# -------------------------------------------------------------------- tensors
def site(r, dh, dv, positive=True, symmetric=False):
    """A random small tensor a[l, r, u, d]."""
    style = r.choice(['dense', 'dense', 'sparse', 'sparse', 'delta', 'low'])
    lo = 0 if positive else -1
    if style == 'dense':
        a = np.array([r.choice([lo, 0, 1, 1, 2]) for _ in range(dh * dh * dv * dv)])
    elif style == 'sparse' or style == 'delta':
        a = np.array([r.choice([0, 0, 0, 1, lo]) for _ in range(dh * dh * dv * dv)])
    else:
        a = np.einsum('a,b,c,d->abcd', *[np.array([r.choice([lo, 1, 1, 2]) for _ in range(d)]) for d in (dh, dh, dv, dv)]).ravel()
    a = a.reshape(dh, dh, dv, dv).astype(float)
    if style == 'delta' and dh == dv:
        a *= r.choice([0, 1])
        for i in range(dh):
            a[i, i, i, i] += r.choice([1, 2])
    if symmetric:
        for i, j, k, m in np.ndindex(*a.shape):
            if (i, k) > (j, k) or (k > m):
                a[i, j, k, m] = a[min(i, j), max(i, j), min(k, m), max(k, m)]
    return a


# ----------------------------------------------------------------------- CTMRG
# symmetric tensors T[l, r, u, d] = W[l + r][u + d] whose corners have full rank and whose lattices are
# small numbers up to 7 x 7 sites ('-' is -1)
DEEP = '''
-0-10001- -000010-0 -0010101- -100-0000 -1000101- -1010100- 0-0001-00 0-010000-
0-1-0000- 0-100-1-0 0-10101-0 00-0-1000 00-100-10 000-001-0 0000-0-10 0000-100-
0000100-1 0001-0010 001-00010 0010-0000 00110001- 01-001-00 01-100-10 010-0000-
01000--00 010100-01 1-000--00 1-00100-1 10-001010 100-10000 1000010-0 -0-001-10
-0000101- -00010000 -1010000-
'''.split()


def deep(code):
    w = ['-01'.index(x) - 1 for x in code]
    a = np.zeros((2, 2, 2, 2))
    for i in np.ndindex(2, 2, 2, 2):
        a[i] = w[3 * (i[0] + i[1]) + i[2] + i[3]]
    return a


def real_tensor(r, a):
    X = lib()
    order = r.sample(LEGS, 4)
    t = np.ascontiguousarray(np.transpose(a, [LEGS.index(x) for x in order]))
    return X.Tensor(data=given(t), labels=order)


def ctm(r, calls=None, a=None, chi=None):
    while a is None:
        dh, dv = r.choice([(2, 2), (2, 2), (2, 2), (1, 2), (2, 1), (3, 2), (2, 3), (3, 3), (1, 1)])
        x = site(r, dh, dv, positive=r.random() < .7, symmetric=True)
        if dh == dv and r.random() < .7 and corner_rank(x, 1) != dh:
            continue
        if feasible(open_z, x, 2) and feasible(open_z, x, 3):
            a = x
    top = 1
    while top < 7 and feasible(open_z, a, top + 1):
        top += 1
    if calls is None:
        calls = [r.choice(list(range(1, top + 1)) + [0]) for _ in range(r.randint(1, 6))]
    calls = [min(c, top) for c in calls]
    rank = [corner_rank(a, k) for k in range(1, 4)]
    chi = chi or r.choice([16, 16, 16, 9, 8, 4, 2, 1, max(rank[0], 1), min(max(rank[:2]), 64)])
    rec = dict(op='ctm', failed='', T=value(a), chi=chi, rank=rank, calls=[], same=True)

    def f(rec):
        from CTL.examples.CTMRG import CTMRG
        t = real_tensor(r, a)
        keep, labels = np.array(t.a), list(t.labels)
        c = CTMRG(t, chi=chi) if chi != 16 or r.random() < .5 else CTMRG(t)
        first = {}
        for L in calls:
            if L == 0:
                if len(c.errors) < 4:
                    c.iterate()
                rec['calls'].append(dict(L=0, res=dict(z=0, near=True), digits=0))
                continue
            x = c.getZ(L)
            x = x.item() if isinstance(x, np.ndarray) else x
            q = first.setdefault(L, x)
            rec['calls'].append(dict(L=L, res=number(x), digits=1 if abs(x - q) <= 1e-6 * (abs(x) + abs(q)) else 2))
        rec['same'] = list(t.labels) == labels and same(keep, t.a)
    return guarded(f, rec)


# --------------------------------------------------------------------- TRG etc.
def exp_z(density, dof):
    return np.exp(np.asarray(density, dtype=complex).item() * dof)


def num_rank(m):
    s = np.linalg.svd(m, compute_uv=False)
    if np.any((s > 1e-11 * s[0]) & (s < 1e-5 * s[0])):
        return 10 ** 6
    return int((s > 1e-5 * s[0]).sum())


def dense4(t):
    return np.transpose(np.asarray(t.a), [list(t.labels).index(x) for x in LEGS])


def limits(f, top):
    """Steps up to which the exact number is known and positive."""
    k = 0
    while k <= top:
        z = feasible(f, k)
        if not z or z <= 0:
            break
        k += 1
    return k - 1


def trg(r):
    while True:
        dh, dv = r.choice([(2, 2), (2, 2), (2, 2), (1, 2), (2, 1), (1, 1), (3, 3), (2, 3), (3, 2)])
        a = site(r, dh, dv)
        if limits(lambda k: twisted_z(a, k), 1) == 1:
            break
    D = dh * dv
    chi = r.choice([16, 16, 9, 4, 2, 20, D])
    steps = r.choice([0, 1, 2, 3, 4]) if chi <= 9 else r.choice([0, 1, 2, 2])
    upto = limits(lambda k: twisted_z(a, k), steps)
    steps = max(0, min(steps, upto + r.choice([0, 0, 1])))
    dof0 = r.choice([1, 1, 2])
    rec = dict(op='trg', failed='', T=value(a), chi=chi, rank=[], z=[], counts=[], dof=[], dof0=dof0, upto=upto, same=True)

    def f(rec):
        from CTL.examples.TRG import SquareTRG
        if dof0 == 1 and r.random() < .4:
            t = given(np.ascontiguousarray(np.transpose(a, [2, 0, 3, 1])))       # [u, l, d, r], the documented order
            keep = t.copy()
        else:
            t = real_tensor(r, a)
            if dof0 != 1 or r.random() < .5:
                t.degreeOfFreedom = dof0
            keep = np.array(t.a)
        s = SquareTRG(t, chi=chi) if chi != 16 else SquareTRG(t)
        for _ in range(steps):
            x = dense4(s.a)
            h, v = x.shape[0], x.shape[2]
            m1 = x.transpose(2, 0, 3, 1).reshape(h * v, h * v)
            m2 = x.transpose(2, 1, 3, 0).reshape(h * v, h * v)
            rec['rank'].append(max(num_rank(m1), num_rank(m2)))
            s.iterate()
        dens = np.ravel(s.logZDensity())
        rec['z'] = [number(exp_z(x, dof0 * 2 ** k)) if k <= upto else dict(z=0, near=False) for k, x in enumerate(dens)]
        rec['z'] = [q if dof0 == 1 else q for q in rec['z']]
        rec['counts'] = [len(s.aNorms), len(s.aArchive), len(s.errors)]
        rec['dof'] = [int(t2.degreeOfFreedom) for t2 in s.aArchive]
        rec['same'] = bool(same(keep, t if isinstance(t, np.ndarray) else t.a))
    return guarded(f, rec)


def hotrg(r):
    while True:
        dh, dv = r.choice([(2, 2), (2, 2), (2, 2), (1, 2), (2, 1), (1, 1), (2, 3), (3, 2)])
        a = site(r, dh, dv)
        if all(feasible(torus_z, a, *x) for x in ((1, 1), (1, 2), (2, 1))):
            break
    chiH, chiV = r.choice([(16, None), (16, None), (4, None), (9, None), (2, None), (4, 16), (16, 4), (16, 1), (16, 1), (16, 2), (16, 2), (1, 16), (2, 16)])
    # the exact numbers are needed for whatever shapes come up
    top = r.choice([0, 1, 2, 3, 3])
    known = {(w, h): feasible(torus_z, a, w, h) for w in (1, 2, 4, 8) for h in (1, 2, 4, 8) if w * h <= 8}
    upto = 0
    while upto < top and all(z and z > 0 for (w, h), z in known.items() if w * h == 2 ** (upto + 1)):
        upto += 1
    steps = top
    dof0 = r.choice([1, 1, 2])
    imps = []
    if r.random() < .6:
        imps = [a] + [site(r, dh, dv) for _ in range(r.choice([0, 1, 1, 2]))]
    order = len(imps)
    if imps and r.random() < .2:
        order = r.randint(1, len(imps))
    rec = dict(op='hotrg', failed='', T=value(a), chiH=chiH, chiV=chiH if chiV is None else chiV, dirs=[], h=[], v=[], kept=[], z=[], counts=[], dof=[],
               dof0=dof0, upto=upto, iupto=0, imp=[value(x) for x in imps[:order]], obs=[], same=True)

    def f(rec):
        from CTL.examples.HOTRG import HOTRG
        from CTL.examples.impurity import ImpurityTensorNetwork
        if dof0 == 1 and r.random() < .4:
            t = given(np.ascontiguousarray(np.transpose(a, [2, 0, 3, 1])))
            keep = t.copy()
        else:
            t = real_tensor(r, a)
            if dof0 != 1 or r.random() < .5:
                t.degreeOfFreedom = dof0
            keep = np.array(t.a)
        kw = {}
        if chiH != 16 or r.random() < .5:
            kw['chiH'] = chiH
        if chiV is not None:
            kw['chiV'] = chiV
        s = HOTRG(t, **kw)
        imp = None
        if imps:
            ts = [real_tensor(r, x) for x in imps]
            for x in ts:
                x.degreeOfFreedom = dof0
            held = [np.array(x.a) for x in ts]
            imp = ImpurityTensorNetwork(ts) if order == len(imps) else ImpurityTensorNetwork(ts, order)
            imp.setRG(s)
        late = imp is not None and r.random() < .4
        if imp is not None and steps == 0:
            imp.initialize()
        for _ in range(steps):
            x = dense4(s.a)
            rec['h'].append(int(x.shape[0]))
            rec['v'].append(int(x.shape[2]))
            s.iterate()
            if imp is not None and not late:
                imp.iterate()
        if late:
            for _ in range(steps):
                imp.iterate()
        rec['dirs'] = list(s.directChoices)
        rec['kept'] = [int(p.shape[1]) for p in s.projectors]
        dens = np.ravel(s.logZDensity())
        rec['z'] = [number(exp_z(x, dof0 * 2 ** k)) if k <= upto else dict(z=0, near=False) for k, x in enumerate(dens)]
        rec['counts'] = [len(s.aNorms), len(s.aArchive), len(s.errors), len(s.directChoices), len(s.projectors)]
        rec['dof'] = [int(t2.degreeOfFreedom) for t2 in s.aArchive]
        rec['same'] = bool(same(keep, t if isinstance(t, np.ndarray) else t.a))
        if imp is not None:
            rec['same'] = rec['same'] and all(same(x.a, y) for x, y in zip(ts, held))
            # observables as whole numbers: times Z and (number of sites)^order
            obs = imp.measureObservables()
            W = H = 1
            iupto = -1
            for k, row in enumerate(obs):
                if k:
                    W, H = (W, H * 2) if rec['dirs'][k - 1] in 'lr' else (W * 2, H)
                ok = k <= upto and W * H <= 4 and iupto == k - 1
                z = known.get((W, H)) if ok else None
                if ok:
                    for i in range(order):
                        try:
                            moment(imps, i, W, H)
                        except Huge:
                            ok = False
                if ok:
                    iupto = k
                rec['obs'].append([number(np.asarray(x).item() * z * float(W * H) ** i) if ok else dict(z=0, near=False) for i, x in enumerate(row)])
            rec['iupto'] = max(iupto, 0) if iupto >= 0 else -1
    return guarded(f, rec)


def moment(imps, i, W, H):
    import itertools, math
    n = W * H
    tot = 0.0
    for k in itertools.product(range(i + 1), repeat=n):
        if sum(k) == i:
            m = math.factorial(i)
            for x in k:
                m //= math.factorial(x)
            tot += m * periodic([imps[x] for x in k], *torus(W, H))
    if abs(tot) > BIG:
        raise Huge
    return tot


def triangle(r):
    num, den = r.choice([(1, 2), (1, 1), (3, 2), (2, 1), (1, 3), (0, 1), (5, 2), (-1, 2)])
    chi = r.choice([16, 4, 8, 2])
    steps = r.randint(0, 5)
    rec = dict(op='triangle', failed='', num=num, den=den, steps=steps, counts=[], dof=[], z0=dict(z=0, near=False))

    def f(rec):
        from CTL.examples.TRG import TriangleTRG
        s = TriangleTRG(num / den, chi=chi)
        for _ in range(steps):
            s.iterate()
        rec['counts'] = [len(s.aNorms), len(s.bNorms), len(s.aArchive), len(s.bArchive), len(s.errors)]
        rec['dof'] = [int(x.degreeOfFreedom) for x in s.aArchive]
        if [int(x.degreeOfFreedom) for x in s.bArchive] != rec['dof']:
            raise Unreadable('sites of the two sublattices')
        with np.errstate(all='ignore'):
            rec['z0'] = number(exp_z(s.logZDensity()[0], 1) * den * den)
    return guarded(f, rec)


# --------------------------------------------------------------------- probes
def probe_two(run):
    """SquareTRG of two different tensors."""
    def f(rec):
        from CTL.examples.TRG import SquareTRG
        r = random.Random(5)
        s = SquareTRG(real_tensor(r, np.ones((2, 2, 2, 2))), real_tensor(r, np.ones((2, 2, 2, 2)) * 2), chi=16)
        rec['n'] = len(s.aArchive)
    rec = guarded(f, dict(failed=''))
    if rec['failed']:
        run.violate('SquareTRG of two tensors: ' + rec['failed'], dict(key='trg-two-tensors' if rec['failed'] == 'AttributeError' else 'trg-two'))


def probe_missing(run):
    def f(rec):
        from CTL.examples.HOTRG import HOTRG
        from CTL.examples.impurity import ImpurityTensorNetwork
        r = random.Random(5)
        t = real_tensor(r, np.ones((2, 2, 2, 2)))
        t.degreeOfFreedom = 1
        s = HOTRG(t, 16)
        imp = ImpurityTensorNetwork([t, t], 3)
        imp.setRG(s)
        s.iterate()
        imp.iterate()
    rec = guarded(f, dict(failed=''))
    if rec['failed']:
        run.violate('impurities of missing orders: ' + rec['failed'], dict(key='impurity-missing' if rec['failed'] == 'AttributeError' else 'impurity-order'))


def probe_triangle(run):
    """One step of TriangleTRG without truncation: 3 cells are the complete bipartite graph on 3 + 3 vertices, with 34 matchings."""
    def f(rec):
        from CTL.examples.TRG import TriangleTRG
        s = TriangleTRG(1.0, chi=16)
        s.iterate()
        # the logarithm of Z per cell, whatever the library calls a density
        raw = [float(np.log(s.aNorms[i] * s.bNorms[i])) for i in range(2)]
        from CTL.tensor.contract.contractExp import triangleTensorTrace
        tr = float(np.asarray(triangleTensorTrace(s.aArchive[1], s.bArchive[1]).single()))
        rec['Z'] = round(float(np.exp(3 * raw[0] + raw[1]) * tr), 6)
        rec['perCell'] = float(s.logZDensity()[1])
    rec = guarded(f, dict(failed=''))
    if rec['failed']:
        run.violate('TriangleTRG: ' + rec['failed'], dict(key='triangle', rec=rec))
        return
    if abs(rec['Z'] - 34) > 1e-6:
        run.violate('TriangleTRG: 3 cells give %s, exactly 34' % rec['Z'], dict(key='triangle-orientation' if abs(rec['Z'] - 40) < 1e-6 else 'triangle-step', rec=rec))
    if abs(rec['perCell'] - np.log(rec['Z']) / 3) > 1e-9:
        run.violate('TriangleTRG: log Z of 3 cells is divided by 9', dict(key='triangle-density', rec=rec))


# --------------------------------------------------------------------- checks
def judge(run, recs, batch=400):
    ev = run.extra.setdefault('events', {})
    for e in recs:
        ev[e['op']] = ev.get(e['op'], 0) + 1
        for c in e.get('calls', []):
            k = 'getZ(%d)' % c['L'] if c['L'] else 'iterate'
            ev[k] = ev.get(k, 0) + 1
        if e['op'] == 'hotrg' and e['imp']:
            ev['impurities'] = ev.get('impurities', 0) + 1
    run.sample({k: v for k, v in recs[0].items() if k != 'rank'})
    for i in range(0, len(recs), batch):
        validate_records(run, 'TraceLattice', recs[i:i + batch])


def many(run, f, count):
    return [f(random.Random('%s/%s/%s/%d' % (run.prop, run.seed, f.__name__, i))) for i in range(count)]


def laws(run, **env):
    out, gen, dist, rc = tlc('MCLattice', env={k: str(v) for k, v in env.items()})
    if rc != 0:
        raise TlcError('MCLattice: rc %d\n%s' % (rc, tlc_tail(out, 40)))
    run.states += dist
    run.transitions += max(gen - 1, 0)
    return out


def c14(run):
    from netchecks import require_lib
    if not require_lib(run):
        return
    CAP[0] = run.n(300, 4096)
    out = laws(run, MODE=1, DEPTH=run.n(3, 4), ENTRY=1)
    recs = []
    hs = [json.loads(x) for x in re.findall(r'BEHAVIOUR (\[.*\])', out.replace('\\"', '"'))]
    if not hs:
        raise TlcError('MCLattice printed no behaviour')
    r = random.Random('%s/model' % run.seed)
    pool = []
    while len(pool) < 4:
        a = site(r, 2, 2, symmetric=True)
        if all(feasible(open_z, a, L) for L in range(1, 6)) and all(corner_rank(a, k) == 2 ** k for k in (1, 2)):
            pool.append(a)
    for i, h in enumerate(hs):
        recs.append(ctm(random.Random('%s/h/%d' % (run.seed, i)), calls=h, a=pool[i % len(pool)], chi=16 if i % 3 else 4))
    for i in range(run.n(80, 800)):
        r = random.Random('%s/deep/%d' % (run.seed, i))
        calls = [r.choice([6, 7])] + [r.choice([0, 1, 2, 3, 4, 5, 6, 7]) for _ in range(r.randint(0, 3))]
        recs.append(ctm(r, calls=r.sample(calls, len(calls)), a=deep(DEEP[i % len(DEEP)]), chi=r.choice([8, 16, 9, 4])))
    judge(run, recs)
    judge(run, many(run, ctm, run.n(300, 5000)))
    run.assumptions.append('real reflection-symmetric tensors with whole entries and non-zero partition functions; truncated sizes are only held to history independence')


def c15(run):
    from netchecks import require_lib
    if not require_lib(run):
        return
    probe_two(run)
    probe_missing(run)
    probe_triangle(run)
    laws(run, MODE=2, DEPTH=0, ENTRY=run.n(1, 2))
    judge(run, many(run, trg, run.n(300, 3000)))
    judge(run, many(run, hotrg, run.n(300, 3000)))
    judge(run, many(run, triangle, run.n(30, 200)))
    run.assumptions.append('tensors with non-negative whole entries; steps are compared while no singular value has to be dropped')
