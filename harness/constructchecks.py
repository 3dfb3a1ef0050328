"""C12: construction of tensors from shape, labels, data and legs."""
from net import *
from seqchecks import validate_records


def arr(d):
    a = np.array(d['re'], dtype=float)
    if d['im']:
        a = a + 1j * np.array(d['im'], dtype=float)
    return a.reshape(tuple(d['D']))


def whole(t, any_entries):
    """Entries of a tensor, dense, as integers (zeros when only their number matters)."""
    a = np.asarray(t.a)
    if max([1] + [int(d) for d in t.shape]) ** (len(t.legs) if t.diagonalFlag and len(t.legs) < 20 else 1) > 5000:
        raise Unreadable('huge')
    if t.diagonalFlag:
        n = len(t.legs)
        if n == 0:
            a = a.reshape(())
        else:
            l = t.shape[0]
            if a.shape != (l,):
                raise Unreadable('diagonal of %r for shape %r' % (a.shape, t.shape))
            b = np.zeros((l,) * n, dtype=a.dtype)
            b[np.diag_indices(l, n)] = a
            a = b
    if tuple(a.shape) != tuple(t.shape):
        raise Unreadable('shape')
    cplx = bool(np.iscomplexobj(a))
    if any_entries:
        if not np.all(np.isfinite(a)):
            raise Unreadable('not finite')
        return [0] * a.size, [], cplx
    re, im = reim(a.ravel())
    return re, im, cplx


def record(a, r, via='class'):
    """Build it for real."""
    X = lib()
    from CTL.tensor.leg import Leg
    rec = dict(a=a, out='ok', adopted=False, owners='kept', wantcplx=False, given='none', asked='none', name='', dof=-1,
               t=dict(k='', like=False, L=[], D=[], re=[], im=[], cplx=False, dt='', float=False, name='', dof=-1))
    owner = r.choice([None, X.Tensor(shape=(2,), labels=['o'])])
    legs = None
    if a['legs']['g']:
        legs = [Leg(owner, d, l) for l, d in zip(a['legs']['L'], a['legs']['D'])]
        for g in legs:
            if r.random() < .3:
                X.makeLink(g, Leg(None, g.dim, 'z'))
    bonds = [g.bond for g in legs or []]
    kw = {}
    if a['shape']['g']:
        kw['shape'] = a['shape']['D'][0] if a['shape']['int'] else tuple(a['shape']['D'])
        if isinstance(kw['shape'], tuple) and r.random() < .2:
            kw['shape'] = list(kw['shape'])
    if a['labels']['g']:
        kw['labels'] = list(a['labels']['L']) if r.random() < .6 else tuple(a['labels']['L'])
    if a['data']['g']:
        kw['data'] = arr(a['data'])
        if r.random() < .2 and not a['data']['im']:
            kw['data'] = kw['data'].astype(np.int64)
        elif r.random() < .2:
            kw['data'] = np.asfortranarray(kw['data']) if kw['data'].ndim else kw['data']
        if r.random() < .1 and kw['data'].dtype.kind != 'i':
            kw['data'] = kw['data'].astype(np.complex64 if a['data']['im'] else np.float32)
        rec['given'] = kw['data'].dtype.name
    if r.random() < .3:
        kw['dtype'] = r.choice([np.float64, np.complex128, np.float32, np.complex64])
        rec['asked'] = np.dtype(kw['dtype']).name
        rec['wantcplx'] = rec['asked'].startswith('complex')
    if legs is not None:
        kw['legs'] = list(legs)
    if a['like']:
        kw['tensorLikeFlag'] = True
    if r.random() < .3:
        rec['name'], rec['dof'] = r.choice(['T', 'A b']), r.randrange(3)
        kw.update(name=rec['name'], degreeOfFreedom=rec['dof'])
    before = {k: kw[k].copy() if k == 'data' else list(kw[k]) for k in ('data', 'labels', 'shape', 'legs') if k in kw and not isinstance(kw[k], int)}
    try:
        with limit(20), quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if via == 'class':
                cls = X.DiagonalTensor if a['kind'] == 'diag' else X.Tensor
                if a['kind'] == 'dense' and a['like'] and 'dtype' not in kw and r.random() < .5:
                    from CTL.tensor.tensor import TensorLike
                    kw.pop('tensorLikeFlag')
                    t = TensorLike(**kw)
                else:
                    t = cls(**kw)
            else:
                import CTL.tensor.tensorFactory as F
                rec['name'], rec['dof'], rec['asked'] = '', -1, 'none'
                d = kw['data']
                if via == 'triangle':
                    t = F.makeTriangleTensor(d) if a['labels']['L'] == ['1', '2', '3'] else F.makeTriangleTensor(d, kw['labels'])
                elif via == 'square':
                    t = F.makeSquareTensor(d) if a['labels']['L'] == ['u', 'l', 'd', 'r'] else F.makeSquareTensor(d, kw['labels'])
                else:
                    t = F.makeSquareOutTensor(d, via)
            # what was given is unchanged and stays the caller's own
            if any(not same(kw[k], v) if k == 'data' else len(kw[k]) != len(v) or any(x is not y for x, y in zip(kw[k], v)) for k, v in before.items()):
                raise Unreadable('arguments changed')
            for k in before:
                if k == 'data':
                    kw[k][...] = 99
                elif isinstance(kw[k], list):
                    kw[k].append(None)
            own = [g.tensor is t for g in legs or []]
            held = len(t.legs) == len(legs or []) and all(any(x is g for x in t.legs) for g in legs or [])
            rec['adopted'] = bool(legs is not None and held)
            D = [0 if x is None else int(x) for x in t.shape]
            L = list(t.labels)
            if L != [g.name for g in t.legs] or D != [0 if g.dim is None else int(g.dim) for g in t.legs] or not all(g.tensor is t for g in t.legs):
                raise Unreadable('legs')
            if t.dim != len(L) or (0 not in D and t.totalSize != int(np.prod(D, dtype=int))):
                raise Unreadable('dim')
            re, im, cplx = [], [], False
            if not t.tensorLikeFlag:
                re, im, cplx = whole(t, not a['data']['g'])
            elif t.a is not None:
                raise Unreadable('data of a shape-only tensor')
            rec['t'] = dict(k='diag' if t.diagonalFlag else 'dense', like=bool(t.tensorLikeFlag), L=L, D=D, re=re, im=im, cplx=cplx, dt=np.dtype(t.dtype).name, float=bool(t.isFloatTensor()),
                            name=t.name or '', dof=-1 if t.degreeOfFreedom is None else int(t.degreeOfFreedom))
    except OpTimeout:
        rec['out'] = 'hung'
    except Unreadable as x:
        rec['t']['k'] = 'inconsistent: %s' % x
    except Exception as x:
        rec['out'] = 'rejected'
        rec['exc'] = type(x).__name__
    if legs is not None:
        if any(g.bond is not b or (b is not None and not any(x is g for x in b.legs)) for g, b in zip(legs, bonds)):
            rec['owners'] = 'mixed'
        elif rec['out'] == 'ok':
            rec['owners'] = 'new' if all(own) else 'mixed'
        else:
            rec['owners'] = 'kept' if all(g.tensor is owner for g in legs) else 'mixed'
    return rec


LETTERS = ['a', 'b', 'c', 'x', 'y', 'z', 'u', 'in']


def random_args(r):
    kind = r.choice(['dense', 'diag'])
    rank = r.choice([0, 1, 2, 2, 3, 4])
    if kind == 'diag' and r.random() < .85:
        D = [r.choice([1, 2, 3, 4])] * rank
    else:
        D = [r.choice([1, 2, 3, 4]) for _ in range(rank)]
    L = r.sample(LETTERS, rank)
    g = [r.random() < p for p in (.45, .5, .6, .35)]
    a = dict(kind=kind, like=r.random() < .25, shape=dict(g=False, int=False, D=[]), labels=dict(g=False, L=[]),
             data=dict(g=False, D=[], re=[], im=[]), legs=dict(g=False, L=[], D=[]))
    if g[0]:
        if kind == 'diag' and r.random() < .4:
            a['shape'] = dict(g=True, int=True, D=[D[0] if D else r.choice([1, 2])])
        else:
            a['shape'] = dict(g=True, int=False, D=list(D))
    if g[1]:
        a['labels'] = dict(g=True, L=list(L))
    if g[3]:
        a['legs'] = dict(g=True, L=list(L), D=list(D))
    if g[2]:
        E = list(D)
        x = r.random()
        if kind == 'diag' and D and x < .5:
            E = D[:1]
        elif x > .75:
            # another layout of the same number of entries
            n = int(np.prod(D, dtype=int))
            E = r.choice([[n], [1, n], [n, 1]] + [[k, n // k] for k in range(2, n) if n % k == 0])
        n = int(np.prod(E, dtype=int))
        a['data'] = dict(g=True, D=E, re=[r.randrange(-9, 10) for _ in range(n)], im=[r.randrange(-9, 10) for _ in range(n)] if r.random() < .3 else [])
    # contradictions
    if r.random() < .35:
        what = r.choice(['shape', 'labels', 'data', 'legs'])
        b = a[what]
        if b['g']:
            if what == 'labels':
                x = r.random()
                if x < .4 and b['L']:
                    b['L'].pop()
                elif x < .7:
                    b['L'].append('w')
                elif len(b['L']) > 1:
                    b['L'][0], b['L'][1] = b['L'][1], b['L'][0]
                elif b['L']:
                    b['L'][0] = 'w'
            elif what == 'data':
                E = list(b['D'])
                if E and r.random() < .5:
                    E[r.randrange(len(E))] += 1
                else:
                    E.insert(r.randrange(len(E) + 1), r.choice([1, 2]))
                n = int(np.prod(E, dtype=int))
                b.update(D=E, re=[r.randrange(-9, 10) for _ in range(n)], im=[])
            elif b['D']:
                i = r.randrange(len(b['D']))
                x = r.random()
                if x < .5 or b.get('int'):
                    b['D'][i] += 1
                elif x < .75 and what == 'shape':
                    b['D'].append(r.choice([1, 2]))
                elif len(b['D']) > 1:
                    b['D'][0], b['D'][1] = b['D'][1], b['D'][0]
    k = max(len(a['labels']['L']), len(a['legs']['L']), len(a['data']['D']), 0 if a['shape']['int'] else len(a['shape']['D']))
    m = max([1] + a['data']['D'] + a['shape']['D'] + a['legs']['D'])
    if int(np.prod(a['data']['D'] or [1])) > 300 or (kind == 'diag' and m ** k > 700):
        return random_args(r)
    return a


def many_legs(r):
    """Default labels at the end of the alphabet."""
    n = r.choice([24, 25, 26, 27, 28])
    a = dict(kind=r.choice(['dense', 'diag']), like=r.random() < .3, shape=dict(g=True, int=False, D=[1] * n), labels=dict(g=False, L=[]),
             data=dict(g=False, D=[], re=[], im=[]), legs=dict(g=False, L=[], D=[]))
    if r.random() < .5:
        a['data'] = dict(g=True, D=[1], re=[7], im=[])
    return a


OUT = dict(ul=['d', 'r', 'o'], ur=['d', 'l', 'o'], dl=['u', 'r', 'o'], dr=['u', 'l', 'o'])


def factory(r):
    via = r.choice(['triangle', 'square', 'ul', 'ur', 'dl', 'dr'])
    n = 4 if via == 'square' else 3
    L = {'triangle': ['1', '2', '3'], 'square': ['u', 'l', 'd', 'r']}.get(via) or OUT[via]
    if via in ('triangle', 'square') and r.random() < .4:
        L = r.sample(LETTERS, n)
    E = [r.choice([1, 2, 3]) for _ in range(n if r.random() < .85 else n + r.choice([-1, 1]))]
    m = int(np.prod(E))
    a = dict(kind='dense', like=False, shape=dict(g=False, int=False, D=[]), labels=dict(g=True, L=L),
             data=dict(g=True, D=E, re=[r.randrange(-9, 10) for _ in range(m)], im=[r.randrange(-9, 10) for _ in range(m)] if r.random() < .3 else []),
             legs=dict(g=False, L=[], D=[]))
    return a, via


def c12(run):
    from netchecks import require_lib, behaviours
    if not require_lib(run):
        return
    bs = behaviours(run, 'MCConstruct', dict(WIDE=run.n('0', '1')))
    bs = [json.loads(k) for k in sorted({json.dumps(b, sort_keys=True) for b in bs})]
    run.extra['model_combinations'] = len(bs)
    recs = []
    for i, b in enumerate(bs):
        recs.append(record(b, random.Random('%s/b/%d' % (run.seed, i))))
    for i in range(run.n(3000, 40000)):
        r = random.Random('%s/r/%d' % (run.seed, i))
        recs.append(record(random_args(r), r))
    for i in range(run.n(40, 200)):
        r = random.Random('%s/m/%d' % (run.seed, i))
        recs.append(record(many_legs(r), r))
    for i in range(run.n(300, 3000)):
        r = random.Random('%s/f/%d' % (run.seed, i))
        a, via = factory(r)
        recs.append(record(a, r, via))
    ev = run.extra.setdefault('events', {})
    for e in recs:
        c = '%s %s%s' % (e['a']['kind'], '+'.join(k for k in ('shape', 'labels', 'data', 'legs') if e['a'][k]['g']), '' if e['out'] == 'ok' else ' !')
        ev[c] = ev.get(c, 0) + 1
    run.sample(recs[-1])
    random.Random(run.seed).shuffle(recs)
    for i in range(0, len(recs), 3000):
        validate_records(run, 'TraceConstruct', recs[i:i + 3000])
    run.assumptions.append('duplicate labels, zero dimensions and a number as shape of a dense tensor are left open; default entries are only counted')
