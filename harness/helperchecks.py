"""C22: the shared helper functions."""
import random, json, os, tempfile, shutil
import numpy as np
from common import *
from net import lib, ints, reim, Unreadable, given, mustbe, same
from seqchecks import guarded, validate_records

NOV = dict(D=[0], re=[], im=[])


def rec(f, **kw):
    e = dict(f=f, a=[], b=[], n=0, m=0, v=NOV, w=NOV, ls=[], out=[], outs=[], arr=NOV, yes=True, failed='', same=True)
    e.update(kw)
    return e


def val(a):
    a = np.asarray(a)
    re, im = reim(a)
    return dict(D=[int(x) for x in a.shape], re=re, im=im)


def whole(x):
    return ints(np.asarray(x))[0]


def only(kind, q):
    """q, which is documented to be of that kind."""
    if not isinstance(q, kind):
        raise Unreadable('%s instead of %s' % (type(q).__name__, kind.__name__))
    return q


class Names:
    """Whole numbers stand for elements of some kind."""
    def __init__(self, r):
        k = r.choice(['int', 'str', 'tuple', 'float', 'mixed'])
        self.f = {'int': lambda i: i, 'str': lambda i: 'x%d' % i, 'tuple': lambda i: ('t', i), 'float': lambda i: i + .5,
                  'mixed': lambda i: (i, 's%d' % i, (i, i))[i % 3]}[k]
        self.back = {}

    def enc(self, xs):
        for x in xs:
            self.back[self.f(x)] = x
        return [self.f(x) for x in xs]

    def dec(self, ys):
        return [self.back.get(y, 9999) for y in ys]


def listcalls(r, a, b):
    """All the list functions on one pair of lists."""
    from CTL.funcs import funcs as F
    N = Names(r)
    cont = r.choice([list, tuple])

    def two(name, dec=True, **kw):
        e = rec(name, a=a, b=b, **kw)

        def f(e):
            x, y = cont(N.enc(a)), r.choice([list, tuple])(N.enc(b))
            x0, y0 = cont(x), type(y)(y)
            q = getattr(F, name)(x, y)
            if name == 'compareLists':
                e['yes'] = bool(q)
            elif name == 'generateIndices':
                e['out'] = [-1 if i is None else int(i) for i in only(list, q)]
            else:
                e['out'] = N.dec(only(list, q))
            e['same'] = x == x0 and y == y0
        return guarded(f, e)
    yield two('deleteAllInUsed')
    yield two('compareLists')
    yield two('commonElements')
    if len(set(a)) == len(a) and len(set(b)) == len(b):
        yield two('listSymmetricDifference')
    if all(b.count(x) <= a.count(x) for x in b):
        yield two('listDifference')
    yield two('generateIndices')

    e = rec('checkAllEqual', a=a)

    def f(e):
        e['yes'] = bool(F.checkAllEqual(cont(N.enc(a))))
    yield guarded(f, e)
    e = rec('pairIterator', a=a)

    def f(e):
        e['outs'] = [N.dec(p) for p in F.pairIterator(cont(N.enc(a)))]
    yield guarded(f, e)
    e = rec('identicalTensorDict', a=a)

    def f(e):
        x = object()
        d = F.identicalTensorDict(x, N.enc(a))
        e['out'] = N.dec(d)
        e['yes'] = all(y is x for y in d.values())
    yield guarded(f, e)
    if len(a) == 2:
        e = rec('tupleSwap', a=a)

        def f(e):
            e['out'] = N.dec(only(tuple, F.tupleSwap(tuple(N.enc(a)))))
        yield guarded(f, e)
    if a:
        idx = [x % len(a) for x in b]
        e = rec('tupleRemoveByIndex', a=a, b=idx)

        def f(e):
            e['out'] = N.dec(only(tuple, F.tupleRemoveByIndex(tuple(N.enc(a)), r.choice([list, tuple])(idx))))
        yield guarded(f, e)
        for spins in [[2 * (x % 2) - 1 for x in a], a]:
            e = rec('spinChainProductSum', a=spins)

            def f(e):
                e['n'] = whole(F.spinChainProductSum(list(spins)))
            yield guarded(f, e)
    e = rec('tupleProduct', a=a)

    def f(e):
        e['n'] = whole(F.tupleProduct(cont(a)))
    yield guarded(f, e)
    e = rec('assertInSet', a=a, n=b[0] if b else 77)

    def f(e):
        F.assertInSet(e['n'], r.choice([list, set, tuple])(a), 'x')
    yield guarded(f, e)


def countcalls(r, n, k):
    from CTL.funcs import funcs as F
    e = rec('divideIntoKParts', n=n, m=k)

    def f(e):
        for d in F.divideIntoKParts(n, k):
            e['outs'].append([int(x) for x in d])
            if len(e['outs']) > 5000:
                break
    e = guarded(f, e)
    yield e
    for d in e['outs'][:40]:
        x = rec('calculateDivisionTimes', a=d)

        def f(x):
            x['n'] = whole(F.calculateDivisionTimes(list(d)))
        yield guarded(f, x)
    e = rec('myComb', n=n, m=k)

    def f(e):
        e['out'] = [whole(F.myComb(n, k))]
    yield guarded(f, e)


def digitcalls(r, D, n):
    from CTL.funcs import funcs as F
    labels = ['l%d' % i for i in range(len(D))]
    r.shuffle(labels)
    e = rec('getIndexDict', a=D, n=n)

    def f(e):
        q = F.getIndexDict(n, labels, tuple(D))
        e['out'] = [int(q[l]) for l in labels] if sorted(q) == sorted(labels) else []
    yield guarded(f, e)
    dim = len(D)
    base = r.choice([2, 3, 5])
    for name, B in (('intToBitList', 2), ('intToBitTuple', 2), ('intToDBaseTuple', base)):
        x = r.randrange(B ** dim)
        e = rec(name, a=[B] * dim, n=x, m=B)

        def f(e):
            q = F.intToDBaseTuple(x, dim, B) if name == 'intToDBaseTuple' else getattr(F, name)(x, dim)
            e['yes'] = isinstance(q, list if name == 'intToBitList' else tuple)
            e['out'] = [int(i) for i in q] if e['yes'] else []
        yield guarded(f, e)
        if r.random() < .1:
            # a number too long for a machine word is given by its digits
            w = [r.randrange(B) for _ in range(r.randint(30, 90))]
            y = sum(x * B ** i for i, x in enumerate(w))
            e = rec('longDigits', b=w)

            def f(e):
                q = F.intToDBaseTuple(y, len(w), B) if name == 'intToDBaseTuple' else getattr(F, name)(y, len(w))
                e['out'] = [int(i) for i in q]
            yield guarded(f, e)


def array(r, D, cplx=None, lim=4):
    n = int(np.prod(D, dtype=int))
    a = np.array([r.randint(-lim, lim) for _ in range(n)], dtype=float).reshape(D)
    if cplx is None:
        cplx = r.random() < .4
    if cplx:
        a = a + 1j * np.array([r.randint(-lim, lim) for _ in range(n)], dtype=float).reshape(D)
    elif r.random() < .15:
        a = a.astype(np.int64)
    return given(a)


def scalarcalls(r):
    from CTL.funcs import funcs as F
    m = r.choice([1, 2, 3, 7, 10])
    n = r.randint(-40, 40)
    e = rec('safeMod', n=n, m=m)

    def f(e):
        e['out'] = [whole(F.safeMod(n, m))]
    yield guarded(f, e)
    a = [r.randint(-20, 20) for _ in range(r.randint(0, 7))]
    m = r.choice([5, 10, 21])
    e = rec('getValidValues', a=a, m=m)

    def f(e):
        xs, ys = F.getValidValues([float(x) for x in a], float(m)) if r.random() < .7 else F.getValidValues(np.array(a), m)
        e['outs'] = [[int(x) for x in xs], [whole(y) for y in ys]]
    yield guarded(f, e)
    s = sorted([r.choice([1, 2, 3, 4, 5, 6, 7, 8]) for _ in range(r.randint(0, 6))], reverse=True)
    m = r.randint(0, 9)
    e = rec('getCutoff', a=s, m=m)

    def f(e):
        e['n'] = whole(F.getCutoff(r.choice([list, np.array])([float(x) for x in s]), float(m)))
    yield guarded(f, e)
    c = r.randint(0, len(s))
    e = rec('partialInverse', a=s, m=c)

    def f(e):
        e['out'] = [whole(x * 840) for x in F.partialInverse([float(x) for x in s], c)]
    yield guarded(f, e)
    lo, hi = r.randint(-9, 5) * 1000, r.randint(-5, 9) * 1000
    t = r.randint(min(lo, hi), max(lo, hi))
    eps = r.choice([1, 10, 100])
    e = rec('binarySearch', a=[lo, hi], n=t, m=eps)

    def f(e):
        probes = []

        def big(x):
            probes.append(x)
            return x * 1000 >= t
        q = F.binarySearch(lo / 1000, hi / 1000, big, eps / 1000)
        e['out'] = [int(round(q * 1000))]
        e['yes'] = all(lo / 1000 <= p <= hi / 1000 for p in probes)
    yield guarded(f, e)
    ls = [[r.randrange(6) for _ in range(r.randint(0, 4))] for _ in range(r.randint(1, 4))]
    a = [r.randint(1, len(ls) + (r.random() < .2)) for _ in range(r.randint(0, 4))]
    e = rec('getCombineSet', a=a, ls=ls)

    def f(e):
        d = {'n%d' % (i + 1): list(x) for i, x in enumerate(ls)}
        q = F.getCombineSet(d, ['n%d' % i for i in a])
        e['out'] = sorted(q)
        e['same'] = [d['n%d' % (i + 1)] for i in range(len(ls))] == ls
    yield guarded(f, e)
    a = [r.randrange(5 if r.random() < .2 else 4) for _ in range(r.randint(0, 4))]
    e = rec('oppositeDirection', a=a)

    def f(e):
        e['out'] = ['lrud'.index(x) for x in F.oppositeDirection(''.join('lrudx'[i] for i in a))]
    yield guarded(f, e)
    a = [r.randrange(5)]
    e = rec('oppositeSingleDirection', a=a)

    def f(e):
        e['out'] = ['lrud'.index(F.oppositeSingleDirection('lrudx'[a[0]]))]
    yield guarded(f, e)
    a = [r.randint(-5, 5) for _ in range(6)]
    lo, hi = r.randint(-5, 5), r.randint(-5, 5)
    e = rec('getInRangeFunc', a=a, n=lo, m=hi)

    def f(e):
        g = F.getInRangeFunc(float(lo), float(hi))
        e['out'] = [int(bool(g(x))) for x in a]
    yield guarded(f, e)
    a = [r.randrange(28 if r.random() < .3 else 26) for _ in range(r.randint(0, 5))]
    aslist = r.random() < .15
    e = rec('indexTupleToStr', a=a, m=int(aslist))

    def f(e):
        q = F.indexTupleToStr(a if aslist else tuple(a))
        e['out'] = [ord(c) - 97 for c in q]
    yield guarded(f, e)
    a = [r.randint(-9, 9), r.randint(-9, 9)]
    m = r.randint(1, 6)
    e = rec('floatEqual', a=a, m=m)

    def f(e):
        if r.random() < .3:     # the accuracy left out: different exactly when one apart
            e['m'] = 1
            e['yes'] = bool(F.floatEqual(float(a[0]), float(a[1])))
        else:
            e['a'] = [2 * x for x in a]
            e['m'] = 2 * m - 1
            e['yes'] = bool(F.floatEqual(2.0 * a[0], 2.0 * a[1], eps=2.0 * m - 1))
    yield guarded(f, e)
    if a[0] * a[1] >= 0:
        p, q = r.choice([(1, 3), (1, 1000), (1, 7), (11, 13)])
        if abs(2 * q * abs(a[0] - a[1]) - p * (abs(a[0]) + abs(a[1]))) > 0 or a == [0, 0]:
            e = rec('floatRelativeEqual', a=a, n=p, m=q)

            def f(e):
                e['yes'] = bool(F.floatRelativeEqual(float(a[0]), float(a[1]), eps=p / q))
            yield guarded(f, e)
    D = [r.randint(1, 3) for _ in range(r.randint(0, 2))]
    v, w = array(r, D, False), array(r, D if r.random() < .7 else [r.randint(1, 3) for _ in range(r.randint(0, 2))], False)
    if r.random() < .5 and v.shape == w.shape:
        w = v + np.array([r.choice([0, 0, 0, 0, 2, -2, 4]) for _ in range(v.size)]).reshape(v.shape)
    e = rec('floatArrayEqual', v=val(v), w=val(w), m=3)

    def f(e):
        e['yes'] = bool(F.floatArrayEqual(np.asarray(v), np.asarray(w), eps=3.0))
    yield guarded(f, e)
    x, y = r.choice([(3, 1), (2.5, 1), (0, 1), (-1.0, 1), (np.float64(.5), 1), (np.float32(.5), 1), (np.int64(2), 1), ('1', 0), (None, 0), ([1], 0), ((1, 2), 0), (1j, 0)])
    e = rec('isRealNumber', n=y)

    def f(e):
        e['yes'] = bool(F.isRealNumber(x))
    yield guarded(f, e)
    T = {'float16': [2, 0], 'float32': [4, 0], 'float64': [8, 0], 'float128': [16, 0], 'complex64': [4, 1], 'complex128': [8, 1], 'complex256': [16, 1]}
    s, t = r.choice(list(T)), r.choice(list(T))
    if not (T[s][1] != T[t][1] and {T[s][0], T[t][0]} == {2}):
        e = rec('priorDataType', a=T[s], b=T[t])

        def f(e):
            q = np.dtype(F.priorDataType(np.dtype(s), np.dtype(t)))
            e['out'] = T.get(q.name, [0, 0])
        yield guarded(f, e)
    names = ['n%d' % r.randrange(9) for _ in range(r.randint(1, 4))]
    e = rec('combineName')

    def f(e):
        given = r.choice([None, 'g', ''])
        q = F.combineName(list(names), given) if given is not None or r.random() < .5 else F.combineName(list(names))
        e['yes'] = q == ('|'.join(names) if given is None else given)
    yield guarded(f, e)

    k = r.choice([0, 1, 1, 2, 4])
    known = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') - set(r.sample('kmz', r.randint(1, 3))) if k == 1 else {'x', 'aa'}
    e = rec('getNewString', n=k)

    def f(e):
        q = F.getNewString(set(known)) if k == 0 else F.getNewString(set(known), n=k)
        e['m'] = len(q)
        e['yes'] = isinstance(q, str) and q not in known
    yield guarded(f, e)
    D = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
    e = rec('randomArray', a=D)

    def f(e):
        q = np.asarray(F.randomArray(tuple(D) if len(D) > 1 or r.random() < .5 else D[0]))
        e['out'] = [int(x) for x in q.shape]
        e['yes'] = bool(np.all(np.isreal(q)) and np.all(q >= -1) and np.all(q < 1))
    yield guarded(f, e)
    x = array(r, [r.randint(1, 3) for _ in range(r.randint(0, 3))])
    e = rec('tensorBase', v=val(x))

    def f(e):
        from CTL.tensorbase.tensorbase import TensorBase
        t = TensorBase(x) if r.random() < .5 else TensorBase(data=x)
        e['out'], e['n'], e['arr'] = [int(d) for d in t.shape], int(t.dim), val(t.a)
        e['same'] = TensorBase().shape is None and TensorBase().dim is None
    yield guarded(f, e)
    table = {}
    ls = []
    for _ in range(r.randint(0, 8)):
        n = r.randrange(6)
        if n in table and r.random() < .5:
            del table[n]
            ls.append([1, n])
        else:
            table[n] = r.randrange(9)
            ls.append([0, n, table[n]])
    e = rec('tensorDict', ls=ls)

    def f(e):
        from CTL.tensornetwork.tensordict import TensorDict
        start = 0
        if r.random() < .5 and ls and ls[0][0] == 0:
            mine = {'t%d' % ls[0][1]: ('T', ls[0][2])}
            d, start = TensorDict(mine), 1
            keep = dict(mine)
        else:
            d = TensorDict()
        for step in ls[start:]:
            if step[0] == 0:
                d.setTensor('t%d' % step[1], ('T', step[2]))
            else:
                d.deleteTensor('t%d' % step[1])
        for n in range(6):
            try:
                e['outs'].append([n, d.getTensor('t%d' % n)[1]])
            except (KeyError, AssertionError):
                pass
        e['same'] = d.tensorCount == len(e['outs']) and TensorDict().tensorCount == 0 and (not start or mine == keep)
    yield guarded(f, e)


def anarray(q):
    return q if isinstance(q, np.ndarray) else given(np.asarray(q))


def arraycalls(r):
    from CTL.funcs import funcs as F

    def one(name, call, e, *args):
        held = [np.array(x) for x in args]

        def f(e):
            q = call()
            if isinstance(q, bool) or isinstance(q, np.bool_):
                e['yes'] = bool(q)
            elif isinstance(q, np.ndarray) and e.pop('_arr', True):
                mustbe(q)
                e['arr'] = val(q)
            else:
                e['n'] = whole(q)
            e['same'] = all(same(x, y) for x, y in zip(held, args)) and not any(
                isinstance(q, np.ndarray) and name in ('diagonalNDTensor', 'sumOnAxis', 'ndEye') and np.shares_memory(q, x) for x in args)
        e = guarded(f, e)
        e.pop('_arr', None)
        return e
    l = r.randint(1, 4)
    d = r.randint(1, 4)
    v = array(r, [l]) if r.random() < .85 else array(r, [])
    yield one('diagonalNDTensor', lambda: F.diagonalNDTensor(v, d), rec('diagonalNDTensor', v=val(v), n=d), v)
    yield one('ndEye', lambda: F.ndEye(d, l), rec('ndEye', n=d, m=l))
    s = array(r, [r.randint(0, 3), r.randint(1, 3)] if r.random() < .3 else [r.randint(0, 6)], lim=1)
    yield one('nonZeroElementN', lambda: int(F.nonZeroElementN(s)), rec('nonZeroElementN', v=val(s)), s)
    h, w = r.randint(1, 4), r.randint(1, 4)
    a = array(r, [h, w])
    g = array(r, [w])
    yield one('rightDiagonalProduct', lambda: F.rightDiagonalProduct(a, g), rec('rightDiagonalProduct', v=val(a), w=val(g)), a, g)
    g2 = array(r, [h])
    yield one('leftDiagonalProduct', lambda: F.leftDiagonalProduct(a, g2), rec('leftDiagonalProduct', v=val(a), w=val(g2)), a, g2)
    yield one('transposeConjugate', lambda: F.transposeConjugate(a), rec('transposeConjugate', v=val(a)), a)
    yield one('aDaggerAProduct', lambda: F.aDaggerAProduct(a), rec('aDaggerAProduct', v=val(a)), a)
    yield one('aADaggerProduct', lambda: F.aADaggerProduct(a), rec('aADaggerProduct', v=val(a)), a)
    D = [r.randint(1, 3) for _ in range(r.randint(1, 4))]
    t = array(r, D)
    ax = r.randrange(len(D))
    wt = array(r, [D[ax]]) if r.random() < .7 else None
    neg = r.random() < .3
    yield one('sumOnAxis', lambda: anarray(F.sumOnAxis(t, ax - len(D) if neg else ax) if wt is None else F.sumOnAxis(t, ax - len(D) if neg else ax, wt)),
              rec('sumOnAxis', v=val(t), n=ax, w=NOV if wt is None else val(wt)), *([t] if wt is None else [t, wt]))
    b = array(r, [h, w])
    if r.random() < .4:
        b = a.copy()
    sq = given(np.eye(h, w)) * r.choice([1, 1, 1, 2]) + (array(r, [h, w], lim=1) if r.random() < .5 else 0)
    for name, x in (('identityError', sq), ('projectorError', sq)):
        yield one(name, lambda: float(getattr(F, name)(x)) ** 2, rec(name, v=val(x)), x)
    yield one('checkIdentity', lambda: bool(F.checkIdentity(sq)), rec('checkIdentity', v=val(sq)), sq)
    n2 = float((np.abs(a) ** 2).sum())
    if n2 > 0:
        yield one('matDiffError', lambda: float(F.matDiffError(a, b)) ** 2 * n2, rec('matDiffError', v=val(a), w=val(b)), a, b)
        m = float(np.abs(a).max())
        yield one('normalizeInfinity', lambda: F.normalizeInfinity(a) * m, rec('normalizeInfinity', v=val(a), m=int(round(m * m))), a)
    q = array(r, [h, h])
    if r.random() < .4:
        q = q + q.T
    if r.random() < .3:
        q = np.diag(np.diagonal(q))
    n2 = float((np.abs(q) ** 2).sum())
    if n2 > 0:
        for name in ('symmetricError', 'diagError'):
            yield one(name, lambda: float(getattr(F, name)(q)) ** 2 * n2, rec(name, v=val(q)), q)
    if r.random() < .3:
        x = array(r, [r.randint(1, 3), r.randint(1, 3)], False).astype(float)

        def load():
            d = tempfile.mkdtemp(prefix='ctl-load-')
            try:
                p = os.path.join(d, 'x.txt')
                with open(p, 'w') as h:
                    for row in x:
                        h.write(' '.join(repr(float(y)) for y in row) + '\n')
                return F.loadData(p)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        yield one('loadData', load, rec('loadData', v=val(x)))


def c22(run):
    from netchecks import require_lib, behaviours
    if not require_lib(run):
        return
    recs = []
    for i, b in enumerate(behaviours(run, 'MCHelpers', dict(MAXLEN=str(run.n(3, 4)), MAXN=str(run.n(5, 8))))):
        r = random.Random('%s/model/%d' % (run.seed, i))
        if b['mode'] == 1:
            recs += listcalls(r, list(b['a']), list(b['b']))
        elif b['mode'] == 2:
            recs += countcalls(r, b['n'], b['k'])
        else:
            recs += digitcalls(r, list(b['a']), b['n'])
    for i in range(run.n(150, 3000)):
        r = random.Random('%s/random/%d' % (run.seed, i))
        k = r.choice([2, 4, 9])
        recs += listcalls(r, [r.randrange(k) for _ in range(r.randint(0, 6))], [r.randrange(k) for _ in range(r.randint(0, 6))])
        recs += countcalls(r, r.randint(0, 7), r.randint(1, 4))
        D = [r.randint(1, 4) for _ in range(r.randint(0, 5))]
        recs += digitcalls(r, D, r.randrange(int(np.prod(D, dtype=int))))
    for i in range(run.n(400, 6000)):
        r = random.Random('%s/arrays/%d' % (run.seed, i))
        recs += scalarcalls(r)
        recs += arraycalls(r)
    ev = run.extra.setdefault('events', {})
    for e in recs:
        ev[e['f']] = ev.get(e['f'], 0) + 1
        e['op'] = e['f']
    for e in recs[::len(recs) // 5 + 1]:
        run.sample(e)
    for i in range(0, len(recs), 20000):
        validate_records(run, 'TraceHelpers', recs[i:i + 20000])
    run.assumptions.append('elements of lists are hashable; real numbers are compared as whole numbers after scaling')
