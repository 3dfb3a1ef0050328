"""Drives the real tensors of CTL through events of CtlNet and records what happens."""
import copy
import contextlib
import numpy as np
from common import *
from backend import LIBRARIES, library_of, own, same

FREE = ['', '']
_lib = None
LIBRARY = 'numpy' # the library that worlds begin with


@contextlib.contextmanager
def using(name):
    """Worlds, and the library under test, on another array library."""
    global LIBRARY
    import CTL
    LIBRARY = name
    CTL.setXP(LIBRARIES[name])
    try:
        yield
    finally:
        LIBRARY = 'numpy'
        CTL.setXP(np)


def given(a):
    """An array as the library in use wants it."""
    return own(a) if LIBRARY == 'other' else a


def mustbe(*arrays):
    for a in arrays:
        if library_of(a) not in ('', LIBRARY):
            raise Unreadable('array of another library')


class Lib:
    pass


def lib():
    """The library under test, imported late so that an import failure is an observation."""
    global _lib
    if _lib is None:
        L = Lib()
        from CTL.tensor.tensor import Tensor, TensorLike
        from CTL.tensor.diagonalTensor import DiagonalTensor
        from CTL.tensor.leg import Leg
        from CTL.tensor.contract.link import makeLink, mergeLink
        from CTL.tensor.contract.contract import contractTwoTensors, shareBonds, merge
        import CTL.tensor.contract.optimalContract as oc
        L.Tensor, L.TensorLike, L.DiagonalTensor, L.Leg = Tensor, TensorLike, DiagonalTensor, Leg
        L.mergeLink = mergeLink
        L.makeLink, L.contract, L.shareBonds, L.merge, L.oc = makeLink, contractTwoTensors, shareBonds, merge, oc
        _lib = L
    return _lib


class Unreadable(Exception):
    pass


def ints(x):
    """A (list of) number(s) as exact integers."""
    x = np.asarray(x)
    if x.dtype == object:
        raise Unreadable('object data')
    if x.size and not np.all(np.isfinite(x)):
        raise Unreadable('not finite')
    r = np.rint(x)
    if x.size and np.max(np.abs(x - r)) > 1e-6 * (1 + np.max(np.abs(x))):
        raise Unreadable('not integral')
    if x.size and np.max(np.abs(r)) > 2e9:
        raise Unreadable('huge entries')
    return [int(v) for v in r.ravel()]


def reim(a):
    a = np.asarray(a)
    if np.iscomplexobj(a):
        im = ints(a.imag)
        return ints(a.real), (im if any(im) else [])
    return ints(a), []


def kind(t):
    if t.tensorLikeFlag:
        return 'dlike' if t.diagonalFlag else 'like'
    return 'diag' if t.diagonalFlag else 'dense'


class World:
    """A population of live tensors under string ids."""
    def __init__(self):
        self.t = {}
        self.inputs = {}
        self.cnt = 0
        self.events = []
        self.dead = False
        self.last = {}
        self.xp = LIBRARY

    def mine(self, a):
        return own(a) if self.xp == 'other' else a

    def fresh(self):
        self.cnt += 1
        return str(self.cnt)

    # ------------------------------------------------------------ projection
    def snap(self):
        owner = {id(t): i for i, t in self.t.items()}
        addr = {}
        for i, t in self.t.items():
            for leg in t.legs:
                addr[id(leg)] = [i, leg.name]
        out = []
        for i, t in self.t.items():
            k = kind(t)
            legs = list(t.legs)
            names = [l.name for l in legs]
            if any(not isinstance(x, str) for x in names):
                raise Unreadable('leg name')
            if len(set(names)) != len(names):
                raise Unreadable('duplicate leg names %s' % names)
            order = sorted(range(len(legs)), key=lambda j: names[j])
            D = [legs[j].dim for j in order]
            if any(d is None or int(d) != d for d in D):
                raise Unreadable('dimension %s' % D)
            S = list(t.shape)
            if len(S) != len(legs) or list(t.labels) != names:
                raise Unreadable('shape %s or labels %s against legs %s' % (S, t.labels, names))
            P, O = [], []
            for j in order:
                leg = legs[j]
                O.append(owner.get(id(leg.tensor), '?'))
                other = leg.anotherSide()
                P.append(FREE if other is None else addr.get(id(other), ['?', '?']))
            e = dict(id=i, k=k, L=[names[j] for j in order], D=[int(d) for d in D], S=[int(S[j]) for j in order],
                     P=P, O=O, A=[], re=[], im=[], N='' if t.name is None else str(t.name),
                     F=0 if t.degreeOfFreedom is None else int(t.degreeOfFreedom), T='', U='', B='')
            if k in ('dense', 'diag'):
                a = t.a
                if not isinstance(a, (np.ndarray, np.generic)):
                    raise Unreadable('data is %s' % type(a).__name__)
                if k == 'dense':
                    if a.ndim != len(legs):
                        raise Unreadable('%d legs for data of shape %s' % (len(legs), a.shape))
                    a = np.transpose(a, order)
                e['A'] = [int(x) for x in a.shape]
                e['re'], e['im'] = reim(a)
                e['B'] = library_of(t.a)
                e['T'], e['U'] = np.dtype(t.dtype).name, a.dtype.name
            out.append(e)
        return out

    # ------------------------------------------------------------- execution
    def do(self, e, seconds=20):
        """Execute event e on the library; append it with outcome and snapshot."""
        e.setdefault('ret', '')
        e['exc'] = ''
        e['xp'] = e['to'] if e['op'] == 'setxp' else self.xp
        e['broken'] = ''
        self.given = []
        try:
            with limit(seconds), quiet(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = getattr(self, 'op_' + e['op'])(e)
            e['out'] = 'ok'
            if r is not None:
                e['ret'] = r
        except OpTimeout:
            e['out'] = 'timeout'
            e['broken'] = 'timeout'
            self.dead = True
        except Unreadable as x:
            e['out'] = 'ok'
            e['broken'] = 'returned ' + str(x)
            self.dead = True
        except Exception as x:
            e['out'] = 'exc'
            e['exc'] = type(x).__name__
        if not e['broken'] and not self.spoil():
            e['broken'] = 'changed its arguments'
            self.dead = True
        e['snap'] = []
        if not e['broken']:
            try:
                e['snap'] = self.snap()
                self.last = {s['id']: s for s in e['snap']}
            except OpTimeout:
                raise
            except Exception as x:
                e['broken'] = '%s %s' % (type(x).__name__, x)
                self.dead = True
        self.events.append({k: v for k, v in e.items() if not k.startswith('_')})
        return e['out'] == 'ok' and not self.dead

    def g(self, x):
        """A list or array handed over: it must not be changed, and what happens to it later must not matter."""
        self.given.append((x, x.copy()))
        return x

    def spoil(self):
        for x, old in self.given:
            if isinstance(x, list):
                if len(x) != len(old) or any(i is not j for i, j in zip(x, old)):
                    return False
                x.append(None)
            else:
                if x.shape != old.shape or not np.array_equal(x, old):
                    return False
                x[...] = 99
        return True

    def legs_of(self, t, labels, asleg):
        if not asleg:
            return self.g(list(labels))
        legs = [t.getLeg(l) for l in labels]
        return self.g(legs if all(l is not None for l in legs) else list(labels))

    def array(self, e):
        a = np.array(e['re'], dtype=np.float64)
        if e['im']:
            a = a + 1j * np.array(e['im'], dtype=np.float64)
        elif e.get('_complex'):
            a = a.astype(np.complex128)
        elif e.get('_int'):
            a = a.astype(np.int64)
        return a

    def op_setxp(self, e):
        import CTL
        CTL.setXP(LIBRARIES[e['to']])
        self.xp = e['to']
        self.t.clear()
        self.inputs.clear()

    def op_new(self, e):
        X = lib()
        k, L, D = e['kind'], list(e['L']), tuple(e['D'])
        via = e.get('via', 'labels')
        meta = {}
        if e.setdefault('nm', ''):
            meta['name'] = e['nm']
        if e.setdefault('dof', 0):
            meta['degreeOfFreedom'] = e['dof']
        if k in ('like', 'dlike'):
            C = X.Tensor if k == 'like' else X.DiagonalTensor
            if via == 'legs':
                t = C(legs=self.g([X.Leg(None, d, l) for l, d in zip(L, D)]), tensorLikeFlag=True, **meta)
            elif via == 'like' and k == 'like':
                t = X.TensorLike(shape=D, labels=L, **meta)
            else:
                t = C(shape=D, labels=L, tensorLikeFlag=True, **meta)
        elif k == 'diag':
            a = self.array(e)
            if len(L) == 0:
                a = np.array(a.ravel()[0])
                t = X.DiagonalTensor(data=self.mine(a), **meta)
            elif via == 'int':
                t = X.DiagonalTensor(shape=D[0], data=self.mine(a), labels=L, **meta)
            elif via == 'shape':
                t = X.DiagonalTensor(shape=D, data=self.mine(a), labels=L, **meta)
            elif via == 'full' and len(L) > 1:
                full = np.ones(D, dtype=a.dtype) * 7
                full[np.diag_indices(D[0], len(L))] = a
                a = full
                t = X.DiagonalTensor(data=self.mine(a), labels=L, **meta)
            elif via == 'legs':
                t = X.DiagonalTensor(data=self.mine(a), legs=self.g([X.Leg(None, d, l) for l, d in zip(L, D)]), **meta)
            else:
                t = X.DiagonalTensor(data=self.mine(a), labels=L, **meta)
            self.inputs[e['r']] = (a, L)
        else:
            a = self.array(e).reshape(D)
            if via == 'fortran' and a.ndim > 0:
                a = np.asfortranarray(a)
            if via == 'strided' and a.ndim > 0:
                b = np.zeros(tuple(2 * d for d in D), dtype=a.dtype)
                b[tuple(slice(0, None, 2) for _ in D)] = a
                a = b[tuple(slice(0, None, 2) for _ in D)]
            if via == 'flat' and a.ndim > 0:
                a = a.reshape(-1)
                t = X.Tensor(shape=D, data=self.mine(a), labels=L, **meta)
            elif via == 'legs':
                t = X.Tensor(data=self.mine(a), legs=self.g([X.Leg(None, d, l) for l, d in zip(L, D)]), **meta)
            elif via == 'shape':
                t = X.Tensor(shape=D, labels=L, data=self.mine(a), **meta)
            else:
                t = X.Tensor(data=self.mine(a), labels=L, **meta)
            self.inputs[e['r']] = (a, L)
        self.t[e['r']] = t

    def op_pokeinput(self, e):
        a, L = self.inputs[e['a']]
        a[...] = 99
        L.append('intruder')

    def op_poke(self, e):
        t = self.t[e['a']]
        a = self.array(e)
        t.a[...] = self.mine(a.reshape(t.a.shape))

    def op_drop(self, e):
        del self.t[e['a']]

    def op_copy(self, e):
        c = self.t[e['a']].copyN(2)[0] if e.get('n') else self.t[e['a']].copy()
        self.t[e['r']] = c

    def op_tolike(self, e):
        self.t[e['r']] = self.t[e['a']].toTensorLike()

    def op_copylist(self, e):
        res = lib().oc.copyTensorList(self.g([self.t[a] for a in e['as']]), tensorLikeFlag=e['like'], linkOutgoingBonds=e['outg'])
        if len(res) != len(e['rs']):
            raise Unreadable('list of %d copies' % len(res))
        for r, t in zip(e['rs'], res):
            self.t[r] = t

    def op_link(self, e):
        ta, tb = self.t[e['a']], self.t[e['b']]
        la, lb = e['la'], e['lb']
        if e.get('asleg'):
            la, lb = self.legs_of(ta, la, True), self.legs_of(tb, lb, True)
        else:
            la, lb = self.g(list(la)), self.g(list(lb))
        if len(la) == 1 and len(lb) == 1 and e.get('bare'):
            la, lb = la[0], lb[0]
        lib().makeLink(la, lb, ta, tb)

    def op_rename(self, e):
        t = self.t[e['a']]
        if len(e['from']) == 1 and len(e['to']) == 1:
            t.renameLabel(e['from'][0], e['to'][0])
        else:
            t.renameLabels(self.g(list(e['from'])), self.g(list(e['to'])))

    def op_tag(self, e):
        self.t[e['a']].addTensorTag(e['name'])

    def op_untag(self, e):
        self.t[e['a']].removeTensorTag()

    def op_front(self, e):
        t = self.t[e['a']]
        legs = self.legs_of(t, e['labels'], e.get('asleg'))
        if e.get('asleg') and all(not isinstance(l, str) for l in legs):
            t.moveLegsToFront(legs)
        else:
            t.moveLabelsToFront(self.g(list(e['labels'])))
        return list(t.labels)

    def op_rearrange(self, e):
        t = self.t[e['a']]
        t.reArrange(self.g(list(e['labels'])))
        return list(t.labels)

    def arr(self, a, **kw):
        if library_of(a) not in ('', self.xp):
            raise Unreadable('array of another library')
        a = np.asarray(a)
        re, im = reim(a)
        return dict(D=[int(x) for x in a.shape], re=re, im=im, **kw)

    def own(self, a, **kw):
        """The vector or matrix belongs to the caller, who may write into it."""
        x = self.arr(a, **kw)
        a[...] = 77
        return x

    def op_totensor(self, e):
        t = self.t[e['a']]
        a = t.toTensor(labels=self.g(list(e['labels']))) if e['given'] else t.toTensor()
        return self.arr(a, L=list(t.labels))

    def op_tovector(self, e):
        t = self.t[e['a']]
        return self.own(t.toVector(), L=list(t.labels))

    def op_tomatrix(self, e):
        t = self.t[e['a']]
        how = e.get('how', 'both')
        rows, cols = list(e['rows']), list(e['cols'])
        if how == 'rows':
            e['cols'] = [l for l in t.labels if l not in rows]
        if how == 'cols':
            e['rows'] = [l for l in t.labels if l not in cols]
        r = None if how == 'cols' else self.legs_of(t, rows, e.get('asleg'))
        c = None if how == 'rows' else self.legs_of(t, cols, e.get('asleg'))
        if how == 'both' or t.dim % 2:
            return self.own(t.toMatrix(rows=r, cols=c))
        return self.own(t.toMatrix(rows=r) if how == 'rows' else t.toMatrix(cols=c))

    def op_trace(self, e):
        t = self.t[e['a']]
        x = t.trace(rows=self.g(list(e['rows'])), cols=self.g(list(e['cols'])))
        re, im = reim(x)
        return [re[0], im[0] if im else 0]

    def op_norm(self, e):
        x = float(self.t[e['a']].norm())
        return ints(x * x)[0]

    def op_single(self, e):
        x = self.t[e['a']].single()
        re, im = reim(x)
        if isinstance(x, np.ndarray):
            x[...] = 77
        return [re[0], im[0] if im else 0]

    def op_labels(self, e):
        t = self.t[e['a']]
        ask = []
        for l in e['labels']:
            ask.append(int(t.shapeOfLabel(l)))
        n = int(t.dim)
        D = [int(d) for d in t.shape] if len(e['labels']) % 2 else [int(t.shapeOfIndex(i)) for i in range(n)]
        r = dict(L=list(t.labels), D=D, n=n, size=int(t.totalSize), ask=ask,
                 has=bool(t.labelsInTensor(list(e['labels']))), one=[bool(t.labelInTensor(l)) for l in e['labels']],
                 bd=int(t.bondDimension()) if n > 0 else 0, chi=int(t.chi) if n > 0 else 0, ty=str(t.typeName()))
        if [int(x) for x in t.shapeOfLabels(list(e['labels']))] != ask:
            raise Unreadable('dimensions asked one by one and together differ')
        return r

    def op_fuse(self, e):
        t = self.t[e['a']]
        leg = t.outProduct(self.legs_of(t, e['labels'], e.get('asleg')), e['new'])
        return leg.name

    def op_sumout(self, e):
        t = self.t[e['a']]
        w = self.g(self.mine(np.array(e['w'], dtype=float) + 1j * np.array(e['wi']) if e.get('wi') else np.array(e['w'], dtype=float))) if e['w'] else None
        if e.get('asleg') and len(e['labels']) == 1 and t.getLeg(e['labels'][0]) is not None:
            t.sumOutLeg(t.getLeg(e['labels'][0]), weights=w)
        elif len(e['labels']) == 1 and e.get('bare'):
            t.sumOutLegByLabel(e['labels'][0], weights=w)
        else:
            t.sumOutLegByLabel(self.g(list(e['labels'])), weights=w)

    def op_contract(self, e):
        ta, tb = self.t[e['a']], self.t[e['b']]
        if e['all']:
            r = (ta @ tb) if e.get('matmul') else lib().contract(ta, tb)
        else:
            bonds = [ta.getLeg(l).bond for l in e['bonds']]
            r = lib().contract(ta, tb, bonds=self.g(bonds))
        del self.t[e['a']]
        del self.t[e['b']]
        self.t[e['r']] = r

    def op_contractlist(self, e):
        oc = lib().oc
        ts = [self.t[a] for a in e['as']]
        m = e['mode']
        kw = dict(inplace=e['inplace'])
        if not e['inplace']:
            self.g(ts)
        if m == 'seq':
            r = oc.contractWithSequence(ts, seq=self.g([tuple(x) for x in e['seq']]), **kw)
        elif m == 'bf':
            r = oc.contractWithSequence(ts, bf=True, **kw)
        elif m == 'bfreal':
            r = oc.contractWithSequence(ts, bf=True, typicalDim=None, **kw)
        elif m == 'real':
            r = oc.contractWithSequence(ts, typicalDim=None, **kw)
        elif m == 'greedy':
            r = oc.contractAndCostWithSequence(ts, greedy=True, **kw)[0]
        elif m == 'list' and not e['inplace']:
            r = oc.contractTensorList(ts)
        else:
            r = oc.contractWithSequence(ts, **kw)
        if e['inplace']:
            for a in e['as']:
                del self.t[a]
        self.t[e['r']] = r

    def op_merge(self, e):
        ta, tb = self.t[e['a']], self.t[e['b']]
        if e.get('direct'):
            ra, rb = lib().mergeLink(ta, tb, bondName=(e['name'] or None))
        else:
            ra, rb = lib().merge(ta, tb, bondName=(e['name'] or None))
        self.t[e['a']], self.t[e['b']] = ra, rb

    def addr(self, leg):
        for i, t in self.t.items():
            for l in t.legs:
                if l is leg:
                    return [i, l.name]
        return ['?', '?']

    def op_side(self, e):
        return self.addr(self.t[e['a']].getLeg(e['l']).bond.sideLeg(self.t[e['b']]))

    def op_other(self, e):
        return self.addr(self.t[e['a']].getLeg(e['l']).bond.anotherSide(self.t[e['b']].getLeg(e['m'])))


# ---------------------------------------------------------------- generation
NAMES = ['a', 'b', 'c', 'd', 'i', 'j', 'k', 'x', 'up', 'l1', 'r', 'o', 'A', ' a', 'x ', 'b c']


class Gen:
    """Generates random programs over a World, following weights of a profile."""
    def __init__(self, rng, profile, maxlive=5):
        self.r = rng
        self.p = profile
        self.w = World()
        self.u = 0
        self.maxlive = maxlive
        self.dims = self.p.get('dims', [1, 2, 2, 2, 3])
        self.ranks = self.p.get('ranks', [0, 1, 2, 2, 3, 3])
        self.maxsize = self.p.get('maxsize', 81)
        x = rng.random()
        if x < .08:
            # some programs have wide bonds, some tensors of many legs
            self.dims = rng.choice([[1, 2, 7], [1, 5, 11], [2, 2, 6], [4, 9], [1, 1, 33], [2, 17], [10]])
            self.maxsize = max(self.maxsize, 130)
        elif x < .13:
            self.dims, self.ranks = [1, 1, 2], [3, 5, 6, 7]

    def freshlabel(self, used=()):
        free = [x for x in NAMES if x not in used]
        if free and self.r.random() < 0.8:
            return self.r.choice(free)
        if self.r.random() < 0.3:
            self.u += 1
            return 'z%d-p-q' % self.u
        self.u += 1
        return 'z%d' % self.u

    def S(self, i):
        return self.w.last[i]

    def live(self, pred=lambda s: True):
        return [i for i in self.w.t if i in self.w.last and pred(self.w.last[i])]

    def size(self, s):
        n = 1
        for d in s['D']:
            n *= d
        return n

    def mag(self, s):
        v = s['re'] + s['im']
        return max([abs(x) for x in v] + [1])

    def data(self, n, cplx, lo=-3, hi=3):
        re = [self.r.randint(lo, hi) for _ in range(n)]
        im = [self.r.randint(lo, hi) for _ in range(n)] if cplx else []
        return re, im

    def new(self, kind=None, rank=None, D=None, L=None):
        r = self.r
        kind = kind or r.choice(self.p.get('kinds', ['dense']))
        rank = rank if rank is not None else r.choice(self.ranks)
        diag = kind in ('diag', 'dlike')
        if D is None:
            D = [r.choice(self.dims)] * rank if diag else [r.choice(self.dims) for _ in range(rank)]
            while int(np.prod(D, dtype=int)) > 130 and kind != 'like' and max(self.dims) > 5:
                D.pop()
        if L is None:
            L = []
            for _ in range(len(D)):
                L.append(self.freshlabel(L))
        e = dict(op='new', r=self.w.fresh(), kind=kind, L=L, D=D, re=[], im=[])
        cplx = r.random() < self.p.get('complex', 0.3)
        if kind == 'dense':
            n = 1
            for d in D:
                n *= d
            e['re'], e['im'] = self.data(n, cplx)
            e['via'] = r.choice(['labels', 'shape', 'legs', 'flat', 'fortran', 'strided'])
        elif kind == 'diag':
            e['re'], e['im'] = self.data(D[0] if D else 1, cplx)
            e['via'] = r.choice(['labels', 'shape', 'legs', 'int', 'full'])
        else:
            e['via'] = r.choice(['labels', 'legs', 'like'])
        if r.random() < 0.5:
            e['nm'] = r.choice(['T', 'left', 'w 1'])
        if r.random() < 0.3:
            e['dof'] = r.randint(1, 9)
        e['_complex'] = r.random() < 0.1
        e['_int'] = r.random() < 0.1
        return e

    # each gen_<op> returns an event or None
    def gen_new(self):
        if len(self.w.t) >= self.maxlive:
            return None
        return self.new()

    def gen_newnet(self):
        """A tensor made to be linked: legs whose dimensions match free legs around."""
        if len(self.w.t) >= self.maxlive:
            return None
        D = []
        for i in self.live():
            s = self.S(i)
            for d, p in zip(s['D'], s['P']):
                if p == FREE and self.r.random() < 0.5:
                    D.append(d)
        D = D[:self.p.get('maxrank', 3)]
        if self.r.random() < 0.3 and len(D) < 3:
            D.append(self.r.choice(self.dims))
        while max(self.dims) > 5 and int(np.prod(D, dtype=int)) > 130:
            D.pop()
        self.r.shuffle(D)
        kind = self.r.choice(self.p.get('kinds', ['dense']))
        if kind in ('diag', 'dlike'):
            D = [D[0]] * len(D) if D else []
        return self.new(kind=kind, D=D)

    def free(self, i):
        s = self.S(i)
        return [(l, d) for l, d, p in zip(s['L'], s['D'], s['P']) if p == FREE]

    def either(self, i, p=.2):
        """The free legs of i, now and then all of them."""
        s = self.S(i)
        return list(zip(s['L'], s['D'])) if self.r.random() < p else self.free(i)

    def gen_link(self):
        ids = self.live()
        pairs = []
        again = .03 if self.r.random() < .9 else .6
        for a in ids:
            for b in ids:
                if a != b or self.r.random() < 0.05:
                    for l, d in self.either(a, again):
                        for m, f in self.either(b, again):
                            if d == f and (a, l) != (b, m):
                                pairs.append((a, l, b, m))
        if not pairs:
            return None
        a, l, b, m = self.r.choice(pairs)
        la, lb = [l], [m]
        for (a2, l2, b2, m2) in self.r.sample(pairs, len(pairs)):
            if len(la) < 3 and (a2, b2) == (a, b) and a != b and l2 not in la and m2 not in lb and self.r.random() < self.p.get('multi', 0.5):
                la.append(l2)
                lb.append(m2)
        return dict(op='link', a=a, b=b, la=la, lb=lb, asleg=self.r.random() < 0.5, bare=self.r.random() < 0.5)

    def pick(self, pred=lambda s: True):
        ids = self.live(pred)
        return self.r.choice(ids) if ids else None

    def gen_copy(self):
        if len(self.w.t) >= self.maxlive:
            return None
        a = self.pick()
        return a and dict(op='copy', a=a, r=self.w.fresh(), n=self.r.random() < 0.3)

    def gen_tolike(self):
        if len(self.w.t) >= self.maxlive:
            return None
        a = self.pick()
        return a and dict(op='tolike', a=a, r=self.w.fresh())

    def gen_copylist(self):
        ids = self.live()
        k = self.r.randint(1, max(1, min(3, len(ids))))
        if not ids or len(ids) + k > self.maxlive + 2:
            return None
        as_ = self.r.sample(ids, k)
        like = self.r.random() < self.p.get('copylike', 0.15)
        outg = not like and self.r.random() < 0.4
        return dict(op='copylist', **{'as': as_}, rs=[self.w.fresh() for _ in as_], like=like, outg=outg)

    def gen_rename(self):
        a = self.pick(lambda s: s['L'])
        if not a:
            return None
        L = self.S(a)['L']
        k = 1 if self.r.random() < 0.6 else self.r.randint(1, len(L))
        fr = self.r.sample(L, k)
        to = []
        for _ in fr:
            to.append(self.freshlabel(set(L) | set(to) | set(fr)))
        if k > 1 and self.r.random() < 0.5:
            # exchange some of them
            to = fr[1:] + (fr[:1] if self.r.random() < 0.5 else to[:1])
        if self.r.random() < 0.1:
            fr.append('nosuch')
            to.append(self.freshlabel(set(L) | set(to)))
        return dict(op='rename', a=a, **{'from': fr}, to=to)

    def gen_tag(self):
        a = self.pick(lambda s: s['L'] and not any('-' in l for l in s['L']))
        return a and dict(op='tag', a=a, name=self.r.choice(['A', 'tag', 'q']))

    def gen_untag(self):
        a = self.pick(lambda s: s['L'] and any('-' in l for l in s['L']))
        if a:
            L = [l[l.index('-') + 1:] if '-' in l else l for l in self.S(a)['L']]
            if len(set(L)) == len(L):
                return dict(op='untag', a=a)
        return None

    def gen_front(self):
        a = self.pick(lambda s: s['L'])
        if not a:
            return None
        L = self.S(a)['L']
        return dict(op='front', a=a, labels=self.r.sample(L, self.r.randint(0 if self.r.random() < .1 else 1, len(L))), asleg=self.r.random() < 0.5)

    def gen_rearrange(self):
        a = self.pick()
        if not a:
            return None
        L = self.S(a)['L']
        return dict(op='rearrange', a=a, labels=self.r.sample(L, len(L)))

    def concrete(self, s):
        return s['k'] in ('dense', 'diag')

    def gen_totensor(self):
        a = self.pick(self.concrete)
        if not a:
            return None
        L = self.S(a)['L']
        return dict(op='totensor', a=a, given=self.r.random() < 0.7, labels=self.r.sample(L, len(L)))

    def gen_tovector(self):
        a = self.pick(self.concrete)
        return a and dict(op='tovector', a=a)

    def split(self, L):
        P = self.r.sample(L, len(L))
        k = self.r.randint(0, len(P))
        return P[:k], P[k:]

    def gen_tomatrix(self):
        a = self.pick(self.concrete)
        if not a:
            return None
        rows, cols = self.split(self.S(a)['L'])
        return dict(op='tomatrix', a=a, rows=rows, cols=cols, how=self.r.choice(['both', 'both', 'rows', 'cols']), asleg=self.r.random() < 0.4)

    def gen_trace(self):
        for _ in range(12):
            a = self.pick(self.concrete)
            if not a:
                return None
            s = self.S(a)
            rows, cols = self.split(s['L'])
            d = dict(zip(s['L'], s['D']))
            pr = pc = 1
            for l in rows:
                pr *= d[l]
            for l in cols:
                pc *= d[l]
            if s['k'] == 'diag' and len(rows) != len(cols):
                continue
            if pr == pc:
                return dict(op='trace', a=a, rows=rows, cols=cols)
        return None

    def gen_norm(self):
        a = self.pick(lambda s: self.concrete(s) and self.mag(s) ** 2 * self.size(s) * 2 < 1e9)
        return a and dict(op='norm', a=a)

    def gen_single(self):
        a = self.pick(lambda s: self.concrete(s) and not s['L'])
        return a and dict(op='single', a=a)

    def gen_labels(self):
        a = self.pick()
        if not a:
            return None
        L = self.S(a)['L']
        ask = self.r.sample(L, self.r.randint(0, len(L)))
        if self.r.random() < 0.2:
            ask.append('nosuch')
        return dict(op='labels', a=a, labels=ask)

    def gen_fuse(self):
        a = self.pick(lambda s: s['k'] in ('dense', 'like') and s['L'])
        ls = [l for l, d in self.either(a)] if a else []
        if not ls:
            return None
        k = self.r.randint(1, len(ls))
        return dict(op='fuse', a=a, labels=self.r.sample(ls, k), new=self.freshlabel(self.S(a)['L']), asleg=self.r.random() < 0.4)

    def gen_sumout(self):
        a = self.pick(lambda s: s['L'] and self.mag(s) * self.size(s) < 1e7)
        ls = self.either(a) if a else []
        if not ls:
            return None
        k = self.r.randint(1, min(2, len(ls)))
        pick = self.r.sample(ls, k)
        w = []
        if self.r.random() < 0.5:
            if len({d for l, d in pick}) > 1:
                pick = pick[:1]
            if pick[0][1] > 1 or True:
                w = [self.r.randint(-2, 3) for _ in range(pick[0][1])]
        wi = [self.r.randint(-2, 2) for _ in w] if self.r.random() < 0.4 else []
        return dict(op='sumout', a=a, labels=[l for l, d in pick], w=w, wi=wi, asleg=self.r.random() < 0.3, bare=self.r.random() < 0.5)

    def shared(self, a, b):
        s = self.S(a)
        return [l for l, p in zip(s['L'], s['P']) if p[0] == b]

    def bondpairs(self, a, b):
        s = self.S(a)
        return [(l, p[1]) for l, p in zip(s['L'], s['P']) if p[0] == b]

    def likeness(self, i):
        return self.S(i)['k'] in ('like', 'dlike')

    def survivors(self, as_, cutpairs=None):
        out = []
        for a in as_:
            s = self.S(a)
            for l, p in zip(s['L'], s['P']):
                if cutpairs is not None:
                    if (a, l) not in cutpairs:
                        out.append((a, l, dict(zip(s['L'], s['D']))[l]))
                elif p[0] not in as_:
                    out.append((a, l, dict(zip(s['L'], s['D']))[l]))
        return out

    def clash(self, surv):
        """A rename event removing a clash of surviving labels, or None."""
        seen = {}
        allL = {l for a, l, d in surv}
        for a, l, d in surv:
            if l in seen:
                used = set(self.S(a)['L']) | allL
                return dict(op='rename', a=a, **{'from': [l]}, to=[self.freshlabel(used)])
            seen[l] = a
        return None

    def feasible(self, as_, surv):
        n = 1
        for a, l, d in surv:
            n *= d
        if n > self.maxsize or len(surv) > 7:
            return False
        tot = 1
        names = 1
        for a in as_:
            s = self.S(a)
            tot *= self.mag(s) * 2
            names *= max(self.size(s), 1)
        return tot * min(names, 10 ** 5) < 1e9 and names < 40000

    def gen_contract(self):
        ids = self.live()
        pairs = [(a, b) for a in ids for b in ids if a != b and self.likeness(a) == self.likeness(b)]
        sh = [(a, b) for a, b in pairs if self.shared(a, b)]
        if not pairs:
            return None
        a, b = self.r.choice(sh) if sh and self.r.random() < 0.8 else self.r.choice(pairs)
        S = self.shared(a, b)
        sub = list(S)
        allb = True
        if S and self.r.random() < self.p.get('explicit', 0.3):
            allb = False
            sub = self.r.sample(S, self.r.randint(1, len(S)))
        bp = dict(self.bondpairs(a, b))
        cut = {(a, l) for l in sub} | {(b, bp[l]) for l in sub}
        surv = self.survivors([a, b], cut)
        if not self.feasible([a, b], surv):
            return None
        c = self.clash(surv)
        if c:
            return c
        return dict(op='contract', a=a, b=b, r=self.w.fresh(), all=allb, bonds=sub, matmul=self.r.random() < 0.5)

    def selfbonded(self, i):
        return any(p[0] == i for p in self.S(i)['P'])

    def gen_contractlist(self):
        ids = self.live(lambda s: not self.selfbonded(s['id']))
        if len(ids) < 2:
            return None
        k = self.r.randint(1 if self.r.random() < 0.1 else 2, min(self.p.get('maxlist', 4), len(ids)))
        as_ = self.r.sample(ids, k)
        if len({self.likeness(a) for a in as_}) > 1:
            lk = self.likeness(as_[0])
            as_ = [a for a in as_ if self.likeness(a) == lk]
        surv = self.survivors(as_)
        if not self.feasible(as_, surv):
            return None
        c = self.clash_inner(as_) or self.clash(surv)
        if c:
            return c
        mode = self.r.choice(['seq', 'seq', 'bf', 'bfreal', 'real', 'greedy', 'list', 'default'])
        seq = []
        idx = list(range(len(as_)))
        while len(idx) > 1:
            s, t = self.r.sample(idx, 2)
            seq.append([s, t])
            idx.remove(max(s, t))
        inplace = self.r.random() < 0.5
        if not inplace and len(self.w.t) >= self.maxlive + 1:
            inplace = True
        return dict(op='contractlist', **{'as': as_}, r=self.w.fresh(), mode=mode, seq=seq, inplace=inplace)

    def clash_inner(self, as_):
        """Labels of all listed tensors must be distinct, since intermediate results hold any subset."""
        return self.clash([(a, l, 0) for a in as_ for l in self.S(a)['L']])

    def gen_merge(self):
        ids = self.live(lambda s: s['k'] in ('dense', 'like') and not self.selfbonded(s['id']))
        pairs = [(a, b) for a in ids for b in ids if a != b and self.shared(a, b) and self.likeness(a) == self.likeness(b)]
        if self.r.random() < 0.1:   # sharing no bond
            pairs = [(a, b) for a in ids for b in ids if a != b and not self.shared(a, b) and self.likeness(a) == self.likeness(b)] or pairs
        if not pairs:
            return None
        multi = [p for p in pairs if len(self.shared(*p)) > 1]
        a, b = self.r.choice(multi if multi and self.r.random() < 0.8 else pairs)
        name = ''
        if self.r.random() < 0.5:
            name = self.freshlabel(set(self.S(a)['L']) | set(self.S(b)['L']))
        return dict(op='merge', a=a, b=b, name=name, direct=self.r.random() < 0.4)

    def gen_ends(self):
        a = self.pick(lambda s: any(p != FREE for p in s['P']))
        if not a:
            return None
        s = self.S(a)
        l, p = self.r.choice([(l, p) for l, p in zip(s['L'], s['P']) if p != FREE])
        b = self.r.choice([a, p[0], self.r.choice(self.live())])
        if self.r.random() < 0.5:
            return dict(op='side', a=a, l=l, b=b)
        L = self.S(b)['L']
        if not L:
            return None
        m = self.r.choice([l if b == a else p[1] if b == p[0] else L[0], self.r.choice(L)])
        return dict(op='other', a=a, l=l, b=b, m=m)

    def gen_poke(self):
        a = self.pick(self.concrete)
        if not a or not isinstance(self.w.t[a].a, np.ndarray):
            return None
        t = self.w.t[a]
        s = self.S(a)
        cplx = np.iscomplexobj(t.a)
        n = (s['D'][0] if s['D'] else 1) if s['k'] == 'diag' else self.size(s)
        re, im = self.data(n, cplx)
        return dict(op='poke', a=a, kind=s['k'], L=list(t.labels), D=[int(x) for x in t.shape], re=re, im=im)

    def gen_pokeinput(self):
        ids = [i for i in self.w.inputs if isinstance(self.w.inputs[i][0], np.ndarray)]
        if not ids:
            return None
        a = self.r.choice(ids)
        return dict(op='pokeinput', a=a)

    def gen_drop(self):
        a = self.pick(lambda s: all(p == FREE for p in s['P']))
        if len(self.w.t) < self.maxlive:
            return None
        return a and dict(op='drop', a=a)

    # ------------------------------------------------- invalid requests
    def gen_bad(self):
        r = self.r
        ids = self.live()
        if not ids:
            return None
        a = r.choice(ids)
        b = r.choice(ids)
        s = self.S(a)
        L = s['L']
        c = r.choice(['link-unknown', 'link-dim', 'link-dim', 'link-len', 'front-unknown', 'front-dup', 'rearrange', 'totensor',
                      'tomatrix', 'trace', 'fuse-unknown', 'fuse-dup', 'fuse-empty', 'fuse-diag', 'mixed', 'mixedlist', 'mixedmerge',
                      'likeread', 'tag', 'weights', 'renamelen', 'mergediag'])
        if c == 'link-unknown' and L and a != b and self.free(b) and self.free(a):
            la = [l for l, d in self.free(a)][:r.randint(0, 1)] if len(self.free(b)) > 1 else []
            ld = dict(self.free(a))
            fb = self.free(b)
            lb = []
            for l in la:
                m = [x for x, d in fb if d == ld[l] and x not in lb]
                if not m:
                    return None
                lb.append(m[0])
            rest = [x for x, d in fb if x not in lb]
            if not rest:
                return None
            return dict(op='link', a=a, b=b, la=la + ['nosuch'], lb=lb + [rest[0]], asleg=False, bare=r.random() < 0.5)
        if c == 'link-dim' and a != b:
            fa, fb = self.free(a), self.free(b)
            good = [(l, m) for l, d in fa for m, f in fb if d == f]
            badp = [(l, m) for l, d in fa for m, f in fb if d != f]
            if badp:
                l, m = r.choice(badp)
                la, lb = [l], [m]
                for l2, m2 in r.sample(good, len(good)):
                    if l2 not in la and m2 not in lb:
                        la.insert(0, l2)
                        lb.insert(0, m2)
                return dict(op='link', a=a, b=b, la=la, lb=lb, asleg=r.random() < 0.5, bare=r.random() < 0.5)
        if c == 'link-len' and a != b:
            fa, fb = self.free(a), self.free(b)
            for l, d in fa:
                for m, f in fb:
                    if d == f:
                        other = [x for x, _ in fb if x != m]
                        if other:
                            return dict(op='link', a=a, b=b, la=[l], lb=[m, other[0]], asleg=False, bare=False)
        if c == 'front-unknown':
            return dict(op='front', a=a, labels=r.sample(L, r.randint(0, len(L))) + ['nosuch'], asleg=False)
        if c == 'front-dup' and L:
            return dict(op='front', a=a, labels=[L[0], L[0]], asleg=r.random() < 0.5)
        if c == 'rearrange' and L:
            P = r.sample(L, len(L))
            return dict(op='rearrange', a=a, labels=P[1:] + r.choice([[], ['nosuch'], [P[1]] if len(P) > 1 else []]))
        if c == 'totensor' and L and self.concrete(s):
            P = r.sample(L, len(L))
            return dict(op='totensor', a=a, given=True, labels=P[1:])
        if c == 'tomatrix' and len(L) > 0 and self.concrete(s):
            rows, cols = self.split(L)
            if rows and r.random() < 0.5:
                rows = rows[1:]
            elif rows and r.random() < 0.5:
                cols = cols + [rows[0]]
            else:
                rows = rows + ['nosuch']
            return dict(op='tomatrix', a=a, rows=rows, cols=cols, how='both', asleg=False)
        if c == 'trace' and L and s['k'] == 'dense':
            rows, cols = self.split(L)
            return dict(op='trace', a=a, rows=rows, cols=cols)
        if c.startswith('fuse') and s['k'] in ('dense', 'like') and L:
            if c == 'fuse-unknown':
                return dict(op='fuse', a=a, labels=r.sample(L, r.randint(0, len(L))) + ['nosuch'], new='zz', asleg=False)
            if c == 'fuse-dup':
                return dict(op='fuse', a=a, labels=[L[0], L[0]], new='zz', asleg=False)
            if c == 'fuse-empty':
                return dict(op='fuse', a=a, labels=[], new='zz', asleg=False)
        if c == 'fuse-diag' and s['k'] in ('diag', 'dlike') and L:
            return dict(op='fuse', a=a, labels=list(L), new='zz', asleg=False)
        if c in ('mixed', 'mixedlist', 'mixedmerge'):
            m = [(x, y) for x in ids for y in ids if self.likeness(x) != self.likeness(y)]
            if m:
                x, y = r.choice(m)
                if c == 'mixedmerge':
                    return dict(op='merge', a=x, b=y, name=r.choice(['', 'zz']))
                if c == 'mixed':
                    return dict(op='contract', a=x, b=y, r='999', all=True, bonds=[], matmul=r.random() < .5)
                if not self.selfbonded(x) and not self.selfbonded(y):
                    return dict(op='contractlist', **{'as': [x, y]}, r='999', mode='seq', seq=[[0, 1]], inplace=r.random() < .5)
        if c == 'likeread':
            m = [x for x in ids if self.likeness(x)]
            if m:
                x = r.choice(m)
                Lx = self.S(x)['L']
                o = r.choice(['totensor', 'tovector', 'tomatrix', 'trace', 'norm', 'single'])
                d = dict(op=o, a=x)
                if o == 'totensor':
                    d.update(given=r.random() < .5, labels=r.sample(Lx, len(Lx)))
                if o in ('tomatrix', 'trace'):
                    d['rows'], d['cols'] = self.split(Lx)
                return d
        if c == 'tag':
            m = [x for x in ids if any('-' in l for l in self.S(x)['L'])]
            if m:
                return dict(op='tag', a=r.choice(m), name='T')
            if L:
                e = self.freshlabel(L)
                return dict(op='rename', a=a, **{'from': [r.choice(L)]}, to=['p-' + e])
        if c == 'weights' and self.concrete(s) and self.free(a):
            l, d = r.choice(self.free(a))
            if d > 1:
                return dict(op='sumout', a=a, labels=[l], w=[1] * (d + 1), asleg=r.random() < .5, bare=r.random() < .5)
        if c == 'renamelen' and L:
            return dict(op='rename', a=a, **{'from': [L[0], 'nosuch']}, to=['q1', 'q2', 'q3'])
        if c == 'mergediag':
            m = [(x, y) for x in ids for y in ids if x != y and len(self.shared(x, y)) > 1 and self.likeness(x) == self.likeness(y)
                 and (self.S(x)['k'] in ('diag', 'dlike') or self.S(y)['k'] in ('diag', 'dlike'))]
            if m:
                x, y = r.choice(m)
                return dict(op='merge', a=x, b=y, name=r.choice(['', 'zz']))
        return None

    def program(self, steps):
        ops = list(self.p['ops'].items())
        names = [o for o, _ in ops]
        ws = [w for _, w in ops]
        tries = 0
        while len(self.w.events) < steps and tries < steps * 12 and not self.w.dead:
            tries += 1
            if len(self.w.t) < 2:
                e = self.gen_new() if not self.w.t else self.gen_newnet()
            else:
                e = getattr(self, 'gen_' + self.r.choices(names, ws)[0])()
            if not e:
                continue
            if e['op'] == 'poke' and self.r.random() < .6:
                # a question asked before and after the elements change
                m = {o: f for o, f in READS.items() if o in self.p['ops']}
                if m:
                    q = self.about(e['a'], m[self.r.choice(sorted(m))])
                    if q:
                        again = copy.deepcopy(q)
                        self.w.do(q)
                        if not self.w.dead:
                            t = self.w.t[e['a']]
                            e.update(L=list(t.labels), D=[int(x) for x in t.shape])
                            self.w.do(e)
                        if not self.w.dead:
                            self.w.do(again)
                        continue
            self.w.do(e)
        return self.w.events

    def about(self, a, f):
        """A request of the given kind on tensor a, if one comes up."""
        for _ in range(15):
            q = getattr(self, f)()
            if q and q.get('a') == a:
                return q
        return None


READS = {'norm': 'gen_norm', 'trace': 'gen_trace', 'tovector': 'gen_tovector', 'tomatrix': 'gen_tomatrix', 'totensor': 'gen_totensor', 'single': 'gen_single'}
