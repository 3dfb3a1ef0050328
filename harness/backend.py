"""A stand-in for another array library (as cupy is): numpy underneath, but its arrays do not mix with numpy's.

Handing one of numpy's arrays to a function or an operator of this library is a TypeError, as it is with cupy;
numbers and numpy scalars are welcome, and `array`/`asarray` convert.  Functions of numpy called directly on its
arrays dispatch to it."""
import numpy as np


class Arr(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        refuse(inputs, ufunc.__name__)
        refuse(kw, ufunc.__name__)
        if out is not None:
            refuse(out, ufunc.__name__)
            kw['out'] = tuple(bare(o) for o in out)
        r = getattr(ufunc, method)(*bare(inputs), **bare(kw))
        return out[0] if out is not None and len(out) == 1 else own(r)

    def __setitem__(self, i, v):
        refuse([v], 'assignment')
        self.view(np.ndarray)[i] = bare(v)

    def __array_function__(self, func, types, args, kw):
        refuse(args, func.__name__)
        refuse(kw, func.__name__)
        return own(func(*bare(args), **bare(kw)))


def bare(x):
    if isinstance(x, Arr):
        return x.view(np.ndarray)
    if type(x) in (list, tuple):
        return type(x)(bare(i) for i in x)
    if type(x) is dict:
        return {k: bare(v) for k, v in x.items()}
    return x


def own(x):
    if isinstance(x, np.ndarray):
        return x.view(Arr)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return type(x)(*[own(i) for i in x])
    if type(x) in (list, tuple):
        return type(x)(own(i) for i in x)
    return x


def refuse(x, name):
    if type(x) is np.ndarray:
        raise TypeError('Unsupported type numpy.ndarray in %s' % name)
    if type(x) in (list, tuple):
        for i in x:
            refuse(i, name)
    if type(x) is dict:
        for i in x.values():
            refuse(i, name)


class Function:
    def __init__(self, f, name, free=False):
        self.f, self.__name__, self.free = f, name, free

    def __call__(self, *args, **kw):
        if not self.free:
            refuse(args, self.__name__)
            refuse(kw, self.__name__)
        return own(self.f(*bare(args), **bare(kw)))

    def __getattr__(self, name): # multiply.outer and the like
        if name.startswith('__'):
            raise AttributeError(name)
        return Function(getattr(self.f, name), name)


class Library:
    ndarray = Arr

    def __init__(self, module):
        self._module = module

    def __getattr__(self, name):
        v = getattr(self._module, name)
        if isinstance(v, type(np)):
            return Library(v)
        if isinstance(v, type) or not callable(v):
            return v
        return Function(v, name, name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'))


OTHER = Library(np)
LIBRARIES = {'numpy': np, 'other': OTHER}


def library_of(a):
    return '' if not isinstance(a, np.ndarray) else 'other' if isinstance(a, Arr) else 'numpy'


def same(x, y):
    return np.array_equal(np.asarray(x), np.asarray(y))
