"""Random kernels in the documented kernel language, and an interpreter that runs the same Python source on model particles.

The interpreter is Python itself: the source is executed with model objects for the particle, the field set, ``math`` and the
random numbers, all computing with numbers that carry a bound on the rounding difference to be expected between C and Python.
A decision (comparison, truncation, ...) closer than that bound raises Unsure and the particle is not judged."""
import ast
import math

import numpy as np

EPS = 2.3e-16
FEPS = 2.4e-7
BIG = 1e7


class Unsure(Exception):
    pass


class Outside(Exception):
    pass


def kind(x):
    return x.k if isinstance(x, V) else ('i' if isinstance(x, (int, np.integer)) else 'd')


def val(x):
    return x.v if isinstance(x, V) else x


def err(x):
    return x.e if isinstance(x, V) else 0.


class V(object):
    """A number with rounding bound e and the kind of C arithmetic it takes part in: i(nteger), f(loat), d(ouble)"""
    __slots__ = ('v', 'e', 'k')

    def __init__(self, v, e=0., k='d'):
        if isinstance(v, V) or isinstance(v, complex):
            raise TypeError('not a number')
        if v != v or abs(v) > BIG or e > 1e-3 * (1 + abs(v)):
            raise Unsure('magnitude')
        self.v, self.e, self.k = (int(v) if k == 'i' else float(v)), float(e), k

    def _bin(self, o, f, de, swap=False):
        if not isinstance(o, (V, int, float, np.number)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y, ka, kb = val(a), val(b), kind(a), kind(b)
        try:
            r = f(x, y)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Unsure('domain')
        k = 'i' if ka == kb == 'i' else ('f' if 'd' not in (ka, kb) else 'd')
        if isinstance(r, complex):
            raise Unsure('domain')
        if k == 'i':
            return V(r, 0., 'i')
        e = de(x, y, err(a), err(b))
        exact = float(np.float32(r)) == r and float(x).is_integer() and float(y).is_integer()
        if not exact:
            e += (FEPS if k == 'f' else EPS) * abs(r)
        return V(float(r), e, k)

    def __add__(self, o): return self._bin(o, lambda x, y: x + y, lambda x, y, a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda x, y: x + y, lambda x, y, a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y, lambda x, y, a, b: a + b)
    def __rsub__(self, o): return self._bin(o, lambda x, y: x - y, lambda x, y, a, b: a + b, True)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y, lambda x, y, a, b: a * abs(y) + b * abs(x) + a * b)
    def __rmul__(self, o): return self._bin(o, lambda x, y: x * y, lambda x, y, a, b: a * abs(y) + b * abs(x) + a * b, True)

    @staticmethod
    def _dive(x, y, a, b):
        if abs(y) <= 2 * b or abs(y) < 1e-6:
            raise Unsure('division')
        return (a + abs(x / y) * b) / (abs(y) - b)

    def _div(self, o, swap):
        if not isinstance(o, (V, int, float, np.number)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y = float(val(a)), float(val(b))
        e = self._dive(x, y, err(a), err(b))
        fuzz = FEPS if 'f' in (kind(a), kind(b)) and 'd' not in (kind(a), kind(b)) else EPS
        r = x / y
        return V(r, e + fuzz * abs(r), 'd')

    def __truediv__(self, o): return self._div(o, False)
    def __rtruediv__(self, o): return self._div(o, True)

    def _mod(self, o, swap):
        if not isinstance(o, (V, int, float, np.number)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y, e = val(a), val(b), err(a)
        if err(b) or y == 0:
            raise Unsure('modulus')
        r = x % y
        if e and (r <= e or abs(r - y) <= e or abs(r) <= e):
            raise Unsure('modulus')
        return V(r, e + (0 if kind(a) == kind(b) == 'i' else EPS * abs(y)), 'i' if kind(a) == kind(b) == 'i' else 'd')

    def __mod__(self, o): return self._mod(o, False)
    def __rmod__(self, o): return self._mod(o, True)

    def _floordiv(self, o, swap):
        a, b = (o, self) if swap else (self, o)
        if err(a) or err(b) or val(b) == 0:
            raise Unsure('floordiv')
        return V(val(a) // val(b), 0., 'i' if kind(a) == kind(b) == 'i' else 'd')

    def __floordiv__(self, o): return self._floordiv(o, False)
    def __rfloordiv__(self, o): return self._floordiv(o, True)

    def _pow(self, o, swap):
        if not isinstance(o, (V, int, float, np.number)):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y = float(val(a)), float(val(b))
        try:
            r = math.pow(x, y)
            lo, hi = [math.pow(x + s * (err(a) + 1e-9 * abs(x)), y + t * err(b)) for s, t in ((-1, 0), (1, 0))]
            lo2, hi2 = math.pow(x, y - err(b)), math.pow(x, y + err(b))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Unsure('pow')
        e = abs(hi - lo) + abs(hi2 - lo2) if err(a) or err(b) else 0.
        return V(r, e + 4 * EPS * abs(r), 'd')

    def __pow__(self, o): return self._pow(o, False)
    def __rpow__(self, o): return self._pow(o, True)

    def _int(self, o, f, swap):
        a, b = (o, self) if swap else (self, o)
        if kind(a) != 'i' or kind(b) != 'i':
            raise TypeError('integer operation')
        return V(f(int(val(a)), int(val(b))), 0., 'i')

    def __and__(self, o): return self._int(o, lambda x, y: x & y, False)
    def __rand__(self, o): return self._int(o, lambda x, y: x & y, True)
    def __or__(self, o): return self._int(o, lambda x, y: x | y, False)
    def __ror__(self, o): return self._int(o, lambda x, y: x | y, True)
    def __xor__(self, o): return self._int(o, lambda x, y: x ^ y, False)
    def __lshift__(self, o): return self._int(o, lambda x, y: x << y, False)
    def __rshift__(self, o): return self._int(o, lambda x, y: x >> y, False)
    def __invert__(self): return self._int(0, lambda x, y: ~x, False)

    def __neg__(self): return V(-self.v, self.e, self.k)
    def __pos__(self): return V(self.v, self.e, self.k)
    def __abs__(self): return V(abs(self.v), self.e, self.k)

    def _rnd(self, f, edge):
        if self.k != 'i' and self.e:
            d = self.v - edge
            if abs(d - round(d)) <= self.e:
                raise Unsure('rounding')
        return V(f(self.v), 0., 'i')

    def __round__(self, n=None):
        if n is not None:
            return V(round(self.v, val(n)), self.e + 1e-12, 'd')
        return self._rnd(round, .5)

    def __floor__(self): return self._rnd(math.floor, 0)
    def __ceil__(self): return self._rnd(math.ceil, 0)
    def __trunc__(self): return self._rnd(math.trunc, 0)
    def __int__(self): return int(self._rnd(math.trunc, 0).v)
    def __float__(self): return float(self.v)

    def __bool__(self):
        if self.e and abs(self.v) <= self.e:
            raise Unsure('truth')
        return bool(self.v)

    def _cmp(self, o, f):
        if not isinstance(o, (V, int, float, np.number)):
            return NotImplemented
        x, y, e = self.v, val(o), self.e + err(o)
        if 'd' not in (kind(self), kind(o)) and (abs(x) > 2**24 or abs(y) > 2**24):
            e += FEPS * max(abs(x), abs(y))
        if e and abs(x - y) <= e:
            raise Unsure('comparison')
        return bool(f(x, y))

    def __lt__(self, o): return self._cmp(o, lambda x, y: x < y)
    def __le__(self, o): return self._cmp(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._cmp(o, lambda x, y: x > y)
    def __ge__(self, o): return self._cmp(o, lambda x, y: x >= y)
    def __eq__(self, o): return self._cmp(o, lambda x, y: x == y)
    def __ne__(self, o): return self._cmp(o, lambda x, y: x != y)
    __hash__ = None

    def __index__(self):
        if self.k != 'i':
            raise TypeError('not an index')
        return int(self.v)

    def __repr__(self):
        return '%r+-%.1g%s' % (self.v, self.e, self.k)


class MathModel(object):
    pi, e, tau, inf, nan = math.pi, math.e, math.tau, math.inf, math.nan

    def __getattr__(self, name):
        f = getattr(math, name)

        def g(*args):
            if name in ('floor', 'ceil', 'trunc') and isinstance(args[0], V):
                return f(args[0])
            x = [val(a) for a in args]
            es = [err(a) for a in args]
            try:
                r = f(*x)
                e = 0.
                for i in range(len(x)):
                    if es[i]:
                        y = list(x)
                        y[i] = x[i] + es[i]
                        z = list(x)
                        z[i] = x[i] - es[i]
                        e += abs(f(*y) - r) + abs(f(*z) - r)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Unsure('domain')
            if isinstance(r, (bool, int)):
                return r
            if not isinstance(r, float):
                return r
            return V(r, 2 * e + 8 * EPS * (abs(r) + 1e-30), 'd')
        return g


class RandomModel(object):
    """The real stream (shared by Python and C), asked in the order in which Python evaluates the kernel"""

    def __init__(self, R, log):
        self.R, self.log = R, log

    def __getattr__(self, name):
        f = getattr(self.R, name)

        def g(*args):
            if any(err(a) for a in args):
                raise Unsure('random argument')
            self.log.append(name)
            r = f(*[val(a) for a in args])
            return V(r, 0., 'i' if name == 'randint' else 'd')
        return g


class FieldModel(object):
    """Bilinear interpolation on a unit grid"""

    def __init__(self, data, x0=0., y0=0.):
        self.d, self.x0, self.y0 = np.asarray(data, dtype=np.float64), x0, y0

    def sample(self, y, x):
        ex, ey = err(x), err(y)
        x, y = float(val(x)) - self.x0, float(val(y)) - self.y0
        ny, nx = self.d.shape
        for c, e, n in ((x, ex, nx), (y, ey, ny)):
            m = min(abs(c), abs(c - (n - 1)))
            if m < max(1e-5, e) and not (e == 0 and c * 8 == round(c * 8)):
                raise Unsure('edge')
        if x < 0 or x > nx - 1 or y < 0 or y > ny - 1:
            raise Outside()
        i, j = min(int(x), nx - 2), min(int(y), ny - 2)
        a, b = x - i, y - j
        d = self.d
        r = (1 - b) * ((1 - a) * d[j, i] + a * d[j, i + 1]) + b * ((1 - a) * d[j + 1, i] + a * d[j + 1, i + 1])
        if ex == ey == 0 and x * 8 == round(x * 8) and y * 8 == round(y * 8):
            return V(r, 0., 'f')
        return V(r, 1e-5 * (1 + np.abs(d).max()) + (ex + ey) * 2 * np.abs(d).max(), 'f')

    def __getitem__(self, key):
        y, x = where(key)
        return self.sample(y, x)

    def eval(self, time, depth, lat, lon, particle=None, applyConversion=True):
        return self.sample(lat, lon)


def where(key):
    if isinstance(key, tuple):
        return key[2], key[3]
    return key.lat, key.lon


class VectorModel(object):
    def __init__(self, *f):
        self.f = f

    def __getitem__(self, key):
        y, x = where(key)
        return tuple(f.sample(y, x) for f in self.f)


class SummedModel(object):
    def __init__(self, *f):
        self.f = f

    def __getitem__(self, key):
        y, x = where(key)
        r = [f.sample(y, x) for f in self.f]
        s = r[0]
        for o in r[1:]:
            s = s + o
        return s


class NestedModel(object):
    def __init__(self, *f):
        self.f = f

    def __getitem__(self, key):
        y, x = where(key)
        for f in self.f:
            try:
                return f.sample(y, x)
            except Outside:
                pass
        raise Outside()


class ParticleModel(object):
    def __init__(self, dtypes, values):
        self.__dict__['_t'] = dtypes
        self.__dict__['_d'] = {k: V(v, 0., kinds(dtypes[k])) for k, v in values.items()}

    def __getattr__(self, n):
        try:
            return self.__dict__['_d'][n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, x):
        if n not in self._t:
            raise AttributeError(n)
        if n == 'state' and x in ('delete', 'success'):
            self._d['state'] = x
            return
        if not isinstance(x, (V, int, float, np.number)):
            raise TypeError('cannot store %r' % (x,))
        t = self._t[n]
        v, e = val(x), err(x)
        if np.issubdtype(t, np.integer):
            if isinstance(x, float) and x != x:
                raise Unsure('nan')
            v, e, k = int(V(v, e)) if not isinstance(v, int) else v, 0., 'i'
            if abs(v) > BIG:
                raise Unsure('range')
        elif t == np.float32:
            r = float(np.float32(v))
            e = e + (FEPS * abs(r) if (e or r != v) else 0.)
            v, k = r, 'f'
        else:
            v, k = float(v), 'd'
        self._d[n] = V(v, e, k)

    def delete(self):
        self._d['state'] = 'delete'


def kinds(t):
    return 'i' if np.issubdtype(t, np.integer) else ('f' if t == np.float32 else 'd')


class Codes(object):
    Success, Delete = 'success', 'delete'


# ---------------------------------------------------------------------------------------------------------------------------
F64, F32, INT = ['a', 'b', 'c'], ['f', 'g'], ['i', 'j']
DTYPES = {'a': np.float64, 'b': np.float64, 'c': np.float64, 'f': np.float32, 'g': np.float32, 'i': np.int32, 'j': np.int64}
CONSTS = {'cst': 0.5, 'cneg': -2.25, 'cint': 3}


class Gen(object):
    def __init__(self, rng, locals_=('l0', 'l1', 'l2', 'l3'), arr='arr', features=None):
        self.r, self.names, self.arrname = rng, list(locals_), arr
        self.defined, self.has_arr = [], False
        self.used = set()
        self.uid = 0
        self.off = set() if features is None else features

    def c(self, xs):
        return xs[int(self.r.integers(len(xs)))]

    def p(self, x):
        return self.r.random() < x

    def use(self, f):
        self.used.add(f)

    def leaf(self):
        q = self.r.random()
        if q < .2:
            return str(self.c([0, 1, 2, 3, 4, 5, 7, 9, 100]))
        if q < .33:
            return repr(self.c([0.5, 0.125, 2.75, 0.1, 1.3, 10.25, 1e-3]))
        if q < .63:
            return 'particle.' + self.c(F64 + F32 + INT)
        if q < .75 and self.defined:
            return self.c(self.defined)
        if q < .8:
            return 'fieldset.' + self.c(list(CONSTS))
        if q < .84:
            return self.c(['time', 'particle.time', 'particle.dt', 'particle.lon', 'particle.lat'])
        if q < .87 and self.has_arr:
            self.use('array')
            return '%s[%d]' % (self.arrname, self.r.integers(3))
        if q < .95:
            return self.sample()
        return self.draw()

    def pos(self):
        q = self.r.random()
        if q < .4:
            return self.c(['particle', 'time, particle.depth, particle.lat, particle.lon',
                           'time, particle.depth, particle.lat, particle.lon, particle'])
        y, x = [self.c(['particle.%s' % v, '%r' % (int(self.r.integers(0, 33)) / 8.), 'particle.%s * 0.5 + 0.25' % v,
                        '4 - particle.%s' % v]) for v in ('lat', 'lon')]
        if self.p(.15):
            self.use('outside sample')
            x = 'particle.lon + 99'
        return 'time, particle.depth, %s, %s' % (y, x)

    def sample(self):
        q = self.r.random()
        self.use('sample')
        if q < .5:
            return 'fieldset.%s[%s]' % (self.c(['P', 'Q']), self.pos())
        if q < .65:
            self.use('summed')
            return 'fieldset.S[%s]' % self.pos()
        if q < .8:
            self.use('nested')
            return 'fieldset.N[%s]' % self.pos()
        self.use('eval')
        pos = self.pos()
        if pos == 'particle':
            pos = 'time, particle.depth, particle.lat, particle.lon'
        return 'fieldset.P.eval(%s%s)' % (pos, self.c(['', ', applyConversion=False', ', applyConversion=True']))

    def draw(self):
        self.use('random')
        return self.c(['ParcelsRandom.random()', 'ParcelsRandom.uniform(-1, 2.5)', 'ParcelsRandom.randint(1, 6)',
                       'ParcelsRandom.normalvariate(0, 1)', 'ParcelsRandom.expovariate(2.)',
                       'ParcelsRandom.uniform(ParcelsRandom.random(), 2 + ParcelsRandom.random())'])

    def expr(self, d):
        if d <= 0 or self.p(.12):
            return self.leaf()
        q = self.r.random()
        e = lambda: self.expr(d - 1)
        if q < .3:
            op = self.c(['+', '-', '-', '*'])
            self.use(op)
            return '((%s) %s (%s))' % (e(), op, e())
        if q < .4:
            self.use('/')
            return self.c(['((%s) / 4)', '((%s) / (abs(%s) + 1))', '((%s) / 7 * 2)', '((%s) / fieldset.cint)', '(1 / 2 + (%s))',
                           '((%s) / 3 / 2)', '((%s) / (3 / 2))', '((%s) - 5 / 2)'])\
                .replace('%s', '\0').replace('\0', e(), 1).replace('\0', e())
        if q < .46:
            self.use('%')
            return '((%s) %% %s)' % (e(), self.c(['3', '4', '-3', '2.5', '(-1.75)', '7']))
        if q < .52:
            self.use('**')
            return self.c(['((%s) ** 2)', '(abs(%s) ** 0.5)', '(-(%s) ** 2)', '((-(%s)) ** 2)', '((abs(%s) + 1) ** -1)']) % e()
        if q < .58:
            self.use('unary')
            return self.c(['(-(%s))', '(+(%s))', '(- -(%s))', '(5 - -(%s))']) % e()
        if q < .68:
            f = self.c(['abs(%s)', 'round(%s)', 'min(%s, %s)', 'max(%s, %s)', 'pow(abs(%s), 2)'])
            self.use('builtin ' + f.split('(')[0])
            return f.replace('%s', '\0').replace('\0', e(), 1).replace('\0', e())
        if q < .8:
            f = self.c(['sin(%s)', 'cos(%s)', 'tan(0.3 * math.sin(%s))', 'exp(min(%s, 3))', 'sqrt(abs(%s))', 'floor(%s)', 'ceil(%s)',
                        'fabs(%s)', 'atan2(%s, %s)', 'hypot(%s, %s)', 'log(abs(%s) + 1)', 'fmod(%s, 3)', 'pow(abs(%s) + 0.5, 2)',
                        'trunc(%s)', 'gamma((abs(%s)) % 4 + 1)', 'copysign(%s, %s)', 'atan(%s)', 'asin(math.sin(%s))',
                        'log10(abs(%s) + 1)', 'log2(abs(%s) + 1)', 'cosh(math.cos(%s))', 'tanh(%s)', 'erf(%s)', 'cbrt(%s)',
                        'pi * (%s)', 'e + (%s)', 'lgamma(abs(%s) + 1)', 'expm1(min(%s, 2))', 'log1p(abs(%s))', 'acos(math.cos(%s))'])
            self.use('math.' + f.split('(')[0].split(' ')[0])
            return '(math.' + f.replace('%s', '\0').replace('\0', e(), 1).replace('\0', e()) + ')'
        if q < .88:
            self.use('comparison as number')
            return self.c(['((%s) * 3)', '((%s) + 1)', '(2 - (%s))', '(-(%s))']) % self.test(d - 1)
        if q < .94:
            self.use('and/or value')
            return '((%s) %s (%s))' % (e(), self.c(['and', 'or']), e())
        return self.leaf()

    def test(self, d):
        q = self.r.random()
        if d <= 0 or q < .45:
            op = self.c(['<', '<=', '>', '>=', '==', '!='])
            return '((%s) %s (%s))' % (self.expr(max(d - 1, 0)), op, self.expr(max(d - 1, 0)))
        if q < .8:
            op = self.c(['and', 'or'])
            self.use(op)
            return '(' + (' %s ' % op).join(self.test(d - 1) for _ in range(self.c([2, 2, 3]))) + ')'
        if q < .92:
            self.use('not')
            return '(not %s)' % self.test(d - 1)
        if q < .96:
            self.use('nested comparison')
            return '(%s %s %s)' % (self.test(d - 1), self.c(['==', '!=', '<']), self.test(d - 1))
        self.use('number as test')
        return '(%s)' % self.expr(d - 1)

    def target(self):
        q = self.r.random()
        if q < .6:
            return 'particle.' + self.c(F64 + F64 + F32 + INT)
        n = self.c(self.names)
        return n

    def define(self, t):
        if t in self.names and t not in self.defined:
            self.defined.append(t)

    def block(self, d, n, top=False):
        before = list(self.defined)
        out = []
        for _ in range(n):
            out += self.stmt(d)
        if not top:
            self.defined = before
        return out or ['pass']

    def indent(self, ls):
        return ['    ' + l for l in ls]

    def stmt(self, d):
        q = self.r.random()
        ed = self.c([1, 2, 2, 3])
        if q < .3 or d <= 0:
            t = self.target()
            s = '%s = %s' % (t, self.expr(ed))
            self.define(t)
            return [s]
        if q < .42:
            t = self.target()
            if t in self.names and t not in self.defined:
                t = 'particle.' + self.c(F64)
            op = self.c(['+', '-', '*', '/', '%', '**'])
            self.use(op + '=')
            if op == '/':
                return ['%s /= %s' % (t, self.c(['2', '3', '-4', '2.5', '(abs(%s) + 1)' % self.expr(1)]))]
            if op == '%':
                return ['%s %%= %s' % (t, self.c(['3', '5', '-4', '2.5']))]
            if op == '**':
                return ['%s **= 2' % t]
            return ['%s %s= %s' % (t, op, self.expr(ed))]
        if q < .68:
            self.use('if')
            s = ['if %s:' % self.test(self.c([1, 2, 2, 3]))] + self.indent(self.block(d - 1, self.c([1, 1, 2])) if self.p(.9) else ['pass'])
            while self.p(.25):
                self.use('elif')
                s += ['elif %s:' % self.test(2)] + self.indent(self.block(d - 1, 1))
            if self.p(.5):
                self.use('else')
                s += ['else:'] + self.indent(self.block(d - 1, self.c([1, 2])))
            return s
        if q < .77:
            self.use('while')
            self.uid += 1
            k = 'n%d_%s' % (self.uid, self.names[0])
            body = self.block(d - 1, self.c([1, 1, 2]))
            test = self.c(['%s < %d' % (k, self.r.integers(0, 4)), '%s < 3 and %s' % (k, self.test(1)),
                           'not (%s >= 2 or %s)' % (k, self.test(1)), '%s < fieldset.P[particle] and %s < 4' % (k, k), 'True'])
            s = ['%s = 0' % k, 'while %s:' % test, '    %s += 1' % k]
            if test == 'True' or self.p(.3):
                self.use('break')
                s += ['    if %s > %d:' % (k, self.r.integers(0, 4)), '        break']
            return s + self.indent(body)
        if q < .85:
            self.use('tuple')
            z = self.r.random()
            if z < .35:
                u, v = self.c([('particle.a', 'particle.b'), ('particle.b', 'particle.a'), ('particle.i', 'particle.c'),
                               ('particle.f', 'particle.j')])
                return ['%s, %s = %s, %s' % (u, v, v, u)]
            if z < .6:
                ts = ['particle.c', self.c(self.names), 'particle.g']
                s = '(%s, %s, %s) = (%s, %s, %s)' % tuple(ts + [self.expr(1), self.expr(1), self.expr(1)])
                self.define(ts[1])
                return [s]
            ts = [self.c(self.names), 'particle.' + self.c(F64)]
            if self.p(.3):
                ts.reverse()
            self.use('vector sample')
            s = '%s, %s = fieldset.UV[%s]' % (ts[0], ts[1], self.pos())
            [self.define(t) for t in ts]
            return [s]
        if q < .88:
            self.use('multiple targets')
            ts = [self.c(self.names), 'particle.' + self.c(F64 + INT + F32)]
            s = '%s = %s = %s' % (ts[0], ts[1], self.expr(ed))
            self.define(ts[0])
            return [s]
        if q < .91:
            self.use('move')
            return [self.c(['particle.lon += 0.25', 'particle.lat = 4 - particle.lat', 'particle.lon = 0.5 * particle.lat',
                            'particle.lat, particle.lon = particle.lon, particle.lat', 'particle.lat += 0.125 * particle.dt'])]
        if q < .945 and self.has_arr:
            if self.p(.5):
                self.use('array redefinition')
                return ['%s = [%s]' % (self.arrname, ', '.join(self.c(['1.5', '4', 'particle.a', '%s[1]' % self.arrname, '%s[0] + 1' % self.arrname]) for _ in range(3)))]
            self.use('array store')
            return ['%s[%d] = %s' % (self.arrname, self.r.integers(3), self.expr(1))]
        if q < .955:
            self.use('expression statement')
            return [self.sample()]
        if q < .965:
            self.use('delete')
            return ['if %s:' % self.test(1), '    particle.delete()']
        if q < .98:
            self.use('return')
            return ['if %s:' % self.test(1), '    return %s' % self.c(['StateCode.Success', 'OperationCode.Delete'])]
        return ['pass']

    def program(self, n):
        out = ['l_init = 0'] if False else []
        if self.p(.45):
            self.use('array')
            out += ['%s = [%s]' % (self.arrname, ', '.join(self.c(['1.', '2.5', 'particle.a', '0.1', '3']) for _ in range(3)))]
            self.has_arr = True
        return out + self.block(2, n, top=True)


def source(name, lines):
    src = 'def %s(particle, fieldset, time):\n' % name + ''.join('    ' + l + '\n' for l in lines)
    return ast.unparse(ast.parse(src)) + '\n'


def run_model(funcs, part, fs, time):
    """runs the functions one after the other on a particle, as one step; returns None, 'delete' or raises Outside/Unsure"""
    part._d['state'] = 'evaluate'
    for f in funcs:
        r = f(part, fs, time)
        if r == 'delete':
            return 'delete'
        if r is not None:   # an early return ends the step
            break
    return 'delete' if part._d['state'] == 'delete' else None
