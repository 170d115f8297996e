"""Abstract values of the interpreter in absx.py: linear terms over symbolic atoms, interval facts, objects.

Numbers are Python ints/floats when known, otherwise hash-consed terms `T`:
  var    a named unknown with a range,
  lin    a linear combination of atoms plus a constant,
  other  an uninterpreted operation applied to terms.
`Facts` maps a (normalised) term to the set of intervals it may lie in on the current partition.
"""
import math

import struct

INF = float('inf')
F32MAX = 3.4028234663852886e38


def f32(v):
    if v != v or abs(v) == INF:
        return v
    try:
        return struct.unpack('f', struct.pack('f', float(v)))[0]
    except OverflowError:
        return math.copysign(INF, v)


_intern = {}


class T:
    __slots__ = ('op', 'args', 'lo', 'hi', 'isf', 'unk', 'id', 'nan')

    def __repr__(self):
        return show(self)


def _mk(op, args, lo, hi, isf, unk, nan=False):
    key = (op, args) + ((lo, hi, isf) if op == 'var' else ())
    t = _intern.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.lo, t.hi, t.isf, t.unk, t.id, t.nan = op, args, lo, hi, isf, unk, len(_intern), nan
        _intern[key] = t
    return t


def var(name, lo=-INF, hi=INF, isf=False, unk=False, nan=False, single=False):
    return _mk('var', (name, 'f32') if single else (name,), lo, hi, isf, unk, nan)


def is_num(v):
    return isinstance(v, (int, float))


def parts(v):
    """(dict atom -> coefficient, constant)"""
    if isinstance(v, T):
        if v.op == 'lin':
            return dict(v.args[0]), v.args[1]
        return {v: 1}, 0
    return {}, v


def mk(d, c):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return c
    if len(d) == 1 and c == 0:
        (a, k), = d.items()
        if k == 1:
            return a
    items = tuple(sorted(d.items(), key=lambda x: x[0].id))
    lo = hi = c
    isf = isinstance(c, float)
    for a, k in items:
        l, h = (a.lo * k, a.hi * k) if k > 0 else (a.hi * k, a.lo * k)
        lo, hi = lo + l, hi + h
        isf = isf or a.isf or isinstance(k, float)
    return _mk('lin', (items, c), lo, hi, isf, any(a.unk for a in d), any(a.nan for a in d))


def add(a, b):
    if is_num(a) and is_num(b):
        return a + b
    d, c = parts(a)
    e, f = parts(b)
    for x, k in e.items():
        d[x] = d.get(x, 0) + k
    return mk(d, c + f)


def scale(a, k):
    if is_num(a):
        return a * k
    d, c = parts(a)
    return mk({x: y * k for x, y in d.items()}, c * k)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def op(name, args, lo, hi, isf=False):
    args = tuple(args)
    return _mk(name, args, lo, hi, isf, any(isinstance(a, T) and a.unk for a in args), isf and any(isinstance(a, T) and a.nan for a in args))


def show(v, depth=0):
    if not isinstance(v, T):
        if isinstance(v, float) and v == int(v) if isinstance(v, float) and math.isfinite(v) else False:
            return '%g' % v
        return str(v)
    if v.op == 'var':
        return v.args[0]
    if v.op == 'lin':
        s = []
        for a, k in v.args[0]:
            s.append(('' if k == 1 else '-' if k == -1 else '%s*' % show(k)) + show(a))
        if v.args[1]:
            s.append(show(v.args[1]))
        return '(' + ' + '.join(s) + ')'
    return '%s(%s)' % (v.op, ', '.join(show(a) if isinstance(a, (T, int, float)) else str(a) for a in v.args))


class B:
    """Undecided truth value: base <= k / base == k, possibly negated; or isnan(base)."""
    __slots__ = ('kind', 'base', 'k', 'neg')

    def __init__(self, kind, base, k, neg=False):
        self.kind, self.base, self.k, self.neg = kind, base, k, neg

    def __invert__(self):
        return B(self.kind, self.base, self.k, not self.neg)

    def key(self):
        return (self.kind, self.base, self.k)

    def __repr__(self):
        o = {'le': '>' if self.neg else '<=', 'eq': '!=' if self.neg else '==', 'nan': 'is not' if self.neg else 'is'}[self.kind]
        return '%s %s %s' % (show(self.base), o, 'nan' if self.kind == 'nan' else show(self.k))


def compare(o, a, b):
    """True/False or B for `a o b`; both numeric (NaN handled by the caller)."""
    if o == '>':
        return compare('<', b, a)
    if o == '>=':
        return compare('<=', b, a)
    if o == '!=':
        r = compare('==', a, b)
        return (not r) if isinstance(r, bool) else ~r
    if is_num(a) and is_num(b):
        return a < b if o == '<' else a <= b if o == '<=' else a == b
    # infinite constants
    for x, y, flip in ((a, b, False), (b, a, True)):
        if is_num(y) and isinstance(y, float) and math.isinf(y) and isinstance(x, T):
            if not x.isf:
                if o == '==':
                    return False
                return (y > 0) != flip
            if x.op == 'lin':
                x = mk({q: k for q, k in x.args[0]}, 0)
            if o == '==':
                return B('eq', x, y)
            if not flip:      # x o y
                return B('le', x, math.nextafter(y, -INF) if o == '<' else y)
            return B('le', x, y, True) if o == '<' else B('le', x, math.nextafter(y, -INF), True)
    d, c = parts(sub(a, b))
    if not d:
        return c < 0 if o == '<' else c <= 0 if o == '<=' else c == 0
    items = sorted(d.items(), key=lambda x: x[0].id)
    isf = any(x.isf for x, _ in items) or any(isinstance(k, float) and k != int(k) for _, k in items) or (isinstance(c, float) and not math.isfinite(c)) or (isinstance(c, float) and c != int(c))
    if not isf:
        items = [(x, int(k)) for x, k in items]
        c = int(c)
        g = 0
        for _, k in items:
            g = math.gcd(g, abs(k))
        s = 1 if items[0][1] > 0 else -1
        base = mk({x: k // (g * s) for x, k in items}, 0)
        if o == '==':
            if c % g:
                return False
            return B('eq', base, -c // g * s)
        if o == '<':
            c += 1
        # g*s*base + c <= 0
        if s > 0:
            return B('le', base, (-c) // g)
        return B('le', base, -((-c) // g) - 1, True)     # base >= ceil(c/g)
    allint = not any(x.isf for x, _ in items)
    k0 = items[0][1]
    base = mk({x: k / k0 if k != k0 else 1 for x, k in items}, 0)
    v = -c / k0
    if allint and len(items) == 1:
        # integer atom compared with a fraction
        if o == '==':
            return B('eq', base, int(v)) if v == int(v) else False
        if k0 > 0:
            kk = math.floor(v) if o == '<=' or v != math.floor(v) else int(v) - 1
            return B('le', base, kk)
        kk = math.ceil(v) if o == '<=' or v != math.ceil(v) else int(v) + 1
        return B('le', base, kk - 1, True)
    v = float(v)
    if o == '==':
        return B('eq', base, v)
    if k0 > 0:
        return B('le', base, v if o == '<=' else math.nextafter(v, -INF))
    return B('le', base, math.nextafter(v, -INF) if o == '<=' else v, True)


def isect(a, b):
    out = []
    for l, h in a:
        for m, i in b:
            x, y = max(l, m), min(h, i)
            if x <= y:
                out.append((x, y))
    return out


class Facts:
    def __init__(self):
        self.iv = {}
        self.nan = {}
        self.multi = []

    def rng(self, v):
        if not isinstance(v, T):
            return (v, v)
        s = self.sets(v)
        return (s[0][0], s[-1][1]) if s else (0, -1)

    def sets(self, t):
        r = self.iv.get(t)
        if t.op == 'lin':
            c = t.args[1]
            items = t.args[0]
            if c != 0 or (len(items) == 1 and items[0][1] != 1):
                # shift/scale of a normalised base
                if len(items) == 1:
                    a, k = items[0]
                    s = self.sets(a)
                    s = [tuple(sorted((l * k + c, h * k + c))) for l, h in s]
                    s.sort()
                    return isect(s, r) if r else s
                if not t.isf:
                    g = 0
                    for _, k in items:
                        g = math.gcd(g, abs(int(k)))
                    sg = 1 if items[0][1] > 0 else -1
                    base = mk({x: int(k) // (g * sg) for x, k in items}, 0)
                    s = self.sets(base)
                    s = sorted(tuple(sorted((l * g * sg + c, h * g * sg + c))) for l, h in s)
                    return isect(s, r) if r else s
                k0 = items[0][1]
                if k0 != 1 or c != 0:
                    base = mk({x: k / k0 if k != k0 else 1 for x, k in items}, 0)
                    s = self.sets(base)
                    s = sorted(tuple(sorted((l * k0 + c, h * k0 + c))) for l, h in s)
                    return isect(s, r) if r else s
            lo = hi = 0
            for a, k in items:
                l, h = self.rng(a)
                if k < 0:
                    l, h = h, l
                lo, hi = lo + l * k, hi + h * k
            s = [(lo, hi)]
            return isect(s, r) if r is not None else s
        lo, hi = t.lo, t.hi
        if t.op == 'shr' or t.op == 'div':
            a, k = t.args
            if is_num(k) and k > 0:
                l, h = self.rng(a)
                if l >= 0 and h < INF:
                    dv = (1 << k) if t.op == 'shr' else k
                    lo, hi = max(lo, l // dv), min(hi, h // dv)
        elif t.op == 'mul':
            l1, h1 = self.rng(t.args[0])
            l2, h2 = self.rng(t.args[1])
            if l1 >= 0 and l2 >= 0 and h1 < INF and h2 < INF:
                lo, hi = max(lo, l1 * l2), min(hi, h1 * h2)
        elif t.op == 'and' and is_num(t.args[1]):
            l, h = self.rng(t.args[0])
            if l >= 0:
                hi = min(hi, h)
        elif t.op in ('min', 'max'):
            l1, h1 = self.rng(t.args[0])
            l2, h2 = self.rng(t.args[1])
            f = min if t.op == 'min' else max
            lo, hi = max(lo, f(l1, l2)), min(hi, f(h1, h2))
        s = [(lo, hi)]
        return isect(s, r) if r is not None else s

    def truth(self, b):
        if b.kind == 'nan':
            v = self.nan.get(b.base)
            if v is None:
                return None if b.base.nan else (True if b.neg else False)
            return v != b.neg
        s = self.sets(b.base)
        if not s:
            return True
        if b.kind == 'le':
            v = True if s[-1][1] <= b.k else False if s[0][0] > b.k else None
        else:
            v = None
            if len(s) == 1 and s[0][0] == s[0][1] == b.k:
                v = True
            elif not any(l <= b.k <= h for l, h in s):
                v = False
        return None if v is None else v != b.neg

    def assume(self, b, val):
        """Refine; returns False when the partition becomes empty."""
        if b.neg:
            val = not val
        if b.kind == 'nan':
            self.nan[b.base] = val
            return True
        t = b.base
        s = self.sets(t)
        up = (lambda k: math.nextafter(k, INF)) if t.isf else (lambda k: k + 1)
        dn = (lambda k: math.nextafter(k, -INF)) if t.isf else (lambda k: k - 1)
        k = b.k
        if b.kind == 'le':
            w = [(-INF, k)] if val else [(up(k), INF)]
        else:
            w = [(k, k)] if val else [(-INF, dn(k)), (up(k), INF)]
        n = isect(s, w)
        if not n:
            return False
        self.iv[t] = n
        if t.op == 'lin':
            if t not in self.multi:
                self.multi.append(t)
        if t.op in ('shr', 'div') and is_num(t.args[1]) and isinstance(t.args[0], T):
            dv = (1 << t.args[1]) if t.op == 'shr' else t.args[1]
            a = t.args[0]
            if self.rng(a)[0] >= 0 and dv > 0:
                w = [(l * dv, h * dv + dv - 1) for l, h in n if True]
                if a.op != 'lin':
                    m = isect(self.sets(a), w)
                    if not m:
                        return False
                    self.iv[a] = m
                else:
                    if not self.assume_range(a, w[0][0], w[-1][1]):
                        return False
        if not self.propagate():
            return False
        if t.op != 'lin' and not t.isf and self.multi:
            s = self.sets(t)
            if s and s[0][0] == s[-1][1]:
                return self.pinned(t, s[0][0])
        return True

    def pinned(self, x, v):
        """x has one value: restate the linear facts it occurs in without it."""
        for m in [m for m in self.multi if len(m.args[0]) > 2 and not m.isf and any(a is x for a, _ in m.args[0])]:
            d = {a: k for a, k in m.args[0] if a is not x}
            k = dict(m.args[0])[x]
            s = self.sets(m)
            if not s:
                return False
            lo, hi = s[0][0] - k * v, s[-1][1] - k * v
            if not self.assume_range(mk(d, 0), lo, hi):
                return False
        return True

    def assume_range(self, v, lo, hi):
        for o, k in (('>=', lo), ('<=', hi)):
            if abs(k) == INF:
                continue
            c = compare(o, v, k)
            if c is False:
                return False
            if isinstance(c, B):
                t = self.truth(c)
                if t is False:
                    return False
                if t is None and not self.assume(c, True):
                    return False
        return True

    def propagate(self):
        for _ in range(3):
            ch = False
            for t in self.multi:
                s = self.sets(t)
                if not s:
                    return False
                lo, hi = s[0][0], s[-1][1]
                items = t.args[0]
                for a, k in items:
                    rl, rh = lo, hi
                    for b, j in items:
                        if b is not a:
                            l, h = self.rng(b)
                            if j < 0:
                                l, h = h, l
                            rl, rh = rl - h * j, rh - l * j
                    if rl != rl or rh != rh:
                        continue
                    if k < 0:
                        m = -k
                        if a.isf:
                            rl, rh = -rh / m, -rl / m
                        else:
                            rl, rh = (-rh if abs(rh) == INF else -(rh // m)), (-rl if abs(rl) == INF else (-rl) // m)
                    elif k != 1:
                        if a.isf:
                            rl, rh = rl / k, rh / k
                        else:
                            rl = rl if abs(rl) == INF else -((-rl) // k)
                            rh = rh if abs(rh) == INF else rh // k
                    cur = self.sets(a)
                    new = isect(cur, [(rl, rh)])
                    if not new:
                        return False
                    if new != cur and not (a.isf):
                        self.iv[a] = new
                        ch = True
            if not ch:
                break
        return True


# ---------------------------------------------------------------------------------------------------
class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v

    def __repr__(self):
        return 'Cell(%r)' % (self.v,)


class Uninit:
    def __repr__(self):
        return '<uninit>'


UNINIT = Uninit()


class Unk:
    """A value of class type nothing is known about."""
    __slots__ = ('t', 'name')

    def __init__(self, t, name):
        self.t, self.name = t, name

    def __repr__(self):
        return '<unk %s>' % self.name


class Obj:
    __slots__ = ('cls', 'f', 'sym', 'refs')

    def __init__(self, cls, sym=None):
        self.cls, self.f, self.sym, self.refs = cls, {}, sym, None

    def __repr__(self):
        return '%s{%s}' % (self.cls.split('::')[-1], ', '.join('%s=%r' % (k, c.v) for k, c in self.f.items()))


class Vec:
    """vector, array, C array: `n` elements (number or term); unmaterialised ones come from `make`."""
    __slots__ = ('et', 'items', 'n', 'make', 'symidx', 'kind')

    def __init__(self, et, items=None, n=None, make=None, kind='vector'):
        self.et = et
        self.items = items if items is not None else []
        self.n = len(self.items) if n is None else n
        self.make = make
        self.symidx = None
        self.kind = kind

    def __repr__(self):
        return 'Vec(n=%s, %r)' % (show(self.n), [c.v if c else None for c in self.items])


class View:
    __slots__ = ('vec', 'off', 'n')

    def __init__(self, vec, off, n):
        self.vec, self.off, self.n = vec, off, n

    def __repr__(self):
        return 'View(%r+%s, %s)' % (self.vec, show(self.off), show(self.n))


class It:
    __slots__ = ('c', 'i', 'rev')

    def __init__(self, c, i, rev=False):
        self.c, self.i, self.rev = c, i, rev


class Opt:
    __slots__ = ('has', 'cell')

    def __init__(self, has, cell=None):
        self.has, self.cell = has, cell

    def __repr__(self):
        return 'Opt(%s, %r)' % (show(self.has), self.cell.v if self.cell else None)


class Variant:
    __slots__ = ('alts', 'idx', 'cell', 'sym')

    def __init__(self, alts, idx, cell, sym=None):
        self.alts, self.idx, self.cell, self.sym = alts, idx, cell, sym

    def __repr__(self):
        return 'Variant(%s, %r)' % (show(self.idx), self.cell.v if self.cell else None)


class Ptr:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return 'Ptr(%r)' % (self.cell.v,)


class BytePtr(Ptr):
    """Pointer to byte `off` of an object of type pt."""
    __slots__ = ('pt', 'off')

    def __init__(self, cell, pt, off=0):
        self.cell, self.pt, self.off = cell, pt, off


class StrBuf(Ptr):
    """Pointer to the first character of the string in cell."""
    __slots__ = ()


class MapV:
    __slots__ = ('entries', 'kt', 'vt', 'sym', 'isset', 'ordered', 'n')

    def __init__(self, kt, vt, isset=False, ordered=False, sym=None):
        self.entries, self.kt, self.vt, self.isset, self.ordered, self.sym, self.n = [], kt, vt, isset, ordered, sym, None

    def __repr__(self):
        return 'Map(%r)' % ([(k, c.v) for k, c in self.entries],)


class MIt:
    __slots__ = ('m', 'e', 'i')

    def __init__(self, m, e, i=-1):
        self.m, self.e, self.i = m, e, i


class StatusV:
    __slots__ = ('ok', 'code', 'why')

    def __init__(self, ok, code=0, why=None):
        self.ok, self.code, self.why = ok, code, why

    def __repr__(self):
        return 'OK' if self.ok else 'Err(%s)' % (self.why,)


class SOr:
    __slots__ = ('st', 'cell')

    def __init__(self, st, cell):
        self.st, self.cell = st, cell

    def __repr__(self):
        return 'StatusOr(%r, %r)' % (self.st, self.cell.v if self.cell else None)


class Clo:
    __slots__ = ('keys', 'env', 'this')

    def __init__(self, keys, env, this):
        self.keys, self.env, self.this = keys, env, this


class FnRef:
    __slots__ = ('key', 'q')

    def __init__(self, key, q):
        self.key, self.q = key, q


class SStr:
    """String with symbolic pieces: each piece is a str or (tag, value)."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'SStr(%r)' % (self.p,)


def scat(*xs):
    out = []
    for x in xs:
        for y in (x.p if isinstance(x, SStr) else [x]):
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += y
            elif y != '':
                out.append(y)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)
