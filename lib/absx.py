"""Path-partitioned abstract interpreter over the exported syntax trees.

A function of the analysed program is evaluated on abstract values (absval.py): integers and floats as linear
terms with interval facts, objects and containers as structure.  Every condition the facts do not decide
splits the partition; the facts of a partition are interval sets, so infeasible combinations are dropped
without a solver.  Loops whose trip count is not known are followed for at most `K` undecided iterations and
the partition is then abandoned (counted in `cut`).  Calls into the repository are entered; calls into
the standard library and Abseil are modelled (table MODELS); anything else yields an unknown value, marked
as such (`unk`), so that a consumer can refuse to conclude anything from it.
"""
import math, os, re, sys, time
import ir
from absval import *
from absval import T

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class Cut(Exception):
    """Partition abandoned (loop bound, budget)."""


class Abort(Exception):
    """The analysed code terminates the process."""


class Unsupported(Exception):
    pass


class Throw(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


_q = {}


def strip_targs(q):
    r = _q.get(q)
    if r is None:
        out, d = [], 0
        i = 0
        n = len(q)
        while i < n:
            ch = q[i]
            if ch == '<' and not (q.startswith('operator<', i - 8) and d == 0):
                d += 1
            elif ch == '>' and d > 0:
                d -= 1
            elif d == 0:
                out.append(ch)
            i += 1
        r = _q[q] = ''.join(out)
    return r


_ts = {}


def split_t(t):
    """(head, [template args], suffix) of a type string without cv/ref."""
    r = _ts.get(t)
    if r is None:
        i = t.find('<')
        if i < 0:
            r = (t, [])
        else:
            d, args, st = 0, [], i + 1
            for j in range(i, len(t)):
                c = t[j]
                if c in '<([{':
                    d += 1
                elif c in '>)]}':
                    if c == '>' and t[j - 1] == '-':
                        continue
                    d -= 1
                    if d == 0:
                        args.append(t[st:j].strip())
                        r = (t[:i] + t[j + 1:], args)
                        break
                elif c == ',' and d == 1:
                    args.append(t[st:j].strip())
                    st = j + 1
            else:
                r = (t, [])
        _ts[t] = r
    return r


_bt = {}


def bare(t):
    """Type without references and top-level cv."""
    r = _bt.get(t)
    if r is None:
        x = t.strip()
        while x.endswith('&'):
            x = x[:-1].strip()
        if not x.endswith('*'):
            ch = True
            while ch:
                ch = False
                for p in ('const ', 'volatile ', 'struct ', 'class ', 'enum '):
                    if x.startswith(p):
                        x = x[len(p):]
                        ch = True
                for p in (' const', ' volatile'):
                    if x.endswith(p):
                        x = x[:-len(p)]
                        ch = True
        else:
            while x.endswith('const'):
                x = x[:-5].strip()
        r = _bt[t] = x
    return r


INT = {'bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0),
       'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1),
       'unsigned long long': (64, 0), 'char8_t': (8, 0), 'wchar_t': (32, 1), '__int128': (128, 1), 'unsigned __int128': (128, 0)}
FLT = {'float', 'double', 'long double'}
ITER = {'for_each'}


class Interp:
    def __init__(self, P, K=3, max_steps=400000, models=None, fn_models=None, depth=70):
        self.P, self.K, self.max_steps, self.maxdepth = P, K, max_steps, depth
        self.deadline = None
        self.user = models or {}
        self.enum_u = {}
        for e in P.enum.values():
            self.enum_u[e['k']] = e['u']
        self.unmodelled = {}
        self.cut = {}
        self.glob_cache = {}
        self.paths = 0
        self._methods = {}
        self._recq = {r['q']: r for r in P.rec.values()}
        self._fieldcache = {}
        self.callees = set()

    # ---- exploration ----------------------------------------------------------------------------
    def explore(self, run, max_paths=20000):
        """Yields (outcome, value, self) per feasible partition. outcome: 'ok','abort','throw','cut','unsupported'."""
        work = [()]
        n = 0
        while work:
            if self.deadline and time.time() > self.deadline:
                self.cut['time'] = self.cut.get('time', 0) + len(work)
                return
            prefix = work.pop()
            self.begin(prefix)
            try:
                r = ('ok', run(self))
            except Infeasible:
                r = None
            except Abort as e:
                r = ('abort', e)
            except Throw as e:
                r = ('throw', e)
            except Cut as e:
                self.cut[str(e)] = self.cut.get(str(e), 0) + 1
                r = ('cut', e)
            except Unsupported as e:
                r = ('unsupported', e)
            except (Brk, Cont) as e:
                r = ('unsupported', e)
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, RecursionError, ZeroDivisionError, OverflowError) as e:
                # a construct the models do not fit: this partition stays undecided
                if os.environ.get('ABSX_DEBUG'):
                    raise
                r = ('unsupported', '%s: %s' % (type(e).__name__, e))
            for i in range(len(prefix), len(self.dec)):
                if self.alt[i]:
                    work.append(tuple(self.dec[:i]) + (not self.dec[i] if self.alt[i] is True else self.alt[i],))
            if r is None:
                continue
            n += 1
            self.paths += 1
            yield r
            if n >= max_paths:
                self.cut['max_paths'] = self.cut.get('max_paths', 0) + len(work)
                return

    def begin(self, prefix):
        self.prefix = prefix
        self.dec, self.alt = [], []
        self.facts = Facts()
        self.events = []
        self.steps = 0
        self.nfresh = 0
        self.depth = 0
        self.nsym = 0
        self.trail = []
        self.statics = {}
        self.stack = []

    # ---- decisions ------------------------------------------------------------------------------
    def decide(self, b, hint=None):
        if b is True or b is False:
            return b
        if isinstance(b, B):
            t = self.facts.truth(b)
            if t is not None:
                return t
            self.nsym += 1
            i = len(self.dec)
            if i < len(self.prefix):
                v = self.prefix[i]
                self.dec.append(v)
                self.alt.append(None)
            else:
                v = True if hint is None else hint
                self.dec.append(v)
                self.alt.append(True)
            self.trail.append((b, v))
            if not self.facts.assume(b, v):
                raise Infeasible()
            return v
        if is_num(b):
            return b != 0
        if isinstance(b, T):
            if b.isf or not (self.facts.rng(b)[0] >= 0 and self.facts.rng(b)[1] <= 1):
                return self.decide(compare('!=', b, 0))
            return self.decide(compare('==', b, 1))
        if b is None:
            return False
        if isinstance(b, (Ptr, It, FnRef, Clo, str, SStr, Obj)):
            return True
        if isinstance(b, Unk) or b is UNINIT:
            return self.choose('cond')
        raise Unsupported('condition %r' % (b,))

    def free(self, tag):
        """Two-way split both sides of which are possible (a choice of the environment)."""
        return self.choose(('free', tag))

    def choose(self, tag):
        """Two-way split on something that is not known."""
        i = len(self.dec)
        self.nsym += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            self.dec.append(v)
            self.alt.append(None)
        else:
            v = True
            self.dec.append(True)
            self.alt.append(True)
        self.trail.append((tag, v))
        return v

    def pick(self, t, lo, hi):
        """Fix the integer term t to one value of lo..hi."""
        for k in range(lo, hi):
            if self.decide(compare('==', t, k)):
                return k
        if not self.decide(compare('==', t, hi)):
            raise Infeasible()
        return hi

    def concrete(self, v):
        if isinstance(v, T):
            l, h = self.facts.rng(v)
            if l == h:
                return l
        return v

    # ---- types ----------------------------------------------------------------------------------
    def intty(self, t):
        t = bare(t)
        r = INT.get(t)
        if r is None:
            u = self.enum_u.get(t)
            if u is None:
                e = self.P.enum.get(t)
                u = e['u'] if e else None
            if u:
                r = INT.get(u)
        return r

    def rngty(self, bs):
        b, s = bs
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

    def isflt(self, t):
        return bare(t) in FLT

    def rec(self, t):
        t = bare(t)
        r = self.P.rec.get(t) or self._recq.get(t)
        return r

    def field(self, cls, name):
        k = (cls, name)
        if k in self._fieldcache:
            return self._fieldcache[k]
        r = self.rec(cls)
        out = None
        if r:
            for f in r['fs']:
                if f['n'] == name:
                    out = f
                    break
            else:
                for b in r['b']:
                    out = self.field(bare(b), name)
                    if out:
                        break
        self._fieldcache[k] = out
        return out

    def name(self, base):
        self.nfresh += 1
        return '%s#%d' % (base, self.nfresh)

    def fresh(self, t, name, unk=False):
        """An unknown value of type t; structure is created lazily and deterministically from `name`."""
        t = bare(t)
        bs = self.intty(t)
        if bs:
            lo, hi = self.rngty(bs)
            return var(name, lo, hi, unk=unk)
        if t in FLT:
            return var(name, -INF, INF, True, unk=unk, nan=True, single=t == 'float')
        h, a = split_t(t)
        if t in ('std::basic_string<char>', 'std::string', 'std::basic_string_view<char>', 'absl::string_view') or h in ('std::basic_string', 'std::basic_string_view', 'std::__cxx11::basic_string'):
            return SStr([('sym', name)])
        if h == 'std::vector':
            return Vec(a[0], [], var(name + '.size', 0, (1 << 31) - 1, unk=unk), lambda i, et=a[0]: self.fresh(et, '%s[%s]' % (name, i), unk))
        if h == 'absl::Span':
            v = Vec(a[0], [], var(name + '.size', 0, (1 << 31) - 1, unk=unk), lambda i, et=a[0]: self.fresh(et, '%s[%s]' % (name, i), unk))
            return View(v, 0, v.n)
        if h == 'std::array':
            n = int(re.sub(r'[^0-9].*', '', a[1]) or 0)
            return Vec(a[0], [], n, lambda i, et=a[0]: self.fresh(et, '%s[%s]' % (name, i), unk), 'array')
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m:
            # outermost dimension is the first bracket
            mm = re.match(r'([^\[]*)\[(\d+)\](.*)$', t)
            et = (mm.group(1) + mm.group(3)).strip()
            return Vec(et, [], int(mm.group(2)), lambda i, et=et: self.fresh(et, '%s[%s]' % (name, i), unk), 'array')
        if h == 'std::optional':
            return Opt(var(name + '.has', 0, 1, unk=unk), Cell(self.fresh(a[0], name + '.val', unk)))
        if h == 'std::variant':
            return Variant(a, var(name + '.idx', 0, len(a) - 1, unk=unk), None, name)
        if h in ('std::unique_ptr', 'std::shared_ptr'):
            return Ptr(Cell(self.fresh(a[0], name + '*', unk)))
        if h == 'std::pair':
            o = Obj('std::pair')
            o.f['first'] = Cell(self.fresh(a[0], name + '.first', unk))
            o.f['second'] = Cell(self.fresh(a[1], name + '.second', unk))
            return o
        if h in ('absl::flat_hash_map', 'std::map', 'absl::btree_map', 'std::unordered_map', 'absl::node_hash_map'):
            return MapV(a[0], a[1], False, 'hash' not in h and 'unordered' not in h, sym=name)
        if h in ('absl::flat_hash_set', 'std::set', 'absl::btree_set', 'std::unordered_set'):
            return MapV(a[0], None, True, 'hash' not in h and 'unordered' not in h, sym=name)
        if t == 'absl::Status':
            return StatusV(True)
        if t.endswith('*'):
            return Ptr(Cell(self.fresh(t[:-1], name + '*', unk)))
        if self.rec(t):
            return Obj(self.rec(t)['k'], sym=name)
        return Unk(t, name)

    def default(self, t, zero=True):
        """Value-initialised (or default-initialised) value of type t."""
        t = bare(t)
        if self.intty(t):
            return 0 if zero else UNINIT
        if t in FLT:
            return 0.0 if zero else UNINIT
        if t.endswith('*'):
            return None if zero else UNINIT
        h, a = split_t(t)
        if h in ('std::basic_string', 'std::basic_string_view', 'std::__cxx11::basic_string'):
            return ''
        if h in ('std::vector', 'std::list', 'std::deque'):
            return Vec(a[0])
        if h == 'absl::Span':
            return View(Vec(a[0]), 0, 0)
        if h == 'std::array' or re.search(r'\[(\d+)\]$', t):
            if h == 'std::array':
                et, n = a[0], int(re.sub(r'[^0-9].*', '', a[1]) or 0)
            else:
                mm = re.match(r'([^\[]*)\[(\d+)\](.*)$', t)
                et, n = (mm.group(1) + mm.group(3)).strip(), int(mm.group(2))
            return Vec(et, [], n, lambda i: self.default(et, zero), 'array')
        if h == 'std::optional':
            return Opt(0)
        if h == 'std::variant':
            return Variant(a, 0, Cell(self.default(a[0])))
        if h in ('std::unique_ptr', 'std::shared_ptr'):
            return None
        if h == 'std::pair':
            o = Obj('std::pair')
            o.f['first'] = Cell(self.default(a[0]))
            o.f['second'] = Cell(self.default(a[1]))
            return o
        if h in ('absl::flat_hash_map', 'std::map', 'absl::btree_map', 'std::unordered_map', 'absl::node_hash_map'):
            return MapV(a[0], a[1], False, 'hash' not in h and 'unordered' not in h)
        if h in ('absl::flat_hash_set', 'std::set', 'absl::btree_set', 'std::unordered_set'):
            return MapV(a[0], None, True, 'hash' not in h and 'unordered' not in h)
        if h in ('std::monostate', 'std::nullopt_t'):
            return Obj(h)
        if t == 'absl::Status':
            return StatusV(True)
        if h == 'absl::StatusOr':
            return SOr(StatusV(False, 2, 'uninitialised StatusOr'), None)
        r = self.rec(t)
        if r:
            return self.construct_default(r, zero)
        return Unk(t, self.name('default'))

    def construct_default(self, r, zero=False):
        # user-provided or defaulted default constructor
        for f in self.methods(r['k'], None):
            if 'defctor' in f['a'] and f.get('b') is not None:
                o = Obj(r['k'])
                self.run_ctor(f, o, [])
                return o
        o = Obj(r['k'])
        self.init_fields(o, r, {}, zero)
        return o

    def init_fields(self, o, r, given, zero=False):
        for b in r['b']:
            br = self.rec(b)
            if br:
                d = None
                for f in self.methods(br['k'], None):
                    if 'defctor' in f['a'] and f.get('b') is not None:
                        d = f
                if d:
                    self.run_ctor(d, o, [])
                else:
                    self.init_fields(o, br, {}, zero)
        for f in r['fs']:
            n = f['n']
            if n in given:
                continue
            if f.get('init') is not None:
                fr = Frame(None, o)
                if 'ref ' in f['a']:
                    o.f[n] = self.lv(f['init'], fr)
                else:
                    o.f[n] = Cell(self.init_val(f['init'], fr, f['t']))
            else:
                o.f[n] = Cell(self.default(f['t'], zero or not ('scalar ' in f['a'])))

    def methods(self, cls, name):
        m = self._methods.get(cls)
        if m is None:
            m = self._methods[cls] = []
            if not hasattr(self.P, 'by_cls'):
                d = {}
                for f in self.P.fn.values():
                    if f.get('c'):
                        d.setdefault(f['c'], []).append(f)
                self.P.by_cls = d
            m.extend(self.P.by_cls.get(cls, ()))
        return m if name is None else [f for f in m if f['n'] == name]

    # ---- copying --------------------------------------------------------------------------------
    def copy(self, v):
        if isinstance(v, Obj):
            o = Obj(v.cls, v.sym)
            o.refs = v.refs
            for k, c in v.f.items():
                if v.refs and k in v.refs:
                    o.f[k] = c
                else:
                    o.f[k] = Cell(self.copy(c.v))
            return o
        if isinstance(v, Vec):
            w = Vec(v.et, [Cell(self.copy(c.v)) if c is not None else None for c in v.items], v.n, v.make, v.kind)
            if v.symidx:
                w.symidx = {k: Cell(self.copy(c.v)) for k, c in v.symidx.items()}
            return w
        if isinstance(v, Opt):
            return Opt(v.has, Cell(self.copy(v.cell.v)) if v.cell else None)
        if isinstance(v, Variant):
            return Variant(v.alts, v.idx, Cell(self.copy(v.cell.v)) if v.cell else None, v.sym)
        if isinstance(v, MapV):
            m = MapV(v.kt, v.vt, v.isset, v.ordered, v.sym)
            m.n = v.n
            m.entries = [(k, Cell(self.copy(c.v))) for k, c in v.entries]
            return m
        if isinstance(v, SOr):
            return SOr(v.st, Cell(self.copy(v.cell.v)) if v.cell else None)
        if isinstance(v, It):
            return It(v.c, v.i, v.rev)
        if isinstance(v, MIt):
            return MIt(v.m, v.e, v.i)
        return v

    # ---- element access -------------------------------------------------------------------------
    def size(self, c):
        if isinstance(c, (Vec, View)):
            return c.n
        if isinstance(c, str):
            return len(c.encode('utf-8', 'surrogateescape'))
        if isinstance(c, SStr):
            n = 0
            for p in c.p:
                if isinstance(p, str):
                    n = add(n, len(p))
                elif p[0] == 'chr':
                    n = add(n, 1)
                elif p[0] in ('file', 'rep'):
                    n = add(n, p[2])
                else:
                    n = add(n, op('strlen', (repr(p),), 0, (1 << 31) - 1))
            return n
        if isinstance(c, MapV):
            return self.map_size(c)
        if isinstance(c, Unk):
            return var(c.name + '.size', 0, (1 << 31) - 1, unk=True)
        raise Unsupported('size of %r' % (c,))

    def map_size(self, m):
        if m.sym is None:
            return len(m.entries)
        if m.n is None:
            m.n = var(self.name(m.sym + '.size'), 0, (1 << 31) - 1)
        return m.n

    def at(self, c, i):
        """Cell of element i."""
        i = self.concrete(i)
        if isinstance(c, View):
            if c.vec is None:
                raise Unsupported('element of an empty span')
            return self.at(c.vec, add(c.off, i))
        if isinstance(c, Ptr):
            if isinstance(c.cell, ElemRef):
                return self.at(c.cell.vec, add(c.cell.i, i))
            if i == 0:
                return c.cell
            raise Unsupported('pointer arithmetic')
        if isinstance(c, ElemRef):
            return self.at(c.vec, add(c.i, i))
        if isinstance(c, Vec):
            if isinstance(i, float):
                i = int(i)
            if isinstance(i, int):
                n = self.concrete(c.n)
                if i < 0 or (is_num(n) and i >= n):
                    self.event('oob', i, n)
                    raise Abort('element %s of %s' % (i, show(n)))
                while len(c.items) <= i:
                    c.items.append(None)
                if c.items[i] is None:
                    c.items[i] = Cell(c.make(i) if c.make else self.default(c.et))
                return c.items[i]
            if c.symidx is None:
                c.symidx = {}
            x = c.symidx.get(i)
            if x is None:
                l, h = self.facts.rng(i)
                # a small known index set: split
                if 0 <= l and h - l <= 16 and is_num(c.n) and h < c.n:
                    return self.at(c, self.pick(i, l, h))
                x = c.symidx[i] = Cell(self.fresh(c.et, self.name('elem'), unk=True))
            return x
        if isinstance(c, str):
            if isinstance(i, int):
                return Cell(ord(c[i]) if i < len(c) else 0)
        if isinstance(c, SStr):
            if isinstance(i, int) and i >= 0:
                k = i
                for p in c.p:
                    if isinstance(p, str):
                        if k < len(p):
                            x = ord(p[k])
                            return Cell(x - 256 if x > 127 else x)
                        k -= len(p)
                    elif p[0] == 'chr':
                        if k == 0:
                            return Cell(self.wrap(p[1], (8, True)))
                        k -= 1
                    else:
                        break
            return Cell(op('chr', (repr(c.p), i), -128, 127))
        if isinstance(c, Unk):
            return Cell(Unk(None, c.name + '[]'))
        raise Unsupported('index into %r' % (c,))

    def event(self, *a):
        self.events.append(a)

    # ---- arithmetic -----------------------------------------------------------------------------
    def wrap(self, v, bs, what=None):
        if isinstance(v, B):
            v = 1 if self.decide(v) else 0
        if isinstance(v, bool):
            v = int(v)
        b, s = bs
        lo, hi = self.rngty(bs)
        if isinstance(v, (int, float)):
            v = int(v)
            if lo <= v <= hi:
                return v
            v &= (1 << b) - 1
            if s and v >> (b - 1):
                v -= 1 << b
            return v
        if not isinstance(v, T):
            return v
        l, h = self.facts.rng(v)
        if lo <= l and h <= hi:
            return v
        # nested wraps collapse
        if v.op == 'wrap' and v.args[1] >= b:
            return self.wrap(v.args[0], bs)
        p = self.bitpat(v, b)
        if p is not None:
            return sub(self.unbits(p), scale(p[-1], 1 << b)) if s else self.unbits(p)
        if not s and b <= 16 and l >= 0 and h < 2 << b and v.op == 'lin':
            # one period too many at most: the two cases
            return v if self.decide(self.rel('<', v, 1 << b)) else sub(v, 1 << b)
        return op('wrap', (v, b, s), lo, hi)

    def num(self, v, t=None):
        if isinstance(v, B):
            return 1 if self.decide(v) else 0
        if v is True or v is False:
            return int(v)
        if v is UNINIT:
            return var(self.name('uninit'), *(self.rngty(self.intty(t)) if t and self.intty(t) else (-INF, INF)), isf=bool(t and self.isflt(t)), unk=True)
        if isinstance(v, Unk):
            if t and self.intty(t):
                return var(v.name, *self.rngty(self.intty(t)), unk=True)
            return var(v.name, isf=bool(t and self.isflt(t)), unk=True)
        return v

    def arith(self, o, a, b, t, n=None):
        """a o b in type t."""
        bs = self.intty(t)
        a, b = self.num(a, t), self.num(b, t)
        if isinstance(a, (Ptr, It)) or isinstance(b, (Ptr, It)):
            return self.ptr_arith(o, a, b)
        if not (is_num(a) or isinstance(a, T)) or not (is_num(b) or isinstance(b, T)):
            return self.fresh(t, self.name('arith'), unk=True)
        if bs:
            a, b = self.concrete(a), self.concrete(b)
            r = self.iarith(o, a, b, bs)
            return self.wrap(r, bs)
        return self.farith(o, a, b, t)

    def iarith(self, o, a, b, bs):
        lo, hi = self.rngty(bs)
        con = is_num(a) and is_num(b)
        if o == '+':
            return add(a, b)
        if o == '-':
            return sub(a, b)
        if o == '*':
            if is_num(a):
                return scale(b, a)
            if is_num(b):
                return scale(a, b)
            x, y = sorted((a, b), key=lambda q: q.id)
            l1, h1 = self.facts.rng(x)
            l2, h2 = self.facts.rng(y)
            c = [p * q if p and q else 0 for p in (l1, h1) for q in (l2, h2)]
            return op('mul', (x, y), min(c), max(c))
        if o in ('/', '%'):
            if is_num(b) and b == 0:
                self.event('div0')
                raise Abort('division by zero')
            if not is_num(b) and self.decide(compare('==', b, 0)):
                self.event('div0')
                raise Abort('division by zero')
            if con:
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                return q if o == '/' else a - q * b
            if o == '/' and b == 1:
                return a
            l, h = self.facts.rng(a) if not is_num(a) else (a, a)
            if is_num(b) and b > 0:
                if o == '/':
                    # exact division of a linear term
                    if isinstance(a, T):
                        d, c = parts(a)
                        if all(k % b == 0 for k in d.values()) and (l >= 0 or c % b == 0):
                            return add(mk({x: k // b for x, k in d.items()}, 0), c // b if l >= 0 else int(c / b))
                    return op('div', (a, b), int(l / b) if abs(l) < INF else l, int(h / b) if abs(h) < INF else h)
                if isinstance(a, T):
                    d, c = parts(a)
                    if l >= 0 and all(k % b == 0 for k in d.values()):
                        return c % b
                    if l >= 0 and h < b:
                        return a
                    if l >= 0:
                        rest = mk({x: k for x, k in d.items() if k % b}, c % b)
                        if rest is not a and (is_num(rest) or self.facts.rng(rest)[0] >= 0):
                            return self.iarith('%', rest, b, bs)
                return op('mod', (a, b), 0 if l >= 0 else -(b - 1), b - 1)
            return op('div' if o == '/' else 'mod', (a, b), lo, hi)
        if o == '<<':
            if con:
                return a << b if 0 <= b < 256 else 0
            if is_num(b):
                return scale(a, 1 << b) if 0 <= b < 128 else op('shl', (a, b), lo, hi)
            if is_num(a) and a == 0:
                return 0
            l, h = self.facts.rng(b)
            if is_num(a) and 0 <= l and h <= 63:
                return op('shl', (a, b), (a << l) if a >= 0 else (a << h), (a << h) if a >= 0 else (a << l))
            return op('shl', (a, b), lo, hi)
        if o == '>>':
            if con:
                return a >> b if b < 512 else 0
            if is_num(b):
                if b == 0:
                    return a
                p = self.bitpat(a)
                if p is not None:
                    return self.unbits(p[b:])
                l, h = self.facts.rng(a)
                d, c = parts(a)
                k = 1 << b
                big = {x: y // k for x, y in d.items() if y % k == 0}
                rest = {x: y for x, y in d.items() if y % k}
                if big and l >= 0:
                    rl, rh = c, c
                    for x, y in rest.items():
                        u, v = self.facts.rng(x)
                        rl, rh = rl + (u * y if y > 0 else v * y), rh + (v * y if y > 0 else u * y)
                    if rl >= 0 and rh < k:
                        return mk(big, 0)
                if l >= 0 and h < k:
                    return 0
                if isinstance(a, T) and a.op == 'shr' and is_num(a.args[1]):
                    return self.iarith('>>', a.args[0], a.args[1] + b, bs)
                return op('shr', (a, b), l >> b if abs(l) < INF else l, h >> b if abs(h) < INF else h)
            return op('shrv', (a, b), lo, hi)
        if o in ('&', '|', '^'):
            if con:
                return a & b if o == '&' else a | b if o == '|' else a ^ b
            if is_num(a):
                a, b = b, a
            if is_num(b):
                p = None
                if o == '&' and b >= 0:
                    p = self.bitpat(a, int(b).bit_length())
                    if p is not None:
                        return self.unbits([x if b >> i & 1 else 0 for i, x in enumerate(p)])
                elif o == '&' or (o == '|' and b >= 0):
                    p = self.bitpat(a)
                    if p is not None and o == '|':
                        p = p + [0] * (int(b).bit_length() - len(p))
                    if p is not None:
                        return self.unbits([(x if b >> i & 1 else 0) if o == '&' else (1 if b >> i & 1 else x) for i, x in enumerate(p)])
            if o == '&' and is_num(b) and b >= 0:
                if b == 0:
                    return 0
                l, h = self.facts.rng(a)
                if l >= 0 and (b & (b + 1)) == 0:
                    if h <= b:
                        return a
                    # low bits of a linear term
                    m = b + 1
                    d, c = parts(a)
                    d2 = {x: k for x, k in d.items() if k % m}
                    if len(d2) < len(d) or c >= m or c < 0:
                        return self.iarith('&', mk(d2, c % m), b, bs)
                    if isinstance(a, T) and a.op == 'wrap' and not a.args[2] and (1 << a.args[1]) > b:
                        return self.iarith('&', a.args[0], b, bs)
                if isinstance(a, T) and a.op == 'and' and is_num(a.args[1]):
                    return self.iarith('&', a.args[0], a.args[1] & b, bs)
                return op('and', (a, b), 0, b)
            if o == '|':
                if is_num(b) and b == 0:
                    return a
                # disjoint bits: addition
                for x, y in ((a, b), (b, a)):
                    # low bits added to a wrapped multiple
                    if isinstance(x, T) and x.op == 'wrap' and x.args[1] == bs[0]:
                        ly, hy = (y, y) if is_num(y) else self.facts.rng(y)
                        if ly >= 0 and hy < INF and int(hy).bit_length() <= self.tz(x.args[0]):
                            return op('wrap', (add(x.args[0], y), x.args[1], x.args[2]), x.lo, x.hi)
                la, ha = self.facts.rng(a)
                lb, hb = (b, b) if is_num(b) else self.facts.rng(b)
                if la >= 0 and lb >= 0:
                    ma, mb = self.tz(a), self.tz(b)
                    if (ha < INF and ha.bit_length() <= mb) or (hb < INF and int(hb).bit_length() <= ma):
                        return add(a, b)
                    nb = max(int(ha).bit_length() if ha < INF else 64, int(hb).bit_length() if hb < INF else 64)
                    return op('or', tuple(sorted((a, b), key=lambda q: q.id if isinstance(q, T) else -1)), 0, (1 << nb) - 1)
            return op({'&': 'and', '|': 'or', '^': 'xor'}[o], (a, b) if is_num(b) else tuple(sorted((a, b), key=lambda q: q.id)), lo, hi)
        raise Unsupported('operator ' + o)

    def bitpat(self, v, w=None):
        """The bits (0, 1 or an atom in [0, 1]) of a combination of bits, modulo 2^w; without w, of a value >= 0."""
        d, c = parts(v)
        if not isinstance(c, int):
            return None
        if w is None:
            if c < 0:
                return None
            w = c.bit_length()
            for x, k in d.items():
                if not isinstance(k, int) or k < 0:
                    return None
                w = max(w, k.bit_length())
        if w > 128:
            return None
        m = (1 << w) - 1
        c &= m
        out = None
        for x, k in d.items():
            if not isinstance(k, int):
                return None
            k &= m
            if not k:
                continue
            if x.lo < 0 or x.hi > 1 or x.isf:
                l, h = self.facts.rng(x)
                if l < 0 or h > 1:
                    return None
            else:
                l, h = self.facts.rng(x)
            if l == h:
                if c & (k if l else 0):
                    return None
                c |= k if l else 0
                continue
            if out is None:
                out = [0] * w
            while k:
                j = (k & -k).bit_length() - 1
                k &= k - 1
                if out[j] != 0:
                    return None
                out[j] = x
        if out is None:
            return [c >> i & 1 for i in range(w)]
        for i in range(w):
            if c >> i & 1:
                if out[i] != 0:
                    return None
                out[i] = 1
        return out

    def unbits(self, p):
        d, c = {}, 0
        for i, x in enumerate(p):
            if isinstance(x, T):
                d[x] = d.get(x, 0) + (1 << i)
            elif x:
                c |= 1 << i
        return mk(d, c)

    def tz(self, v):
        """Number of low bits known to be zero."""
        if is_num(v):
            return 256 if v == 0 else (v & -v).bit_length() - 1
        d, c = parts(v)
        if v.op == 'shl' or (len(d) == 1 and c == 0 and list(d)[0] is v):
            return 0
        z = self.tz(c)
        for x, k in d.items():
            z = min(z, self.tz(int(k)))
        return z

    def farith(self, o, a, b, t):
        if is_num(a) and is_num(b):
            try:
                if o == '+':
                    r = float(a) + float(b)
                elif o == '-':
                    r = float(a) - float(b)
                elif o == '*':
                    r = float(a) * float(b)
                else:
                    r = float(a) / float(b) if b != 0 else (math.nan if a == 0 else math.copysign(INF, a))
            except OverflowError:
                r = INF
            return self.fcast(r, t)
        return self.fcast(self.farith1(o, a, b, t), t)

    def farith1(self, o, a, b, t):
        if o == '+':
            return add(a, b)
        if o == '-':
            return sub(a, b)
        if o == '*':
            if is_num(a):
                return scale(b, a)
            if is_num(b):
                return scale(a, b)
            x, y = sorted((a, b), key=lambda q: q.id)
            l1, h1 = self.facts.rng(x)
            l2, h2 = self.facts.rng(y)
            c = [p * q if p and q else 0 for p in (l1, h1) for q in (l2, h2)]
            return op('fmul', (x, y), min(c), max(c), True)
        if o == '/':
            if is_num(b):
                if b == 0:
                    return op('fdiv0', (a,), -INF, INF, True)
                if math.frexp(abs(b))[0] == 0.5:
                    return scale(a, 1.0 / b)
                return scale(a, 1.0 / b)
            return op('fdiv', (a, b), -INF, INF, True)
        raise Unsupported('float operator ' + o)

    def fcast(self, v, t):
        if bare(t) != 'float':
            return v
        if is_num(v):
            return f32(v)
        if isinstance(v, T) and not self.exact32(v):
            l, h = self.facts.rng(v)
            return op('f32', (v,), f32(l), f32(h), True)
        return v

    def exact32(self, v):
        """Is the value of the term a single-precision number already?"""
        if v.op == 'f32':
            return True
        if v.op == 'var' and v.isf:
            return len(v.args) > 1
        d, c = parts(v)
        if not v.isf and v.op != 'lin':
            l, h = self.facts.rng(v)
            return abs(l) <= 1 << 24 and abs(h) <= 1 << 24
        if v.op == 'lin' and c == 0 and len(d) == 1:
            (a, k), = d.items()
            return math.frexp(abs(k))[0] == 0.5 and self.exact32(a)
        if v.op == 'lin' and not any(x.isf for x in d) and all(isinstance(k, int) for k in d.values()) and isinstance(c, int):
            l, h = self.facts.rng(v)
            return abs(l) <= 1 << 24 and abs(h) <= 1 << 24
        return False

    def ptr_arith(self, o, a, b):
        a, b = self.decay(a), self.decay(b)
        if isinstance(a, BytePtr) and is_num(self.concrete(b)):
            k = self.concrete(b)
            return BytePtr(a.cell, a.pt, a.off + (k if o == '+' else -k))
        if o == '-' and isinstance(a, It) and isinstance(b, It):
            return sub(a.i, b.i) if not a.rev else sub(b.i, a.i)
        if isinstance(a, It) and (is_num(b) or isinstance(b, T)):
            return It(a.c, add(a.i, b if (o == '+') else neg(b)), a.rev)
        if isinstance(b, It) and o == '+':
            return It(b.c, add(b.i, a), b.rev)
        if isinstance(a, Ptr) and isinstance(a.cell, ElemRef) and (is_num(b) or isinstance(b, T)):
            return Ptr(ElemRef(self, a.cell.vec, add(a.cell.i, b if o == '+' else neg(b))))
        if isinstance(b, Ptr) and isinstance(b.cell, ElemRef) and o == '+':
            return Ptr(ElemRef(self, b.cell.vec, add(b.cell.i, a)))
        if o == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.cell, ElemRef) and isinstance(b.cell, ElemRef):
            return sub(a.cell.i, b.cell.i)
        raise Unsupported('pointer arithmetic')

    def rel(self, o, a, b):
        """Comparison; returns bool or B."""
        if isinstance(a, B):
            a = 1 if self.decide(a) else 0
        if isinstance(b, B):
            b = 1 if self.decide(b) else 0
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        if a is UNINIT or isinstance(a, Unk):
            a = self.num(a)
        if b is UNINIT or isinstance(b, Unk):
            b = self.num(b)
        if (is_num(a) or isinstance(a, T)) and (is_num(b) or isinstance(b, T)):
            if is_num(a) and is_num(b):
                return compare(o, a, b)
            nan = False
            for x in (a, b):
                if is_num(x):
                    nan = nan or x != x
                else:
                    d, _ = parts(x)
                    for y in d:
                        if y.nan and y.isf and self.decide(B('nan', y, 0)):
                            nan = True
            if nan:
                return o == '!='
            r = compare(o, a, b)
            if isinstance(r, B) and isinstance(r.base, T) and r.base.op == 'lin' and len(r.base.args[0]) > 1 and not r.base.isf \
                    and self.facts.truth(r) is None:
                # atoms known to have one value
                d = sub(a, b)
                pin = {x: self.facts.rng(x)[0] for x, k in parts(d)[0].items() if self.facts.rng(x)[0] == self.facts.rng(x)[1]}
                if pin:
                    ds, c = parts(d)
                    d = mk({x: k for x, k in ds.items() if x not in pin}, c + sum(ds[x] * v for x, v in pin.items()))
                    return compare(o, d, 0)
            return r
        e = self.same(a, b)
        if e is None:
            e = self.choose('eq')
        if o == '==':
            return e
        if o == '!=':
            return (not e) if isinstance(e, bool) else ~e
        if isinstance(a, It) and isinstance(b, It):
            return compare(o, a.i, b.i) if not a.rev else compare(o, b.i, a.i)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.cell, ElemRef) and isinstance(b.cell, ElemRef):
            return compare(o, a.cell.i, b.cell.i)
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o]
        return self.choose('cmp')

    def same(self, a, b):
        """Structural equality: True/False/B, or None when unknown."""
        if a is b:
            return True
        if (is_num(a) or isinstance(a, T)) and (is_num(b) or isinstance(b, T)):
            return self.rel('==', a, b)
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, (Ptr, Clo, FnRef, It)):
                return False
            if o is None:
                return True
            return None
        if isinstance(a, It) and isinstance(b, It):
            if a.c is not b.c and not (isinstance(a.c, View) and isinstance(b.c, View)):
                return None
            return compare('==', a.i, b.i)
        if isinstance(a, MIt) and isinstance(b, MIt):
            if a.e is None or b.e is None or a.i >= 0 or b.i >= 0:
                if a.e is None and b.e is None:
                    return True
                return a.e is b.e
            return a.e is b.e
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if isinstance(a.cell, ElemRef) and isinstance(b.cell, ElemRef):
                return compare('==', a.cell.i, b.cell.i) if a.cell.vec is b.cell.vec else None
            return a.cell is b.cell
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if repr(a) == repr(b):
                return True
            ka, kb = sorted((repr(a), repr(b)))
            return B('eq', var('streq(%s,%s)' % (ka, kb), 0, 1), 1)
        if isinstance(a, (Vec, View)) and isinstance(b, (Vec, View)):
            na, nb = self.size(a), self.size(b)
            c = self.rel('==', na, nb)
            if not self.decide(c):
                return False
            n = self.concrete(na)
            n = n if is_num(n) else self.concrete(nb)
            if not is_num(n):
                return None
            for i in range(n):
                e = self.same(self.at(a, i).v, self.at(b, i).v)
                if e is None:
                    return None
                if not self.decide(e):
                    return False
            return True
        if isinstance(a, Opt) and isinstance(b, Opt):
            x, y = self.decide(a.has), self.decide(b.has)
            if x != y:
                return False
            return True if not x else self.same(a.cell.v, b.cell.v)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            r = self.rec(a.cls)
            names = [f['n'] for f in r['fs']] if r else list(a.f)
            for n in names:
                e = self.same(self.member(a, n).v, self.member(b, n).v)
                if e is None:
                    return None
                if not self.decide(e):
                    return False
            return True
        if isinstance(a, StatusV) and isinstance(b, StatusV):
            return a.ok == b.ok and a.code == b.code
        if isinstance(a, Variant) and isinstance(b, Variant):
            x, y = self.alt_of(a), self.alt_of(b)
            return self.same(a.cell.v, b.cell.v) if x == y else False
        return None

    # ---- members --------------------------------------------------------------------------------
    def member(self, o, name):
        if isinstance(o, Unk):
            return Cell(Unk(None, o.name + '.' + name))
        if isinstance(o, Cell):
            o = o.v
        if isinstance(o, MIt):
            o = o.e
        if isinstance(o, Ptr):
            o = o.cell.v
        if not isinstance(o, Obj):
            raise Unsupported('member %s of %r' % (name, o))
        c = o.f.get(name)
        if c is None:
            f = self.field(o.cls, name)
            if o.sym is not None:
                t = f['t'] if f else None
                c = Cell(self.fresh(t, o.sym + '.' + name) if t else Unk(None, o.sym + '.' + name))
            else:
                c = Cell(UNINIT)
            o.f[name] = c
        return c

    # ---- expressions ----------------------------------------------------------------------------
    def ev(self, n, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('steps')
        r = getattr(self, 'x_' + OPN[n[0]])(n, fr)
        if r.__class__ is Cell or r.__class__ is ElemRef:
            return r.v
        return r

    def lv(self, n, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('steps')
        r = getattr(self, 'x_' + OPN[n[0]])(n, fr)
        if r.__class__ is Cell or r.__class__ is ElemRef:
            return r
        return Cell(r)

    def init_val(self, n, fr, t):
        """Value used to initialise an object of type t from expression n."""
        v = self.ev(n, fr)
        h = bare(t)
        if isinstance(v, Vec) and re.search(r'\*( ?const)?$', t or ''):
            return self.decay(v)
        return v

    def decay(self, v):
        return Ptr(ElemRef(self, v, 0)) if isinstance(v, Vec) else v

    def x_cst(self, n, fr):
        v = n[3]
        if isinstance(v, str):
            if v in ('nan', 'inf', '-inf'):
                return float(v)
            return int(v)
        if self.isflt(n[2]):
            return float(v)
        return int(v)

    x_int = x_cst
    x_flt = x_cst

    def x_str(self, n, fr):
        return n[3]

    def x_null(self, n, fr):
        return None

    def x_this(self, n, fr):
        return Ptr(Cell(fr.this))

    def x_fref(self, n, fr):
        return FnRef(n[3][0], n[3][1])

    def x_bref(self, n, fr):
        c = fr.find(n[3])
        o = c.v
        i = n[4]
        return self.bind_elem(o, i)

    def bind_elem(self, o, i):
        if isinstance(o, Obj):
            if o.cls == 'std::pair':
                return o.f['first' if i == 0 else 'second']
            r = self.rec(o.cls)
            if r:
                return self.member(o, r['fs'][i]['n'])
            return self.member(o, str(i))
        if isinstance(o, (Vec, View)):
            return self.at(o, i)
        if isinstance(o, MIt):
            return Cell(o) if i == 0 else Cell(UNINIT)
        if isinstance(o, Unk):
            return Cell(Unk(None, '%s.%d' % (o.name, i)))
        raise Unsupported('binding of %r' % (o,))

    def x_ref(self, n, fr):
        k = n[3]
        if n[5] == 'g':
            if len(n) > 6:
                return self.x_cstv(n[6], n[2])
            return self.glob(k, n)
        c = fr.find(k)
        if c is None:
            if len(n) > 6:
                return self.x_cstv(n[6], n[2])
            raise Unsupported('variable %s' % n[4])
        return c

    def x_cstv(self, v, t):
        if isinstance(v, str):
            return float(v) if v in ('nan', 'inf', '-inf') else int(v)
        return float(v) if self.isflt(t) else int(v)

    def glob(self, k, n):
        if k in ('std::nullopt', 'std::in_place'):
            return Obj('std::nullopt_t')
        if k == 'std::ios_base::beg' or k.startswith('std::'):
            return Unk(n[2], k)
        if k in self.statics:
            return self.statics[k]
        g = self.P.glob.get(k)
        if g is None or g.get('i') is None:
            c = Cell(self.default(g['t']) if g else Unk(n[2], k))
            self.statics[k] = c
            return c
        if k in self.glob_cache:
            c = self.glob_cache[k]
            self.statics[k] = c
            return c
        save = self.steps
        c = Cell(self.init_val(g['i'], Frame(None, None), g['t']))
        self.steps = save
        if 'const' in g['a']:
            self.glob_cache[k] = c
        self.statics[k] = c
        return c

    def x_mem(self, n, fr):
        if n[3] is None:
            raise Unsupported('member')
        b = self.ev(n[3], fr)
        if isinstance(b, Ptr):
            b = b.cell.v
        if b is None:
            self.event('null', n[1])
            raise Abort('null dereference at line %d' % n[1])
        if isinstance(b, MIt):
            b = b.e
        if isinstance(b, It):
            b = self.at(b.c, b.i).v
        if b is UNINIT:
            return Cell(Unk(n[2], self.name('uninit')))
        return self.member(b, n[4])

    def x_idx(self, n, fr):
        b = self.ev(n[3], fr)
        i = self.num(self.ev(n[4], fr))
        return self.at(b, i)

    def x_un(self, n, fr):
        o = n[3]
        if o == '!':
            v = self.ev(n[4], fr)
            if isinstance(v, B):
                return ~v
            if isinstance(v, T):
                return self.rel('==', v, 0)
            return not self.decide(v)
        if o == '*':
            v = self.ev(n[4], fr)
            return self.deref(v, n)
        if o == '&':
            return Ptr(self.lv(n[4], fr))
        if o in ('++', '--', 'p++', 'p--'):
            c = self.lv(n[4], fr)
            old = c.v
            if isinstance(old, It):
                d = 1 if '+' in o else -1
                c.v = It(old.c, add(old.i, d if not old.rev else -d), old.rev)
            else:
                c.v = self.arith('+' if '+' in o else '-', old, 1, n[2])
            return old if o[0] == 'p' else c
        v = self.num(self.ev(n[4], fr), n[2])
        if o == '-':
            if isinstance(v, float):
                return -v
            return self.arith('-', 0, v, n[2]) if not self.isflt(n[2]) else neg(v)
        if o == '+':
            return v
        if o == '~':
            bs = self.intty(n[2])
            return self.wrap(sub(-1, v), bs)
        raise Unsupported('unary ' + o)

    def deref(self, v, n=None):
        if isinstance(v, Ptr):
            return v.cell
        if isinstance(v, It):
            return self.at(v.c, v.i)
        if isinstance(v, MIt):
            return Cell(v.e)
        if v is None:
            self.event('null', n[1] if n else 0)
            raise Abort('null dereference at line %d' % (n[1] if n else 0))
        if isinstance(v, (View, Vec)):
            return self.at(v, 0)
        if isinstance(v, Unk):
            return Cell(Unk(None, v.name + '*'))
        if isinstance(v, FnRef) or isinstance(v, Clo):
            return v
        raise Unsupported('deref of %r' % (v,))

    def x_bin(self, n, fr):
        o = n[3]
        if o == '&&':
            a = self.ev(n[4], fr)
            if not self.decide(a):
                return False
            return self.truthy(self.ev(n[5], fr))
        if o == '||':
            a = self.ev(n[4], fr)
            if self.decide(a):
                return True
            return self.truthy(self.ev(n[5], fr))
        if o == ',':
            self.ev(n[4], fr)
            return self.x_any(n[5], fr)
        a = self.ev(n[4], fr)
        b = self.ev(n[5], fr)
        if o in ('<', '>', '<=', '>=', '==', '!='):
            return self.rel(o, a, b)
        if o == '<=>':
            raise Unsupported('<=>')
        return self.arith(o, a, b, n[2], n)

    def truthy(self, v):
        if isinstance(v, (bool, B)):
            return v
        return self.decide(v)

    def x_any(self, n, fr):
        self.steps += 1
        return getattr(self, 'x_' + OPN[n[0]])(n, fr)

    def x_asg(self, n, fr):
        o = n[3]
        if o == '=':
            v = self.ev(n[5], fr)
            c = self.lv(n[4], fr)
            c.v = v
            return c
        b = self.ev(n[5], fr)
        c = self.lv(n[4], fr)
        ct = n[6] if len(n) > 6 else n[2]
        if isinstance(c.v, It):
            c.v = self.ptr_arith(o[0], c.v, b)
            return c
        r = self.arith(o[:-1], self.convert(c.v, ct), b, ct, n)
        c.v = self.convert(r, n[2])
        return c

    def convert(self, v, t):
        bs = self.intty(t)
        if bs:
            if isinstance(v, float) or (isinstance(v, T) and v.isf):
                return self.f2i(v, bs)
            return self.wrap(self.num(v, t), bs)
        if self.isflt(t):
            v = self.num(v, t)
            return self.fcast(float(v) if is_num(v) else v, t)
        return v

    def f2i(self, v, bs):
        lo, hi = self.rngty(bs)
        if is_num(v):
            if v != v or abs(v) == INF or not (lo - 1 < v < hi + 1):
                self.event('fp-ub', v)
                return var(self.name('fpub'), lo, hi, unk=True)
            return int(v)
        l, h = self.facts.rng(v)
        d, c = parts(v)
        if not any(x.isf for x in d) and all(k == int(k) for k in d.values()) and c == int(c):
            return self.wrap(mk({x: int(k) for x, k in d.items()}, int(c)), bs)
        nan = any(x.nan and self.facts.nan.get(x) is not False for x in d if x.isf)
        if nan or l <= lo - 1 or h >= hi + 1:
            self.event('fp-ub', v, (l, h))
            l, h = max(l, lo), min(h, hi)
        tl = max(lo, int(l)) if abs(l) < INF else lo
        th = min(hi, int(h)) if abs(h) < INF else hi
        return op('trunc', (v,), tl, th)

    def x_cond(self, n, fr):
        if self.decide(self.ev(n[3], fr)):
            return self.x_any(n[4], fr)
        return self.x_any(n[5], fr)

    def x_init(self, n, fr):
        t = bare(n[2])
        els, names = n[3], n[4]
        r = self.rec(t)
        if r is None and els and len(names) >= len(els) and all(x == '<base>' for x in names):
            o = Obj(t)
            for i, e in enumerate(els):
                o.f['#base%d' % i] = Cell(self.ev(e, fr))
            return o
        if r is not None:
            o = Obj(r['k'])
            nb = sum(1 for x in names if x == '<base>')
            flds = {f['n']: f for f in r['fs']}
            for i, e in enumerate(els):
                if i >= len(names):
                    break
                if names[i] == '<base>':
                    v = self.ev(e, fr)
                    if isinstance(v, Obj):
                        o.f.update(v.f)
                        if v.sym:
                            o.sym = v.sym
                    elif isinstance(v, Clo):
                        # an overload set inherits from its lambdas
                        o.f['#base%d' % i] = Cell(v)
                else:
                    f = flds.get(names[i])
                    if f and 'ref ' in f['a']:
                        o.f[names[i]] = self.lv(e, fr)
                        o.refs = (o.refs or frozenset()) | {names[i]}
                    elif e is None:
                        o.f[names[i]] = Cell(self.default(f['t']) if f else UNINIT)
                    else:
                        fr2 = Frame(fr.fn, o, fr) if e[0] == 'dinit' else fr
                        o.f[names[i]] = Cell(self.init_val(e, fr2, f['t'] if f else ''))
            for f in r['fs']:
                if f['n'] not in o.f:
                    o.f[f['n']] = Cell(self.default(f['t']))
            return o
        h, a = split_t(t)
        m = re.match(r'([^\[]*)\[(\d+)\](.*)$', t)
        if m or h == 'std::array' or h == 'std::initializer_list':
            if h == 'std::array' and len(els) == 1 and els[0][0] == 'init':
                return self.x_init_arr(els[0], fr, a[0], int(re.sub(r'[^0-9].*', '', a[1])))
            if h == 'std::array' and len(els) == 1 and els[0][0] in ('str',):
                pass
            et = (m.group(1) + m.group(3)).strip() if m else a[0]
            n_ = int(m.group(2)) if m else (int(re.sub(r'[^0-9].*', '', a[1])) if h == 'std::array' else len(els))
            return self.x_init_arr(n, fr, et, n_)
        if len(els) == 1:
            return self.ev(els[0], fr)
        if not els:
            return self.default(t)
        if h == 'std::pair':
            o = Obj('std::pair')
            o.f['first'] = Cell(self.ev(els[0], fr))
            o.f['second'] = Cell(self.ev(els[1], fr))
            return o
        return Vec('', [Cell(self.ev(e, fr)) for e in els], kind='array')

    def x_init_arr(self, n, fr, et, cnt):
        return Vec(et, [Cell(self.ev(e, fr)) for e in n[3]], cnt, lambda i: self.default(et), 'array')

    def x_dinit(self, n, fr):
        return self.x_any(n[3], fr)

    def x_zero(self, n, fr):
        return self.default(n[2])

    def x_cast(self, n, fr):
        k = n[3]
        if k == 'ToVoid':
            self.ev(n[4], fr)
            return None
        if k in ('NoOp', 'ConstructorConversion', 'LValueToRValue', 'BaseToDerived', 'DerivedToBase', 'UncheckedDerivedToBase', 'Dynamic', 'UserDefinedConversion'):
            return self.x_any(n[4], fr)
        if k == 'IntegralCast':
            v = self.num(self.ev(n[4], fr), n[5])
            bs = self.intty(n[2])
            return self.wrap(v, bs) if bs and (is_num(v) or isinstance(v, T)) else v
        if k in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = self.ev(n[4], fr)
            if isinstance(v, (bool, B)):
                return v
            v = self.num(v, n[5])
            return self.rel('!=', v, 0)
        if k == 'PointerToBoolean':
            v = self.ev(n[4], fr)
            if isinstance(v, Unk):
                return B('eq', var(v.name + '!=null', 0, 1, unk=True), 1)
            return v is not None
        if k == 'IntegralToFloating':
            v = self.num(self.ev(n[4], fr), n[5])
            return self.fcast(float(v) if is_num(v) else v, n[2])
        if k == 'FloatingCast':
            v = self.num(self.ev(n[4], fr), n[5])
            return self.fcast(v, n[2])
        if k == 'FloatingToIntegral':
            v = self.num(self.ev(n[4], fr), n[5])
            bs = self.intty(n[2])
            return self.f2i(v, bs) if bs and (is_num(v) or isinstance(v, T)) else v
        if k == 'NullToPointer':
            return None
        if k == 'BitCast':
            return self.bitcast(self.x_any(n[4], fr), n[5] if len(n) > 5 else ir.typ(n[4]), n[2])
        if k in ('LValueBitCast', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'ReinterpretMemberPointer', 'NonAtomicToAtomic'):
            return self.x_any(n[4], fr)
        if k == 'IntegralToPointer' or k == 'PointerToIntegral':
            return Unk(n[2], self.name('ptrcast'))
        raise Unsupported('cast ' + k)

    def bitcast(self, v, t0, t1):
        """Pointer v of type t0 as a t1."""
        if isinstance(v, StrBuf):
            return v
        t0, t1 = t0.strip(), t1.strip()
        if not isinstance(v, Ptr) or isinstance(v.cell, ElemRef) or not t1.endswith('*') or not t0.endswith('*'):
            return v
        p0, p1 = bare(t0[:-1]), bare(t1[:-1])
        if isinstance(v, BytePtr):
            return Ptr(v.cell) if p1 == v.pt and v.off == 0 else v
        if p1 in ('char', 'signed char', 'unsigned char', 'std::byte', 'void') and p0 not in ('char', 'signed char', 'unsigned char', 'std::byte', 'void'):
            if self.intty(p0) or self.rec(p0):
                return BytePtr(v.cell, p0)
        return v

    def x_lambda(self, n, fr):
        env = Frame(fr.fn, fr.this, None)
        keys, caps = n[3], n[4]
        this = None
        for c in caps:
            if c[0] == 'this':
                this = fr.this
                continue
            if len(c) > 3 and c[3] is not None:
                env.env[c[1]] = self.lv(c[3], fr) if c[0] == '&' else Cell(self.ev(c[3], fr))
                continue
            if len(c) < 2:
                continue
            x = fr.find(c[1])
            if x is None:
                continue
            env.env[c[1]] = x if c[0] == '&' else Cell(self.copy(x.v))
        return Clo(keys, env, this)

    def x_new(self, n, fr):
        if n[3] is not None:
            return Ptr(Cell(self.ev(n[3], fr)))
        t = bare(n[2])[:-1]
        return Ptr(Cell(self.default(t, False)))

    def x_delete(self, n, fr):
        self.ev(n[3], fr)
        return None

    def x_throw(self, n, fr):
        raise Throw()

    def x_raw(self, n, fr):
        if n[3] == 'CXXTypeidExpr' or n[3] == 'UnaryExprOrTypeTraitExpr':
            return Unk(n[2], self.name('raw'))
        if n[3] in ('CXXDefaultArgExpr', 'ConstantExpr', 'ExprWithCleanups') and n[4]:
            return self.x_any(n[4][0], fr)
        if n[3] == 'CXXPseudoDestructorExpr':
            return None
        raise Unsupported('expression ' + str(n[3]))

    # ---- calls ----------------------------------------------------------------------------------
    def x_ctor(self, n, fr):
        q = n[3][1]
        args = n[4]
        fl = n[5]
        key = n[3][0]
        if len(args) == 1 and n[2].startswith('(lambda at'):
            return self.ev(args[0], fr)
        if fl & 3 and len(args) == 1:
            f = self.P.fn.get(key)
            if not (f and f.get('b') and 'defaulted' not in f['a'] and not f['f'].startswith('/')):
                v = self.ev(args[0], fr)
                if fl & 2:
                    return self.move_from(args[0], v, fr)
                return self.copy(v)
        t = bare(n[2])
        sq = strip_targs(q)
        u = self.user.get(sq)
        if u is not None:
            return u(self, n, fr, None, args)
        f = self.P.fn.get(key)
        if f is not None and not f['f'].startswith('/') and (f.get('b') is not None or 'defaulted' in f['a']):
            o = Obj(f['c'])
            vals = self.bind_args(f, args, fr)
            if fl & 8 or (fl & 16 and 'defaulted' in f['a'] and fl & 4):
                r = self.rec(f['c'])
                if r:
                    for x in r['fs']:
                        if 'scalar ' in x['a'] and 'ref ' not in x['a'] and 'array' not in x['a']:
                            o.f[x['n']] = Cell(0)
            self.run_ctor(f, o, vals)
            return o
        r = self.rec(t)
        if r is not None:
            if not args:
                o = Obj(r['k'])
                self.init_fields(o, r, {}, bool(fl & 8))
                return o
            # implicit aggregate / inherited constructor: unknown
            return self.opaque_obj(n, fr, args)
        m = CTORS.get(sq)
        if m is not None:
            return m(self, n, fr, t, args)
        for a in args:
            if a:
                self.ev(a, fr)
        self.unmodel('ctor ' + sq)
        return Unk(t, self.name('ctor'))

    def opaque_obj(self, n, fr, args):
        for a in args:
            if a:
                self.ev(a, fr)
        r = self.rec(n[2])
        self.unmodel('ctor ' + n[3][1])
        return Obj(r['k'], sym=self.name('obj'))

    def unmodel(self, q):
        self.unmodelled[q] = self.unmodelled.get(q, 0) + 1

    def move_from(self, node, v, fr):
        if isinstance(v, Ptr) or isinstance(v, (Vec, str, SStr, MapV, Opt)):
            m = node
            if m[0] == 'call' and m[3] and strip_targs(m[3][1]) in ('std::move', 'std::forward'):
                c = self.lv(m[5][0], fr)
                t = bare(ir.typ(m))
                if isinstance(v, Ptr):
                    if split_t(t)[0] in ('std::unique_ptr', 'std::shared_ptr'):
                        c.v = None
                    return v
                if isinstance(v, Vec) and v.kind == 'vector':
                    w = Vec(v.et, v.items, v.n, v.make, v.kind)
                    w.symidx = v.symidx
                    v.items, v.n, v.make, v.symidx = [], 0, None, None
                    return w
                if isinstance(v, (str, SStr)):
                    return v
                if isinstance(v, MapV):
                    w = self.copy(v)
                    v.entries, v.sym = [], None
                    return w
        return self.copy(v) if not isinstance(v, Ptr) else v

    def bind_args(self, f, args, fr):
        """Parameter cells."""
        out = []
        for i, p in enumerate(f['p']):
            a = args[i] if i < len(args) else None
            if a is None:
                out.append(Cell(Unk(p[2], self.name('arg'))))
                continue
            if p[2].rstrip().endswith('&'):
                out.append(self.lv(a, fr))
            else:
                out.append(Cell(self.ev(a, fr)))
        return out

    def run_ctor(self, f, o, cells):
        fr = Frame(f, o)
        for p, c in zip(f['p'], cells):
            fr.env[p[0]] = c
        r = self.rec(f['c'])
        done = set()
        inits = f.get('i') or []
        if any(i[0] == '<delegate>' for i in inits):
            for i in inits:
                if i[1] is not None:
                    v = self.ev(i[1], fr)
                    if isinstance(v, Obj):
                        o.f.update(v.f)
                        o.refs = v.refs
        else:
            flds = {x['n']: x for x in r['fs']} if r else {}
            bases = set()
            for i in inits:
                nm, e = i[0], i[1]
                if nm.startswith('<base>'):
                    bases.add(nm[6:])
                    if e is not None:
                        if e[0] == 'ctor':
                            bf = self.P.fn.get(e[3][0])
                            if bf is not None and bf.get('b') is not None:
                                self.run_ctor(bf, o, self.bind_args(bf, e[4], fr))
                                continue
                            br = self.rec(e[2])
                            if br is not None and not e[4]:
                                self.init_fields(o, br, {})
                                continue
                        v = self.ev(e, fr)
                        if isinstance(v, Obj):
                            o.f.update(v.f)
                    continue
                done.add(nm)
                fd = flds.get(nm)
                if fd and 'ref ' in fd['a']:
                    o.f[nm] = self.lv(e, fr)
                    o.refs = (o.refs or frozenset()) | {nm}
                elif e is not None:
                    o.f[nm] = Cell(self.init_val(e, fr, fd['t'] if fd else ''))
            if r:
                if not any(i[0].startswith('<base>') for i in inits):
                    for b in r['b']:
                        br = self.rec(b)
                        if br:
                            self.init_fields(o, br, {})
                for x in r['fs']:
                    if x['n'] not in done and x['n'] not in o.f:
                        if x.get('init') is not None:
                            o.f[x['n']] = Cell(self.init_val(x['init'], fr, x['t']))
                        else:
                            o.f[x['n']] = Cell(self.default(x['t'], 'scalar ' not in x['a']))
        o.cls = f['c']
        if f.get('b'):
            self.run_body(f, fr)

    def run_body(self, f, fr):
        self.depth += 1
        self.callees.add(f['k'])
        if self.depth > self.maxdepth:
            self.depth = 0
            raise Cut('depth')
        self.stack.append(f)
        try:
            self.st(f['b'], fr)
            r = None
        except Ret as e:
            r = e.v
        self.stack.pop()
        self.depth -= 1
        return r

    def call_fn(self, f, this, cells):
        fr = Frame(f, this)
        for p, c in zip(f['p'], cells):
            fr.env[p[0]] = c
        return self.run_body(f, fr)

    def x_call(self, n, fr):
        cal = n[3]
        if cal is None:
            fv = self.ev(n[4], fr) if n[4] else None
            return self.invoke(fv, [self.lv(a, fr) for a in n[5] if a is not None], n)
        key, q, flags = cal[0], cal[1], cal[2]
        sq = strip_targs(q)
        u = self.user.get(sq)
        if u is not None:
            r = u(self, n, fr, n[4], n[5])
            if r is not NotImplemented:
                return r
        if flags & 8:
            raise Abort('%s at line %d' % (sq.split('::')[-1], n[1]))
        f = self.P.fn.get(key)
        if flags & 1 and n[4] is not None and not (len(n) > 6 and n[6] == 'nonvirtual'):
            f = None
            o = self.ev(n[4], fr)
            if isinstance(o, Ptr):
                o = o.cell.v
            if o is None:
                self.event('null', n[1])
                raise Abort('call through a null pointer at line %d' % n[1])
            f2 = self.dispatch(key, o) if isinstance(o, Obj) else None
            if f2 is not None and f2.get('b') is not None:
                return self.call_fn(f2, o, self.bind_args(f2, n[5], fr))
            m = MODELS.get(sq)
            if m:
                return m(self, n, fr, n[4], n[5])
            return self.opaque_call(n, fr, sq)
        if f is not None and f.get('b') is not None and not f['f'].startswith('/') and sq not in MODELS:
            this = None
            if n[4] is not None and 'static ' not in f['a']:
                this = self.ev(n[4], fr)
                if isinstance(this, Ptr):
                    this = this.cell.v
                elif isinstance(this, MIt):
                    this = this.e
                if this is None:
                    self.event('null', n[1])
                    raise Abort('call through a null pointer at line %d' % n[1])
                if isinstance(this, Clo):
                    return self.invoke(this, [self.lv(a, fr) for a in n[5] if a is not None], n)
            elif n[4] is not None:
                pass
            return self.call_fn(f, this, self.bind_args(f, n[5], fr))
        m = MODELS.get(sq)
        if m is not None:
            return m(self, n, fr, n[4], n[5])
        if sq.startswith('lambda') or sq.endswith('::operator()'):
            if n[4] is not None:
                fv = self.ev(n[4], fr)
                if isinstance(fv, (Clo, FnRef)):
                    return self.invoke(fv, [self.lv(a, fr) for a in n[5] if a is not None], n)
        if sq.endswith('::operator=') and n[4] is not None and len(n[5]) == 1:
            return m_assign(self, n, fr, n[4], n[5])
        if sq.endswith('::operator==') and f is None:
            a = self.ev(n[4], fr) if n[4] is not None else self.ev(n[5][0], fr)
            b = self.ev(n[5][-1], fr)
            r = self.same(a, b)
            return self.choose('eq') if r is None else r
        return self.opaque_call(n, fr, sq)

    def dispatch(self, key, o):
        """The final overrider of virtual method `key` in o's class."""
        cls = o.cls
        nm = None
        f = self.P.fn.get(key)
        cands = self.P.overriders.get(key, set()) | {key}
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for g in self.methods(c, None):
                if g['k'] in cands:
                    return g
            r = self.rec(c)
            if r:
                todo.extend(bare(b) for b in r['b'])
        return None

    def invoke(self, fv, cells, n=None):
        if isinstance(fv, Ptr):
            fv = fv.cell.v
        if isinstance(fv, Clo):
            f = None
            for k in fv.keys:
                g = self.P.fn.get(k)
                if g is not None and len(g['p']) == len(cells) and (f is None or self.fits(g, cells)):
                    f = g
                    if len(fv.keys) == 1 or self.fits(g, cells):
                        break
            if f is None:
                raise Unsupported('lambda')
            fr = Frame(f, fv.this, fv.env)
            for p, c in zip(f['p'], cells):
                if not p[2].rstrip().endswith('&'):
                    c = Cell(self.copy(c.v))
                fr.env[p[0]] = c
            return self.run_body(f, fr)
        if isinstance(fv, FnRef):
            if callable(fv.key):                # supplied by a check
                return fv.key(self, cells)
            f = self.P.fn.get(fv.key)
            if f is not None and f.get('b') is not None:
                return self.call_fn(f, None, [c if p[2].rstrip().endswith('&') else Cell(self.copy(c.v)) for p, c in zip(f['p'], cells)])
        if isinstance(fv, Obj):
            for f in self.methods(fv.cls, 'operator()'):
                if len(f['p']) == len(cells) and self.fits(f, cells):
                    fr = Frame(f, fv)
                    for p, c in zip(f['p'], cells):
                        fr.env[p[0]] = c
                    return self.run_body(f, fr)
            # overload set of lambdas
            for k, c in fv.f.items():
                if isinstance(c.v, Clo):
                    for key in c.v.keys:
                        g = self.P.fn.get(key)
                        if g and len(g['p']) == len(cells) and self.fits(g, cells):
                            return self.invoke(c.v, cells, n)
        t = n[2] if n else ''
        self.unmodel('indirect call')
        return self.fresh(t, self.name('indirect'), unk=True) if t else Unk(t, self.name('indirect'))

    def fits(self, f, cells):
        for p, c in zip(f['p'], cells):
            t = bare(p[2])
            v = c.v
            if isinstance(v, Obj):
                r = self.rec(t)
                if r and r['k'] != v.cls and not self.derives(v.cls, r['k']):
                    return False
                if not r and t != v.cls:
                    return False
            elif isinstance(v, (int, float, T)) and self.rec(t):
                return False
        return True

    def derives(self, c, b):
        r = self.rec(c)
        return bool(r) and any(self.rec(x) and (self.rec(x)['k'] == b or self.derives(bare(x), b)) for x in r['b'])

    def opaque_call(self, n, fr, sq):
        """A call nothing is known about: unknown result, reference arguments lose their value."""
        self.unmodel(sq)
        if n[4] is not None:
            rv = None
            try:
                rv = self.ev(n[4], fr)
            except Unsupported:
                pass
            if isinstance(rv, Ptr):
                rv = rv.cell.v
            if isinstance(rv, (Vec, View, MapV, StrBuf, str, SStr)) and not sq.startswith('iamf_tools::'):
                raise Unsupported('method ' + sq)
        cells = []
        for a in n[5]:
            if a is not None:
                try:
                    cells.append((a, self.lv(a, fr)))
                except Unsupported:
                    pass
        self.event('call', sq, tuple(c.v for _, c in cells))
        for a, c in cells:
            if isinstance(c.v, Ptr) and not ir.typ(a).startswith('const '):
                if isinstance(c.v.cell, Cell) and (is_num(c.v.cell.v) or isinstance(c.v.cell.v, T)):
                    c.v.cell.v = var(self.name('out'), unk=True)
        t = n[2]
        if bare(t) == 'void':
            return None
        if bare(t) == 'absl::Status':
            return StatusV(True) if self.choose(sq) else StatusV(False, 2, sq)
        h, a = split_t(bare(t))
        if h == 'absl::StatusOr':
            if self.choose(sq):
                return SOr(StatusV(True), Cell(self.fresh(a[0], self.name(sq.split('::')[-1]), unk=True)))
            return SOr(StatusV(False, 2, sq), None)
        return self.fresh(t, self.name(sq.split('::')[-1]), unk=True)

    # ---- statements -----------------------------------------------------------------------------
    def st(self, n, fr):
        if n is None:
            return
        op_ = n[0]
        m = STM.get(op_)
        if m is None:
            self.x_any(n, fr)
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Cut('steps')
        m(self, n, fr)

    def s_block(self, n, fr):
        for x in n[2]:
            if x is not None:
                self.st(x, fr)

    def s_decl(self, n, fr):
        for v in n[2]:
            self.declare(v, fr)

    def declare(self, v, fr):
        if 's' in v[4] and 'x' not in v[4]:
            k = ('static', fr.fn['k'] if fr.fn else '', v[0])
            if k in self.statics:
                fr.env[v[0]] = self.statics[k]
                return
            save = self.steps
            c = Cell(self.ev(v[3], fr) if v[3] is not None else self.default(v[2]))
            self.steps = save
            self.statics[k] = c
            fr.env[v[0]] = c
            return
        if v[3] is None:
            fr.env[v[0]] = Cell(self.default(v[2], False))
            return
        if 'r' in v[4]:
            fr.env[v[0]] = self.lv(v[3], fr)
            return
        fr.env[v[0]] = Cell(self.init_val(v[3], fr, v[2]))

    def s_if(self, n, fr):
        if n[2] is not None:
            self.st(n[2], fr)
        if n[3] is not None:
            self.declare(n[3], fr)
        if self.decide(self.ev(n[4], fr)):
            self.st(n[5], fr)
        elif len(n) > 6:
            self.st(n[6], fr)

    def loop(self, cond, body, inc, fr, n, first=True):
        k = 0
        it = 0
        forever = cond is None or cond[0] in ('int', 'cst', 'bool')
        while True:
            s1 = self.nsym
            if cond is not None and not (it == 0 and not first):
                s0 = self.nsym
                ok = self.decide(self.ev(cond, fr))
                if not ok:
                    return
                if self.nsym > s0:
                    k += 1
                    if k > self.K:
                        raise Cut('loop %s:%d' % (fr.fn['f'] if fr.fn else '', n[1]))
            it += 1
            if it > 200000:
                raise Cut('long loop')
            try:
                self.st(body, fr)
            except Brk:
                return
            except Cont:
                pass
            if forever and self.nsym > s1:
                k += 1
                if k > self.K:
                    raise Cut('loop %s:%d' % (fr.fn['f'] if fr.fn else '', n[1]))
            if inc is not None:
                self.x_any(inc, fr)

    def s_while(self, n, fr):
        if n[2] is not None:
            raise Unsupported('while with declaration')
        self.loop(n[3], n[4], None, fr, n)

    def s_do(self, n, fr):
        self.loop(n[3], n[2], None, fr, n, first=False)

    def s_for(self, n, fr):
        if n[2] is not None:
            self.st(n[2], fr)
        self.loop(n[3], n[5], n[4], fr, n)

    def s_rfor(self, n, fr):
        if n[5] is not None:
            self.st(n[5], fr)
        c = self.ev(n[3], fr)
        v = n[2]
        isref = 'r' in v[4]
        k = 0
        i = 0
        while True:
            if isinstance(c, MapV):
                items = self.map_iter(c)
                if i >= len(items):
                    return
                cell = Cell(items[i])
            elif isinstance(c, (Vec, View, str, SStr, Unk)):
                s0 = self.nsym
                if not self.decide(self.rel('<', i, self.size(c))):
                    return
                if self.nsym > s0:
                    k += 1
                    if k > self.K:
                        raise Cut('loop %s:%d' % (fr.fn['f'] if fr.fn else '', n[1]))
                cell = self.at(c, i)
            elif isinstance(c, Obj) and c.cls == 'proto':
                raise Unsupported('proto')
            else:
                raise Unsupported('range-for over %r' % (c,))
            i += 1
            fr.env[v[0]] = cell if isref else Cell(self.convert(cell.v, v[2]) if self.intty(v[2]) and (is_num(cell.v) or isinstance(cell.v, T)) else self.copy(cell.v))
            try:
                self.st(n[4], fr)
            except Brk:
                return
            except Cont:
                continue

    hash_order = None           # 0 / 1: the one order (or its reverse) in which hash maps are walked

    def map_iter(self, m):
        if m.sym is not None:
            raise Unsupported('iteration over an unknown map')
        es = m.entries[::-1] if self.hash_order and not m.ordered else m.entries
        if m.ordered:
            try:
                es = sorted(es, key=lambda e: self.sortkey(e[0]))
            except TypeError:
                raise Unsupported('order of keys')
        return [k if m.isset else c.v for k, c in es]

    def sortkey(self, k):
        if isinstance(k, (int, str, float)):
            return k
        raise Unsupported('order of keys')

    def s_switch(self, n, fr):
        if n[2] is not None:
            self.st(n[2], fr)
        if n[3] is not None:
            self.declare(n[3], fr)
        v = self.concrete(self.num(self.ev(n[4], fr), n[6] if len(n) > 6 else None))
        body = n[5]
        flat = []
        for s in (body[2] if body and body[0] == '{' else [body]):
            labels = []
            while s is not None and s[0] in ('case', 'default'):
                if s[0] == 'case':
                    labels.append((ir.const_of(s[2]), ir.const_of(s[3]) if s[3] else None))
                    s = s[4]
                else:
                    labels.append('default')
                    s = s[2]
            flat.append((labels, s))
        start = None
        dflt = None
        for i, (labels, s) in enumerate(flat):
            for l in labels:
                if l == 'default':
                    dflt = i
                elif start is None:
                    lo, hi = l
                    lo = int(lo) if isinstance(lo, str) else lo
                    hit = self.rel('==', v, lo) if hi is None else None
                    if hi is not None:
                        hit = self.decide(self.rel('>=', v, lo)) and self.decide(self.rel('<=', v, hi))
                    if self.decide(hit):
                        start = i
                        break
            if start is not None:
                break
        if start is None:
            start = dflt
            if start is None:
                for i, (labels, s) in enumerate(flat):
                    if 'default' in labels:
                        start = i
        if start is None:
            return
        try:
            for labels, s in flat[start:]:
                if s is not None:
                    self.st(s, fr)
        except Brk:
            pass

    def s_ret(self, n, fr):
        if n[2] is None:
            raise Ret(None)
        rt = fr.fn['r'] if fr.fn else ''
        if rt.rstrip().endswith('&'):
            raise Ret(self.lv(n[2], fr))
        raise Ret(self.ev(n[2], fr))

    def s_break(self, n, fr):
        raise Brk()

    def s_continue(self, n, fr):
        raise Cont()

    def s_nop(self, n, fr):
        return

    def s_unsup(self, n, fr):
        raise Unsupported('statement ' + n[0])

    def s_label(self, n, fr):
        self.st(n[3], fr)

    def s_try(self, n, fr):
        try:
            self.st(n[2], fr)
        except Throw:
            if n[3]:
                self.st(n[3][0], fr)

    # ---- variants -------------------------------------------------------------------------------
    def alt_of(self, v):
        if not is_num(v.idx):
            i = self.pick(v.idx, 0, len(v.alts) - 1)
            v.idx = i
            if v.cell is None:
                v.cell = Cell(self.fresh(v.alts[i], '%s.alt%d' % (v.sym, i)))
        return v.idx


class ElemRef:
    """Lvalue of element i of a container, with i possibly symbolic (pointer into an array)."""
    __slots__ = ('I', 'vec', 'i')

    def __init__(self, I, vec, i):
        self.I, self.vec, self.i = I, vec, i

    @property
    def v(self):
        return self.I.at(self.vec, self.i).v

    @v.setter
    def v(self, x):
        self.I.at(self.vec, self.i).v = x


class Frame:
    __slots__ = ('fn', 'this', 'env', 'up')

    def __init__(self, fn, this, up=None):
        self.fn, self.this, self.env, self.up = fn, this, {}, up

    def find(self, k):
        f = self
        while f is not None:
            c = f.env.get(k)
            if c is not None:
                return c
            f = f.up
        return None


OPN = {x: x for x in ('int', 'flt', 'str', 'null', 'this', 'fref', 'bref', 'ref', 'mem', 'call', 'ctor', 'un', 'bin', 'asg', 'cond', 'idx', 'init', 'dinit', 'zero', 'cast', 'lambda', 'new', 'delete', 'throw', 'raw', 'cst')}
STM = {'{': Interp.s_block, 'decl': Interp.s_decl, 'if': Interp.s_if, 'while': Interp.s_while, 'do': Interp.s_do, 'for': Interp.s_for,
       'rfor': Interp.s_rfor, 'switch': Interp.s_switch, 'ret': Interp.s_ret, 'break': Interp.s_break, 'continue': Interp.s_continue,
       ';': Interp.s_nop, 'case': Interp.s_unsup, 'default': Interp.s_unsup, 'goto': Interp.s_unsup, 'label': Interp.s_label,
       'try': Interp.s_try, 'rawstmt': Interp.s_unsup}
MODELS = {}
CTORS = {}
from absmodels import m_assign  # noqa: E402  (fills MODELS and CTORS)
