"""Abstract interpreter for the Python tools: evaluates the syntax tree over abstract values.

External facts (return codes, presence of files, contents, measurements) are opaque terms; every test on one
splits the analysis into worlds. `worlds(fn)` re-evaluates fn for every combination of decisions it asks for.
Nothing of the analysed program is executed: each construct is interpreted here, and a construct or library
function without a rule raises Unsupported.
"""
import ast, math
from fractions import Fraction


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class PyExc(Exception):
    """A Python exception of the analysed program."""

    def __init__(self, obj, node=None):
        self.obj, self.node = obj, node


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


# ---------------------------------------------------------------- worlds
class World:
    def __init__(self, script, pref=None, free=None):
        self.script, self.pos, self.made, self.facts, self.log = script, 0, [], {}, []
        self.pref, self.free = pref, free

    def choose(self, key, n):
        if key in self.facts:
            return self.facts[key]
        o = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        self.made.append((o, n, bool(self.free and self.free(key))))
        p = self.pref(key, n) if self.pref else 0      # the expected value of a fact comes first
        v = p if o == 0 else o - 1 if o <= p else o
        self.facts[key] = v
        return v

    def decide(self, key):
        return bool(self.choose(key, 2))


W = None


def worlds(fn, limit=20000, pref=None, free=None, maxdev=None):
    """Evaluate fn(world) in every world; yields (world, result). With maxdev, only worlds in which at most that many
    facts (other than free ones) differ from their expected value."""
    global W
    script, count = [], 0
    while True:
        W = World(script, pref, free)
        yield W, fn(W)
        count += 1
        if count > limit:
            raise Budget('more than %d worlds' % limit)
        made = W.made
        while made:
            o, n, fr = made[-1]
            dev = sum(1 for x, _, f in made[:-1] if x and not f)
            if o + 1 < n and (fr or maxdev is None or dev < maxdev):
                break
            made.pop()
        if not made:
            return
        script = [o for o, _, _ in made]
        script[-1] += 1


# ---------------------------------------------------------------- values
class Sym:
    """Opaque term."""
    __slots__ = ('op', 'args', 'kind', '_h', '_r')

    def __init__(self, op, args=(), kind=None):
        self.op, self.args, self.kind = op, tuple(args), kind
        self._h = hash((op, self.args))
        self._r = None

    def __eq__(self, o):
        return isinstance(o, Sym) and self._h == o._h and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self._r is None:
            self._r = self.op + ('(%s)' % ', '.join(map(repr, self.args)) if self.args else '')
        return self._r


class Lin:
    """Linear combination of opaque terms with rational coefficients."""
    __slots__ = ('t', 'c')

    def __init__(self, t=None, c=0):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.c = c

    def key(self):
        return (frozenset(self.t.items()), self.c)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return ' + '.join(['%s*%r' % (v, k) if v != 1 else repr(k) for k, v in sorted(self.t.items(), key=repr)] + ([str(self.c)] if self.c else [])) or '0'


def is_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) or isinstance(v, bool)


def lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, Sym):
        return Lin({v: Fraction(1)}, Fraction(0))
    if isinstance(v, (int, Fraction)):
        return Lin({}, Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant in a term')
        return Lin({}, Fraction(v))
    raise Unsupported('number expected: %r' % (type(v).__name__,))


def unlin(l):
    if not l.t:
        return l.c if l.c.denominator != 1 else int(l.c)
    if not l.c and len(l.t) == 1:
        (k, v), = l.t.items()
        if v == 1:
            return k
    return l


def symbolic(v):
    return isinstance(v, (Sym, Lin))


def add(a, b, sign=1):
    if not symbolic(a) and not symbolic(b):
        return a + b if sign > 0 else a - b
    a, b = lin(a), lin(b)
    t = dict(a.t)
    for k, v in b.t.items():
        t[k] = t.get(k, 0) + sign * v
    return unlin(Lin(t, a.c + sign * b.c))


def scale(a, f):
    a = lin(a)
    f = Fraction(f)
    return unlin(Lin({k: v * f for k, v in a.t.items()}, a.c * f))


def mul(a, b):
    if not symbolic(a) and not symbolic(b):
        return a * b
    if not symbolic(a):
        return scale(b, a)
    if not symbolic(b):
        return scale(a, b)
    if a == b:
        return sq(a)
    if a == scale(b, -1):
        return scale(sq(b), -1)
    return Sym('mul', sorted([a, b], key=repr))


def sq(a):
    if not symbolic(a):
        return a * a
    l = lin(a)
    k = min(l.t, key=repr)
    f = l.t[k]
    return scale(Sym('sq', [scale(a, 1 / f)]), f * f)


def div(a, b):
    if not symbolic(b):
        if b == 0:
            raise PyExc(Exc('ZeroDivisionError', ['division by zero']))
        if not symbolic(a):
            return a / b
        return scale(a, Fraction(1) / Fraction(b))
    if isinstance(a, Lin) or isinstance(a, Sym):
        l = lin(a)
        k = min(l.t, key=repr) if l.t else None
        if k is not None and l.t[k] != 1:
            f = l.t[k]
            return scale(Sym('div', [scale(a, 1 / f), b]), f)
    return Sym('div', [a, b])


def sgn(a, b):
    """-1, 0, 1 for a < b, a == b, a > b; splits the world when that is open."""
    if not symbolic(a) and not symbolic(b):
        return (a > b) - (a < b)
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if isinstance(x, Sym) and x.op in ('max', 'min') and x not in W.facts:
            r = [sgn(e, y) for e in x.args]
            return s * (max(r) if x.op == 'max' else min(r))
    d = lin(add(a, b, -1))
    if not d.t:
        return (d.c > 0) - (d.c < 0)
    k = min(d.t, key=repr)
    f = d.t[k]
    n = Lin({q: v / f for q, v in d.t.items()}, d.c / f)
    dom = DOMAIN.get(k.kind) if len(n.t) == 1 else None
    if dom:
        lo, hi = dom
        # n = k + c ; k in [lo, hi]
        allowed = [s for s, ok in ((-1, lo is None or lo + n.c < 0), (0, (lo is None or lo + n.c <= 0) and (hi is None or hi + n.c >= 0)),
                                   (1, hi is None or hi + n.c > 0)) if ok]
        # facts already known about the same term narrow the choice
    else:
        allowed = [-1, 0, 1]
    if len(n.t) == 1:
        for (tag, q, c), v in list(W.facts.items()):
            if tag == 'sgn1' and q == k:
                known = v   # sign of k + c
                allowed = [s for s in allowed if _compatible(known, c, s, n.c)]
        key = ('sgn1', k, n.c)
    else:
        key = ('sgn', n, None)
    if key in W.facts:
        r = W.facts[key]
    elif len(allowed) == 1:
        r = allowed[0]
    else:
        r = allowed[W.choose(('pick', key, tuple(allowed)), len(allowed))]
        W.facts[key] = r
    return r if f > 0 else -r


def _compatible(s1, c1, s2, c2):
    """Is there k with sign(k + c1) == s1 and sign(k + c2) == s2?"""
    lo, hi, lo_s, hi_s = None, None, False, False
    for s, c in ((s1, c1), (s2, c2)):
        v = -c
        if s >= 0 and (lo is None or v > lo or (v == lo and s > 0)):
            lo, lo_s = v, s > 0
        if s <= 0 and (hi is None or v < hi or (v == hi and s < 0)):
            hi, hi_s = v, s < 0
    if lo is None or hi is None:
        return True
    return lo < hi or (lo == hi and not lo_s and not hi_s)


DOMAIN = {}          # kind -> (lo, hi)


class SStr:
    """Text of literal and opaque pieces."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                q = p.parts
            else:
                q = [p]
            for x in q:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != '':
                    out.append(x)
        self.parts = out

    def __eq__(self, o):
        return isinstance(o, SStr) and self.parts == o.parts

    def __hash__(self):
        return hash(tuple(self.parts))

    def __repr__(self):
        return 'text[%s]' % ' '.join(repr(p) for p in self.parts)


def sstr(*parts):
    s = SStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    if len(s.parts) == 1 and isinstance(s.parts[0], Sym) and s.parts[0].kind == 'str':
        return s.parts[0]
    return s


def is_text(v):
    return isinstance(v, (str, SStr)) or isinstance(v, Sym) and v.kind == 'str'


def text_parts(v):
    return v.parts if isinstance(v, SStr) else [v]


class Obj:
    """Instance of a class of the analysed program, or a modelled object (attrs and methods given)."""

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs or {}

    def __repr__(self):
        return '<%s>' % (self.cls if isinstance(self.cls, str) else self.cls.name)


class Exc(Obj):
    def __init__(self, name, args):
        super().__init__(name, {'args': tuple(args)})


EXC_BASE = {'FileNotFoundError': 'OSError', 'PermissionError': 'OSError', 'OSError': 'Exception', 'IOError': 'OSError', 'ValueError': 'Exception',
            'RuntimeError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
            'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'TypeError': 'Exception', 'StopIteration': 'Exception',
            'UsageError': 'Exception', 'AssertionError': 'Exception', 'NotImplementedError': 'RuntimeError', 'Error': 'Exception',
            'CalledProcessError': 'Exception', 'EOFError': 'Exception', 'Exception': 'BaseException', 'SystemExit': 'BaseException', 'AttributeError': 'Exception', 'UnboundLocalError': 'Exception', 'NameError': 'Exception'}


def exc_is(name, base):
    while name:
        if name == base:
            return True
        name = EXC_BASE.get(name)
    return base == 'BaseException'


class Fn:
    def __init__(self, node, env, mod, name=None, bound=None):
        self.node, self.env, self.mod, self.name, self.bound = node, env, mod, name or getattr(node, 'name', '<lambda>'), bound


class Cls:
    def __init__(self, name, fields, body, mod, dataclass, base=None):
        self.name, self.fields, self.body, self.mod, self.dataclass, self.base = name, fields, body, mod, dataclass, base


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return 'builtin ' + self.name


class Ns:
    """A library module or object described by a table of rules."""

    def __init__(self, name, table):
        self.name, self.table = name, table


class Arr:
    """One-dimensional array with known length and abstract elements."""

    def __init__(self, e):
        self.e = list(e)

    def __repr__(self):
        return 'array%r' % (self.e,)


class ND:
    """Multi-dimensional array as one opaque term, with its shape."""

    def __init__(self, term, shape):
        self.term, self.shape = term, tuple(shape)

    def __repr__(self):
        return 'nd(%r)' % (self.term,)


class Env:
    def __init__(self, parent=None, names=None):
        self.v, self.parent, self.glob = names or {}, parent, set()

    def get(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.parent
        raise KeyError(n)


PARSED = {}


class Module:
    def __init__(self, interp, name, path, src, overrides=None):
        self.name, self.path = name, path
        self.tree = PARSED.get(src) or PARSED.setdefault(src, ast.parse(src, path))
        self.env = Env(None, {})
        self.interp = interp
        self.env.v['__name__'] = name
        interp.exec_module(self, overrides or {})


def flat(v):
    """Iterate an abstract iterable."""
    if isinstance(v, Arr):
        return list(v.e)
    if isinstance(v, (list, tuple, set, frozenset, range, str)):
        return list(v)
    if isinstance(v, dict):
        return list(v)
    if isinstance(v, Gen):
        r, v.items = v.items, []
        return r
    raise Unsupported('iteration over %s' % type(v).__name__)


class Gen:
    def __init__(self, items):
        self.items = list(items)


class Interp:
    MAXSTEP = 200000

    def __init__(self, libs, models=None):
        self.libs = libs                  # dotted module name -> Ns
        self.models = models or {}        # (module, function) -> python callable(interp, args, kwargs)
        self.steps = 0
        self.depth = 0
        self.visited = set()
        self.calls = 0
        self.mod = None

    # ---------------------------------------------------------- helpers
    def truth(self, v, node=None):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, (list, tuple, dict, set, str, range)):
            return len(v) > 0
        if isinstance(v, (Obj, Fn, Cls, Builtin, Ns)):
            if isinstance(v, Obj) and '__truth__' in v.attrs:
                return v.attrs['__truth__']()
            return True
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return any([self.truth(p) for p in v.parts])
        if isinstance(v, Sym):
            if v.kind == 'str':
                return W.decide(('nonempty', v, None))
            if v.kind == 'bool':
                return W.decide(('true', v, None))
            return sgn(v, 0) != 0
        if isinstance(v, Lin):
            return sgn(v, 0) != 0
        if isinstance(v, Arr):
            if len(v.e) == 1:
                return self.truth(v.e[0])
            raise PyExc(Exc('ValueError', ['truth value of an array is ambiguous']), node)
        raise Unsupported('truth of %s' % type(v).__name__)

    def equal(self, a, b):
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            raise Unsupported('array equality')
        if is_text(a) and is_text(b):
            if not symbolic(a) and not symbolic(b) and isinstance(a, str) and isinstance(b, str):
                return a == b
            if a == b:
                return True
            if isinstance(a, SStr) or isinstance(b, SStr):
                if a != b:
                    pa, pb = text_parts(a), text_parts(b)
                    la = sum(len(p) for p in pa if isinstance(p, str))
                    if isinstance(b, str) and la > len(b):
                        return False
                    lb = sum(len(p) for p in pb if isinstance(p, str))
                    if isinstance(a, str) and lb > len(a):
                        return False
            if (a == '' or b == ''):
                return not self.truth(b if a == '' else a)
            return W.decide(('eqtext', frozenset([a, b]), None))
        if (symbolic(a) or is_num(a)) and (symbolic(b) or is_num(b)) and not is_text(a) and not is_text(b):
            ba, bb = isinstance(a, Sym) and a.kind == 'bool', isinstance(b, Sym) and b.kind == 'bool'
            if ba or bb:
                return self.truth(a) == self.truth(b)
            return sgn(a, b) == 0
        if isinstance(a, (list, tuple)) and type(a) == type(b):
            return len(a) == len(b) and all([self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() and all([self.equal(a[k], b[k]) for k in a])
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and isinstance(a.cls, Cls) and a.cls.dataclass:
                return all([self.equal(a.attrs[k], b.attrs[k]) for k in a.attrs])
            return a is b
        if type(a) != type(b) and (a is None or b is None or is_text(a) != is_text(b)):
            return False
        return a == b

    def step(self, node):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise Unsupported('too many steps (non-terminating loop?)')
        if hasattr(node, 'lineno') and self.mod:
            self.visited.add((self.mod.path, node.lineno))

    # ---------------------------------------------------------- modules
    def exec_module(self, m, overrides):
        prev, self.mod = self.mod, m
        try:
            for st in m.tree.body:
                if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == '__name__':
                    continue
                self.stmt(st, m.env)
        finally:
            self.mod = prev
        m.env.v.update(overrides)

    def lookup_lib(self, dotted):
        if dotted in self.libs:
            return self.libs[dotted]
        raise Unsupported('module %s has no rules' % dotted)

    # ---------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.step(st)
        m = getattr(self, 's_' + type(st).__name__, None)
        if not m:
            raise Unsupported('statement %s at line %d' % (type(st).__name__, st.lineno))
        m(st, env)

    def s_Expr(self, st, env):
        self.ev(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            if a.asname:
                env.v[a.asname] = self.lookup_lib(a.name)
            else:
                env.v[a.name.split('.')[0]] = self.lookup_lib(a.name.split('.')[0])

    def s_ImportFrom(self, st, env):
        if st.module == '__future__' or st.module == 'typing' or st.module == 'collections.abc':
            for a in st.names:
                env.v[a.asname or a.name] = None
            return
        for a in st.names:
            d = st.module + '.' + a.name
            if d in self.libs:
                env.v[a.asname or a.name] = self.libs[d]
            else:
                env.v[a.asname or a.name] = self.attr(self.lookup_lib(st.module), a.name, st)

    def s_FunctionDef(self, st, env):
        if any(not (isinstance(d, ast.Attribute) or isinstance(d, ast.Name) or isinstance(d, ast.Call)) for d in st.decorator_list):
            raise Unsupported('decorator')
        f = Fn(st, env, self.mod)
        for d in st.decorator_list:
            n = ast.unparse(d)
            if 'lru_cache' in n or n.endswith('cache') or n == 'staticmethod':
                continue
            raise Unsupported('decorator ' + n)
        f.defaults = [self.ev(d, env) for d in st.args.defaults]
        f.kwdefaults = [None if d is None else (self.ev(d, env),) for d in st.args.kw_defaults]
        env.v[st.name] = f

    def s_ClassDef(self, st, env):
        dc = any('dataclass' in ast.unparse(d) for d in st.decorator_list)
        base = ast.unparse(st.bases[0]).split('.')[-1] if st.bases else None
        fields, body = [], {}
        cenv = Env(env, {})
        for b in st.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                has = b.value is not None
                fields.append((b.target.id, (self.ev(b.value, cenv),) if has else None))
                if has:
                    cenv.v[b.target.id] = fields[-1][1][0]
            elif isinstance(b, ast.Expr):
                continue
            else:
                self.stmt(b, cenv)
        c = Cls(st.name, fields, cenv.v, self.mod, dc or base == 'NamedTuple', base)
        if base in EXC_BASE:
            EXC_BASE.setdefault(st.name, base)
        env.v[st.name] = c

    def s_Return(self, st, env):
        raise _Ret(self.ev(st.value, env) if st.value is not None else None)

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        cur = self.ev(ast.copy_location(self.as_load(st.target), st), env)
        r = self.ev(st.value, env)
        if isinstance(cur, list) and isinstance(st.op, ast.Add):
            cur.extend(flat(r))
            self.assign(st.target, cur, env)
            return
        self.assign(st.target, self.binop(st.op, cur, r, st), env)

    def as_load(self, t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def s_Global(self, st, env):
        env.glob |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonl = getattr(env, 'nonl', set()) | set(st.names)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                del o[self.ev(t.slice, env)]
            else:
                raise Unsupported('del')

    def s_If(self, st, env):
        if self.truth(self.ev(st.test, env), st):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        if isinstance(it, Obj) and '__iter__' in it.attrs:
            it = it.attrs['__iter__']()
        # lists may grow while they are iterated; the tools do not do that
        for v in flat(it):
            self.step(st)
            self.assign(st.target, v, env)
            try:
                self.block(st.body, env)
            except _Brk:
                return
            except _Cnt:
                continue
        self.block(st.orelse, env)

    def s_While(self, st, env):
        while self.truth(self.ev(st.test, env), st):
            self.step(st)
            try:
                self.block(st.body, env)
            except _Brk:
                return
            except _Cnt:
                continue
        self.block(st.orelse, env)

    def s_Break(self, st, env):
        raise _Brk()

    def s_Continue(self, st, env):
        raise _Cnt()

    def s_Raise(self, st, env):
        if st.exc is None:
            if not getattr(self, 'current', None):
                raise Unsupported('bare raise')
            raise self.current[-1]
        e = self.ev(st.exc, env)
        if isinstance(e, (Cls, Builtin)):
            e = self.call(e, [], {}, st)
        if not isinstance(e, Obj):
            raise Unsupported('raise of %r' % (e,))
        raise PyExc(e, st)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env), st):
            raise PyExc(Exc('AssertionError', []), st)

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if self.matches(h, e, env):
                        if h.name:
                            env.v[h.name] = e.obj
                        self.current = getattr(self, 'current', []) + [e]
                        try:
                            self.block(h.body, env)
                        finally:
                            self.current = self.current[:-1]
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def matches(self, h, e, env):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        n = e.obj.cls if isinstance(e.obj.cls, str) else e.obj.cls.name
        return any(exc_is(n, ast.unparse(t).split('.')[-1]) for t in ts)

    def s_With(self, st, env):
        self.with_items(st.items, st.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]
        cm = self.ev(it.context_expr, env)
        if not isinstance(cm, Obj) or '__enter__' not in cm.attrs:
            raise Unsupported('context manager %r' % (cm,))
        v = cm.attrs['__enter__']()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except PyExc as e:
            x = cm.attrs.get('__exit__')
            if x and x(e):
                return
            raise
        except (_Ret, _Brk, _Cnt):
            x = cm.attrs.get('__exit__')
            if x:
                x(None)
            raise
        else:
            x = cm.attrs.get('__exit__')
            if x:
                x(None)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.glob:
                self.mod.env.v[t.id] = v
            elif t.id in getattr(env, 'nonl', ()):
                e = env.parent
                while e is not None and t.id not in e.v:
                    e = e.parent
                e.v[t.id] = v
            else:
                env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = flat(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyExc(Exc('ValueError', ['unpack']), t)
                for x, y in zip(t.elts[:i], vs):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, vs[i:len(vs) - k], env)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - k:]):
                    self.assign(x, y, env)
                return
            if len(vs) != len(t.elts):
                raise PyExc(Exc('ValueError', ['wrong number of values to unpack']), t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj):
                raise Unsupported('attribute assignment on %r' % (o,))
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            if isinstance(o, Arr):
                o = o.e
            if isinstance(o, dict):
                o[k] = v
            elif isinstance(o, list) and isinstance(k, int):
                o[k] = v
            else:
                raise Unsupported('item assignment')
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    # ---------------------------------------------------------- expressions
    def ev(self, e, env):
        self.step(e)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if not m:
            raise Unsupported('expression %s at line %d' % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            return env.get(e.id)
        except KeyError:
            pass
        if e.id in BUILTINS:
            return BUILTINS[e.id]
        if e.id in EXC_BASE:
            n = e.id
            return Builtin(n, lambda I, a, k, n=n: Exc(n, a))
        raise PyExc(Exc('NameError', [e.id]), e)

    def e_JoinedStr(self, e, env):
        return sstr(*[self.ev(v, env) for v in e.values])

    def e_FormattedValue(self, e, env):
        v = self.ev(e.value, env)
        spec = self.ev(e.format_spec, env) if e.format_spec is not None else ''
        return self.fmt(v, spec, e.conversion)

    def fmt(self, v, spec='', conv=-1):
        if conv == 114:
            if isinstance(v, (str, int, float)) and not spec:
                return repr(v)
            return Sym('repr', [freeze(v), spec], 'str')
        if spec == '' and is_text(v):
            return v
        if isinstance(v, (str, int, float, bool)) or v is None:
            return format(v, spec)
        if isinstance(v, Fraction):
            return format(float(v), spec)
        return Sym('fmt', [freeze(v), spec], 'str')

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += flat(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        x = env
        while getattr(x, 'comp', False):
            x = x.parent
        self.assign(e.target, v, x)
        return v

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env), e) else e.orelse, env)

    def e_Lambda(self, e, env):
        f = Fn(e, env, self.mod)
        f.defaults = [self.ev(d, env) for d in e.args.defaults]
        f.kwdefaults = []
        return f

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v, e)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v if not (isinstance(v, Sym) and v.kind == 'bool') else t
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v, e)
        if isinstance(v, Arr):
            if isinstance(e.op, ast.Invert):
                return Arr([not self.truth(x) for x in v.e])
            if isinstance(e.op, ast.USub):
                return Arr([scale(x, -1) if symbolic(x) else -x for x in v.e])
        if isinstance(e.op, ast.USub):
            return scale(v, -1) if symbolic(v) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e)

    def binop(self, op, a, b, node):
        if isinstance(a, ND) or isinstance(b, ND):
            if isinstance(a, ND) and isinstance(b, ND) and a.shape != b.shape:
                raise Unsupported('broadcast')
            return ND(self.binop(op, a.term if isinstance(a, ND) else a, b.term if isinstance(b, ND) else b, node), (a if isinstance(a, ND) else b).shape)
        if isinstance(a, Arr) or isinstance(b, Arr):
            n = len(a.e) if isinstance(a, Arr) else len(b.e)
            xs = a.e if isinstance(a, Arr) else [a] * n
            ys = b.e if isinstance(b, Arr) else [b] * n
            if len(xs) != len(ys):
                raise PyExc(Exc('ValueError', ['operands could not be broadcast']), node)
            return Arr([self.binop(op, x, y, node) for x, y in zip(xs, ys)])
        if isinstance(op, ast.Add):
            if is_text(a) and is_text(b):
                return sstr(a, b)
            if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.Mod) and is_text(a):
            return sstr(Sym('format', [freeze(a), freeze(b)], 'str'))
        if isinstance(op, ast.Mult) and (isinstance(a, (str, list, tuple)) and isinstance(b, int) or isinstance(b, (str, list, tuple)) and isinstance(a, int)):
            return a * b
        for x in (a, b):
            if not (is_num(x) or symbolic(x)) or is_text(x):
                if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(a, (set, dict)) and isinstance(b, (set, dict)):
                    return {ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b, ast.Sub: lambda: a - b}[type(op)]()
                if isinstance(op, ast.BitOr) and (x is None or isinstance(x, (Cls, Builtin))):
                    return None        # type annotation
                raise Unsupported('operator %s on %s' % (type(op).__name__, type(x).__name__))
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            if isinstance(a, int) and isinstance(b, int):
                return a & b if isinstance(op, ast.BitAnd) else a | b
            ta, tb = self.truth(a), self.truth(b)
            return ta and tb if isinstance(op, ast.BitAnd) else ta or tb
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return add(a, b, -1)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            if symbolic(a):
                if b == 2:
                    return sq(a)
                if b == 0.5:
                    return Sym('sqrt', [a])
                raise Unsupported('power')
            return a ** b
        if symbolic(a) or symbolic(b):
            raise Unsupported('operator %s on a term' % type(op).__name__)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if b == 0:
                raise PyExc(Exc('ZeroDivisionError', []), node)
            return a // b if isinstance(op, ast.FloorDiv) else a % b
        raise Unsupported('operator ' + type(op).__name__)

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            v = self.compare(op, l, r, e)
            if len(e.ops) == 1:
                return v
            if not self.truth(v, e):
                return False
            l = r
        return True

    def compare(self, op, a, b, node):
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            r = a is b if not (isinstance(a, (bool, int)) and isinstance(b, (bool, int))) else a == b and type(a) == type(b)
            if isinstance(a, Sym) and a.kind == 'bool' and isinstance(b, bool):
                r = self.truth(a) == b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, node)
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            n = len(a.e) if isinstance(a, Arr) else len(b.e)
            xs = a.e if isinstance(a, Arr) else [a] * n
            ys = b.e if isinstance(b, Arr) else [b] * n
            return Arr([self.compare(op, x, y, node) for x, y in zip(xs, ys)])
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return not self.equal(a, b)
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, tuple) and isinstance(b, tuple) and not any(map(symbolic, a + b)):
            s = (a > b) - (a < b)
        elif (symbolic(a) or is_num(a)) and (symbolic(b) or is_num(b)) and not is_text(a) and not is_text(b):
            s = sgn(a, b)
        else:
            raise Unsupported('ordering of %s and %s' % (type(a).__name__, type(b).__name__))
        return {ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}[type(op)]

    def contains(self, c, x, node):
        if is_text(c) and is_text(x):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if any(isinstance(p, str) and isinstance(x, str) and x in p for p in text_parts(c)):
                return True
            r = False
            for p in text_parts(c):
                if isinstance(p, Sym):
                    r = W.decide(('contains', p, x)) or r
            return r
        if isinstance(c, Arr):
            c = c.e
        if isinstance(c, (list, tuple, set)):
            return any([self.equal(y, x) for y in c])
        if isinstance(c, dict):
            return x in c
        raise Unsupported('membership in %s' % type(c).__name__)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev(e.slice, env)
        return self.item(o, k, e)

    def e_Slice(self, e, env):
        return slice(*[None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)])

    def item(self, o, k, e):
        if isinstance(o, Obj) and '__getitem__' in o.attrs:
            return o.attrs['__getitem__'](k)
        if isinstance(o, ND):
            return self.libs['numpy'].table['__getitem__'](o, k)
        if isinstance(o, Arr):
            if isinstance(k, slice):
                return Arr(o.e[self.cslice(k)])
            if isinstance(k, Arr):
                if len(k.e) == len(o.e) and all(isinstance(x, bool) for x in k.e):
                    return Arr([y for x, y in zip(k.e, o.e) if x])
                return Arr([o.e[i] for i in k.e])
            o = o.e
        if isinstance(o, dict):
            if isinstance(o, DefaultDict) and k not in o:
                o[k] = self.call(o.factory, [], {}, e)
            try:
                return o[k]
            except KeyError:
                raise PyExc(Exc('KeyError', [k]), e)
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                return o[self.cslice(k)]
            if not isinstance(k, int):
                raise Unsupported('index %r' % (k,))
            try:
                return o[k]
            except IndexError:
                raise PyExc(Exc('IndexError', []), e)
        if isinstance(o, (Cls, Builtin)) or o is None:
            return None        # type annotation such as list[str]
        raise Unsupported('subscript of %s' % type(o).__name__)

    def cslice(self, k):
        for x in (k.start, k.stop, k.step):
            if not (x is None or isinstance(x, int)):
                raise Unsupported('slice bound')
        return k

    def e_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr, e)

    def attr(self, o, name, node):
        if isinstance(o, Module):
            if name in o.env.v:
                return o.env.v[name]
            raise PyExc(Exc('AttributeError', [name]), node)
        if isinstance(o, Ns):
            if name in o.table:
                return o.table[name]
            d = o.name + '.' + name
            if d in self.libs:
                return self.libs[d]
            if name in EXC_BASE:
                return Builtin(name, lambda I, a, k: Exc(name, a))
            raise Unsupported('%s.%s has no rule' % (o.name, name))
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                return v
            if isinstance(o.cls, Cls) and name in o.cls.body:
                v = o.cls.body[name]
                if isinstance(v, Fn):
                    f = Fn(v.node, v.env, v.mod, v.name, o)
                    f.defaults, f.kwdefaults = v.defaults, v.kwdefaults
                    return f
                return v
            raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, Cls):
            if name in o.body:
                return o.body[name]
            raise Unsupported('class attribute ' + name)
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, ND):
            return self.libs['numpy'].table['__getattr__'](o, name)
        return Builtin(name, lambda I, a, k: I.method(o, name, a, k, node))

    def arr_attr(self, o, name):
        if name == 'size':
            return len(o.e)
        if name == 'shape':
            return (len(o.e),)
        if name == 'ndim':
            return 1
        np = self.libs['numpy'].table
        if name in ('max', 'min', 'mean', 'sum', 'any', 'all', 'argmax', 'nonzero'):
            return Builtin(name, lambda I, a, k: I.call(np[name], [o] + a, k, None))
        if name in ('tolist', 'flatten', 'ravel', 'copy', 'astype'):
            return Builtin(name, lambda I, a, k: list(o.e) if name == 'tolist' else Arr(o.e))
        raise Unsupported('array attribute ' + name)

    def method(self, o, name, a, k, node):
        if is_text(o):
            return self.text_method(o, name, a, k, node)
        if isinstance(o, list):
            if name == 'append':
                o.append(a[0])
                return None
            if name == 'extend':
                o.extend(flat(a[0]))
                return None
            if name == 'insert':
                o.insert(a[0], a[1])
                return None
            if name == 'pop':
                if not o:
                    raise PyExc(Exc('IndexError', []), node)
                return o.pop(*a)
            if name == 'clear':
                o.clear()
                return None
            if name == 'copy':
                return list(o)
            if name == 'reverse':
                o.reverse()
                return None
            if name == 'sort':
                o[:] = self.sort(o, k)
                return None
            if name in ('count', 'index') and not any(map(symbolic, o + a)):
                return getattr(o, name)(*a)
        if isinstance(o, dict):
            if name == 'get':
                return o.get(*a)
            if name == 'items':
                return [(x, y) for x, y in o.items()]
            if name == 'keys':
                return list(o)
            if name == 'values':
                return list(o.values())
            if name == 'setdefault':
                return o.setdefault(*a)
            if name == 'update':
                o.update(*a, **k)
                return None
            if name == 'pop':
                return o.pop(*a)
        if isinstance(o, set):
            if name in ('add', 'discard', 'update', 'union', 'intersection', 'difference'):
                return getattr(o, name)(*[flat(x) if name != 'add' and name != 'discard' else x for x in a])
        if isinstance(o, (int, float)) and name == 'is_integer':
            return float(o).is_integer()
        if isinstance(o, Builtin) and o.name == 'chain' and name == 'from_iterable':
            return [y for x in flat(a[0]) for y in flat(x)]
        raise Unsupported('method %s of %s' % (name, type(o).__name__))

    def sort(self, o, k):
        key = k.get('key')
        ks = [self.call(key, [x], {}, None) if key is not None else x for x in o]

        def conc(x):
            return isinstance(x, (int, float, str)) or isinstance(x, tuple) and conc(x[0])
        if not all(conc(x) for x in ks):
            raise Unsupported('sort by a term')
        try:
            r = [x for _, _, x in sorted([(kk if not isinstance(kk, tuple) else kk[:1], i, x) for i, (kk, x) in enumerate(zip(ks, o))], key=lambda t: t[:2])]
        except TypeError:
            raise Unsupported('sort')
        return r[::-1] if k.get('reverse') else r

    def text_method(self, o, name, a, k, node):
        if name == 'join':
            out = []
            for i, x in enumerate(flat(a[0])):
                if i:
                    out.append(o)
                if not is_text(x):
                    raise PyExc(Exc('TypeError', ['join of a non-string']), node)
                out.append(x)
            return sstr(*out)
        if isinstance(o, str) and all(isinstance(x, (str, int, tuple, type(None))) for x in a) and not k and name != 'format':
            return getattr(o, name)(*a)
        if name in ('strip', 'rstrip', 'lstrip'):
            if isinstance(o, Sym):
                return o if o.op == 'stripped' else Sym('stripped', [o], 'str')
            p = list(o.parts)
            if name != 'rstrip' and isinstance(p[0], str):
                p[0] = p[0].lstrip()
            if name != 'lstrip' and isinstance(p[-1], str):
                p[-1] = p[-1].rstrip()
            return sstr(*p)
        if name in ('endswith', 'startswith'):
            opts = a[0] if isinstance(a[0], tuple) else (a[0],)
            r = False
            for x in opts:
                p = text_parts(o)
                q = p[-1] if name == 'endswith' else p[0]
                if isinstance(q, str) and len(q) >= len(x):
                    r = r or (q.endswith(x) if name == 'endswith' else q.startswith(x))
                elif isinstance(q, Sym):
                    r = W.decide((name, q, x)) or r
                else:
                    raise Unsupported(name)
            return r
        if name in ('lower', 'upper', 'casefold') and isinstance(o, Sym):
            return Sym(name, [o], 'str')
        if name == 'format':
            return sstr(Sym('format', [freeze(o), freeze(a)], 'str'))
        if name in ('splitlines', 'split') and isinstance(o, (Sym, SStr)) and not a:
            raise Unsupported('split of opaque text')
        raise Unsupported('str.%s on opaque text' % name)

    # ---------------------------------------------------------- comprehensions
    def comp(self, gens, env, fn):
        def rec(i, env):
            if i == len(gens):
                fn(env)
                return
            g = gens[i]
            it = self.ev(g.iter, env)
            if isinstance(it, Obj) and '__iter__' in it.attrs:
                it = it.attrs['__iter__']()
            for v in flat(it):
                self.step(g.iter)
                ne = Env(env, {})
                ne.comp = True
                self.assign(g.target, v, ne)
                if all(self.truth(self.ev(c, ne), c) for c in g.ifs):
                    rec(i + 1, ne)
        rec(0, env)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda x: out.append(self.ev(e.elt, x)))
        return out

    def e_GeneratorExp(self, e, env):
        return LazyGen(self, e, env)

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        d = {}

        def put(x):
            d[self.ev(e.key, x)] = self.ev(e.value, x)
        self.comp(e.generators, env, put)
        return d

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    # ---------------------------------------------------------- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        a = self.elts(e.args, env)
        k = {}
        for x in e.keywords:
            if x.arg is None:
                k.update(self.ev(x.value, env))
            else:
                k[x.arg] = self.ev(x.value, env)
        return self.call(f, a, k, e)

    def call(self, f, a, k, node):
        self.calls += 1
        a = [x.force() if isinstance(x, LazyGen) and not (isinstance(f, Builtin) and f.name in ('all', 'any')) else x for x in a]
        if isinstance(f, Builtin):
            return f.f(self, a, k)
        if isinstance(f, Fn):
            return self.call_fn(f, a, k, node)
        if isinstance(f, Cls):
            return self.instantiate(f, a, k, node)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, c, a, k, node):
        if c.base in EXC_BASE or c.base == 'Exception':
            return Obj(c, {'args': tuple(a)})
        if '__init__' in c.body:
            o = Obj(c, {})
            f = c.body['__init__']
            g = Fn(f.node, f.env, f.mod, f.name, o)
            g.defaults, g.kwdefaults = f.defaults, f.kwdefaults
            self.call_fn(g, a, k, node)
            return o
        if not c.dataclass:
            if not a and not k:
                return Obj(c, {})
            raise Unsupported('constructor of ' + c.name)
        o = Obj(c, {})
        names = [n for n, _ in c.fields]
        for n, v in zip(names, a):
            o.attrs[n] = v
        if len(a) > len(names):
            raise PyExc(Exc('TypeError', ['too many arguments']), node)
        for n, v in k.items():
            if n not in names:
                raise PyExc(Exc('TypeError', ['unexpected ' + n]), node)
            o.attrs[n] = v
        for n, d in c.fields:
            if n not in o.attrs:
                if d is None:
                    raise PyExc(Exc('TypeError', ['missing ' + n]), node)
                v = d[0]
                if isinstance(v, Obj) and v.cls == 'dataclass.field':
                    v = self.call(v.attrs['factory'], [], {}, node)
                o.attrs[n] = v
        return o

    def call_fn(self, f, a, k, node):
        key = (f.mod.name, f.name)
        if key in self.models:
            return self.models[key](self, a, k)
        if self.depth > 60:
            raise Unsupported('recursion')
        ar = f.node.args
        env = Env(f.env, {})
        names = [x.arg for x in ar.posonlyargs + ar.args]
        if f.bound is not None:
            a = [f.bound] + list(a)
        if len(a) > len(names) and not ar.vararg:
            raise PyExc(Exc('TypeError', ['too many arguments to ' + f.name]), node)
        for n, v in zip(names, a):
            env.v[n] = v
        if ar.vararg:
            env.v[ar.vararg.arg] = tuple(a[len(names):])
        kwn = [x.arg for x in ar.kwonlyargs]
        extra = {}
        for n, v in k.items():
            if n in env.v and n in names:
                raise PyExc(Exc('TypeError', ['duplicate argument ' + n]), node)
            if n in names or n in kwn:
                env.v[n] = v
            elif ar.kwarg:
                extra[n] = v
            else:
                raise PyExc(Exc('TypeError', ['unexpected keyword ' + n]), node)
        if ar.kwarg:
            env.v[ar.kwarg.arg] = extra
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            env.v.setdefault(n, d)
        for n, d in zip(kwn, f.kwdefaults):
            if n not in env.v and d is not None:
                env.v[n] = d[0]
        for n in names + kwn:
            if n not in env.v:
                raise PyExc(Exc('TypeError', ['missing argument ' + n]), node)
        prev, self.mod = self.mod, f.mod
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if is_generator(f.node):
                return self.generator(f, env)
            try:
                self.block(f.node.body, env)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.mod = prev

    def generator(self, f, env):
        env.v['__yield__'] = out = []
        try:
            self.block(f.node.body, env)
        except _Ret:
            pass
        return Gen(out)

    def e_Yield(self, e, env):
        env.get('__yield__').append(self.ev(e.value, env) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, env):
        env.get('__yield__').extend(flat(self.ev(e.value, env)))
        return None


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = _GEN[node] = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
    return r


class LazyGen:
    """Generator expression: elements evaluated when consumed (all/any stop early)."""

    def __init__(self, I, e, env):
        self.I, self.e, self.env = I, e, env

    def force(self):
        out = []
        self.I.comp(self.e.generators, self.env, lambda x: out.append(self.I.ev(self.e.elt, x)))
        return Gen(out)

    def until(self, stop):
        class Stop(Exception):
            pass

        def f(x):
            if self.I.truth(self.I.ev(self.e.elt, x)) == stop:
                raise Stop()
        try:
            self.I.comp(self.e.generators, self.env, f)
        except Stop:
            return True
        return False


class DefaultDict(dict):
    factory = None


def freeze(v):
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, Arr):
        return ('arr',) + tuple(freeze(x) for x in v.e)
    if isinstance(v, dict):
        return tuple(sorted(((freeze(k), freeze(x)) for k, x in v.items()), key=repr))
    if isinstance(v, Exc):
        return ('exc', v.cls, freeze(v.attrs['args']))
    if isinstance(v, Obj):
        return ('obj', id(v))
    if isinstance(v, float):
        return Fraction(v) if v == v and abs(v) != float('inf') else v
    return v


def mx(vals, op):
    vals = [x for x in vals]
    out = set()
    for v in vals:
        if isinstance(v, Sym) and v.op == op:
            out |= set(v.args)
        else:
            out.add(v)
    num = [v for v in out if not symbolic(v)]
    sy = [v for v in out if symbolic(v)]
    if num:
        n = max(num) if op == 'max' else min(num)
        if not sy:
            return n
        if op == 'max' and all(nonneg(v) for v in sy) and n <= 0:
            num = []
        else:
            sy.append(n)
    if len(sy) == 1:
        return sy[0]
    return Sym(op, sorted(sy, key=repr), 'nonneg' if all(nonneg(v) for v in sy) else None)


def nonneg(v):
    if isinstance(v, Sym):
        d = DOMAIN.get(v.kind)
        return bool(d and d[0] is not None and d[0] >= 0)
    if isinstance(v, Lin):
        return v.c >= 0 and all(f > 0 and nonneg(k) for k, f in v.t.items())
    return v >= 0


DOMAIN['nonneg'] = (0, None)


def _mxb(op):
    def f(I, a, k):
        key = k.get('key')
        vals = flat(a[0]) if len(a) == 1 else a
        if not vals:
            if 'default' in k:
                return k['default']
            raise PyExc(Exc('ValueError', ['empty sequence']))
        if key is not None:
            best, bk = None, None
            for v in vals:
                kv = I.call(key, [v], {}, None)
                if bk is None or (sgn(kv, bk) > 0 if op == 'max' else sgn(kv, bk) < 0):
                    best, bk = v, kv
            return best
        if all(isinstance(v, str) for v in vals):
            return (max if op == 'max' else min)(vals)
        return mx(vals, op)
    return f


def _sum(I, a, k):
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for v in flat(a[0]):
        if isinstance(v, Sym) and v.kind == 'bool':
            v = I.truth(v)
        r = I.binop(ast.Add(), r, v, None)
    return r


def _len(I, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return len(v.e)
    if isinstance(v, (list, tuple, dict, set, str, range)):
        return len(v)
    if isinstance(v, ND):
        return v.shape[0]
    raise Unsupported('len of %s' % type(v).__name__)


def _all(I, a, k):
    if isinstance(a[0], LazyGen):
        return not a[0].until(False)
    return all(I.truth(x) for x in flat(a[0]))


def _any(I, a, k):
    if isinstance(a[0], LazyGen):
        return a[0].until(True)
    return any(I.truth(x) for x in flat(a[0]))


def _int(I, a, k):
    v = a[0]
    if isinstance(v, Sym) and v.kind == 'str':
        return Sym('int', [v], 'nonneg')
    if symbolic(v):
        if isinstance(v, Sym) and v.op == 'int':
            return v
        return Sym('trunc', [v])
    try:
        return int(v, *a[1:]) if isinstance(v, str) else int(v)
    except (ValueError, OverflowError) as e:
        raise PyExc(Exc(type(e).__name__, [str(e)]))


def _str(I, a, k):
    if not a:
        return ''
    v = a[0]
    if is_text(v):
        return v
    if isinstance(v, Exc):
        if len(v.attrs['args']) == 1:
            return _str(I, [v.attrs['args'][0]], {})
    if isinstance(v, (int, float, bool)) or v is None:
        return str(v)
    if isinstance(v, Sym) and v.op == 'int':
        return v.args[0]
    return Sym('fmt', [freeze(v), ''], 'str')


def _isinstance(I, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(x, Cls) and isinstance(v, Obj) and v.cls is x:
            return True
        if isinstance(x, Builtin):
            py = {'int': int, 'float': float, 'str': str, 'list': list, 'tuple': tuple, 'dict': dict, 'bool': bool}.get(x.name)
            if x.name == 'str' and is_text(v):
                return True
            if py and isinstance(v, py):
                return True
            if x.name in EXC_BASE and isinstance(v, Obj):
                n = v.cls if isinstance(v.cls, str) else v.cls.name
                if exc_is(n, x.name):
                    return True
            if symbolic(v) and x.name in ('int', 'float'):
                raise Unsupported('type test of a term')
    return False


def _zip(I, a, k):
    xs = [flat(x) for x in a]
    if k.get('strict') and len(set(map(len, xs))) > 1:
        raise PyExc(Exc('ValueError', ['zip() lengths differ']))
    return [t for t in zip(*xs)]


def _range(I, a, k):
    if not all(isinstance(x, int) for x in a):
        raise Unsupported('range over a term')
    return range(*a)


def _abs(I, a, k):
    v = a[0]
    if symbolic(v):
        return v if sgn(v, 0) >= 0 else scale(v, -1)
    return abs(v)


def _float(I, a, k):
    v = a[0] if a else 0.0
    if isinstance(v, Fraction):
        return v
    if symbolic(v) or isinstance(v, Sym):
        return v
    return float(v)


def _next(I, a, k):
    v = a[0]
    if isinstance(v, Gen):
        if v.items:
            return v.items.pop(0)
        if len(a) > 1:
            return a[1]
        raise PyExc(Exc('StopIteration', []))
    raise Unsupported('next')


def _round(I, a, k):
    if symbolic(a[0]):
        return Sym('round', [freeze(x) for x in a])
    return round(*a)


BUILTINS = {n: Builtin(n, f) for n, f in {
    'len': _len, 'range': _range, 'all': _all, 'any': _any, 'sum': _sum, 'max': _mxb('max'), 'min': _mxb('min'), 'int': _int, 'str': _str,
    'float': _float, 'abs': _abs, 'zip': _zip, 'round': _round, 'next': _next, 'isinstance': _isinstance,
    'enumerate': lambda I, a, k: [(i + (a[1] if len(a) > 1 else k.get('start', 0)), x) for i, x in enumerate(flat(a[0]))],
    'list': lambda I, a, k: flat(a[0]) if a else [], 'tuple': lambda I, a, k: tuple(flat(a[0])) if a else (), 'set': lambda I, a, k: set(flat(a[0])) if a else set(),
    'frozenset': lambda I, a, k: frozenset(flat(a[0])) if a else frozenset(),
    'dict': lambda I, a, k: dict(*[x if isinstance(x, dict) else [tuple(flat(y)) for y in flat(x)] for x in a], **k), 'bool': lambda I, a, k: I.truth(a[0]) if a else False,
    'sorted': lambda I, a, k: I.sort(flat(a[0]), k), 'reversed': lambda I, a, k: flat(a[0])[::-1], 'print': lambda I, a, k: W.log.append(('print', tuple(freeze(x) for x in a))),
    'iter': lambda I, a, k: Gen(flat(a[0])), 'repr': lambda I, a, k: I.fmt(a[0], '', 114), 'map': lambda I, a, k: [I.call(a[0], list(t), {}, None) for t in zip(*[flat(x) for x in a[1:]])],
    'filter': lambda I, a, k: [x for x in flat(a[1]) if (I.truth(x) if a[0] is None else I.truth(I.call(a[0], [x], {}, None)))],
    'object': lambda I, a, k: Obj('object', {}), 'format': lambda I, a, k: I.fmt(a[0], a[1] if len(a) > 1 else ''), 'type': lambda I, a, k: Sym('type', [freeze(a[0])]),
    'exit': lambda I, a, k: (_ for _ in ()).throw(PyExc(Exc('SystemExit', a))),
}.items()}
