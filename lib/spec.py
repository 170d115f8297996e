"""Comparison of what a function computes with what it should compute.

Both sides are terms over the same atoms on the same partition. They are equal when their normal forms are. When the normal
forms differ, a difference is only reported with a point of the partition at which the two terms have different values; when
no such point is found the obligation counts as undecided (two spellings of one function are never reported).
"""
import math, random
from absval import *
from absval import T, f32


class NoEval(Exception):
    pass


def cwrap(v, b, s):
    v = int(v) & ((1 << b) - 1)
    return v - (1 << b) if s and v >> (b - 1) else v


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


_M = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
      'round': lambda x: math.floor(x + 0.5) if x >= 0 else math.ceil(x - 0.5), 'pow': math.pow, 'exp': math.exp,
      'log': math.log, 'log10': math.log10, 'log2': math.log2, 'sin': math.sin, 'cos': math.cos, 'abs': abs, 'fabs': abs,
      'rint': lambda x: float(round(x)), 'nearbyint': lambda x: float(round(x))}


def teval(t, env, memo=None):
    """Value of term t under env: atom -> number."""
    if not isinstance(t, T):
        if isinstance(t, (int, float)):
            return t
        raise NoEval(repr(t))
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    e = lambda x: teval(x, env, memo)
    o = t.op
    try:
        if o == 'var' or t in env:
            if t not in env:
                raise NoEval(show(t))
            r = env[t]
        elif o == 'lin':
            r = t.args[1]
            for a, k in t.args[0]:
                r = r + e(a) * k
        elif o in ('mul', 'fmul'):
            r = e(t.args[0]) * e(t.args[1])
        elif o == 'fdiv':
            a, b = e(t.args[0]), e(t.args[1])
            r = a / b if b else math.nan
        elif o == 'div':
            r = cdiv(e(t.args[0]), e(t.args[1]))
        elif o == 'mod':
            a, b = e(t.args[0]), e(t.args[1])
            r = a - b * cdiv(a, b)
        elif o == 'shl':
            s = e(t.args[1])
            if not 0 <= s < 64:
                raise NoEval('shift')
            r = cwrap(e(t.args[0]) << s, 32, True) if t.lo >= -(1 << 31) and t.hi < (1 << 31) else e(t.args[0]) << s
        elif o in ('shr', 'shrv'):
            s = e(t.args[1])
            if not 0 <= s < 64:
                raise NoEval('shift')
            r = e(t.args[0]) >> s
        elif o == 'and':
            r = e(t.args[0]) & e(t.args[1])
        elif o == 'or':
            r = e(t.args[0]) | e(t.args[1])
        elif o == 'xor':
            r = e(t.args[0]) ^ e(t.args[1])
        elif o == 'wrap':
            r = cwrap(e(t.args[0]), t.args[1], t.args[2])
        elif o == 'trunc':
            v = e(t.args[0])
            if v != v or abs(v) == INF:
                raise NoEval('trunc of %r' % v)
            r = int(v)
        elif o == 'f32':
            r = f32(e(t.args[0]))
        elif o == 'min':
            r = min(e(t.args[0]), e(t.args[1]))
        elif o == 'max':
            r = max(e(t.args[0]), e(t.args[1]))
        elif o.startswith('f_') and o[2:] in _M:
            r = float(_M[o[2:]](*[e(x) for x in t.args]))
        else:
            raise NoEval(o)
    except (ZeroDivisionError, OverflowError, ValueError):
        raise NoEval('arithmetic')
    memo[t] = r
    return r


def atoms(t, out):
    if isinstance(t, T):
        if t.op == 'var':
            out.add(t)
        elif t.op == 'lin':
            for a, _ in t.args[0]:
                atoms(a, out)
        else:
            for a in t.args:
                atoms(a, out)
    return out


def subst(I, t, memo=None):
    """Rebuild t with every atom that has exactly one value replaced by it."""
    if not isinstance(t, T):
        return t
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    l, h = I.facts.rng(t)
    if l == h and not (t.isf and t.nan and I.facts.nan.get(t) is not False):
        r = l
    elif t.op == 'var':
        r = t
    elif t.op == 'lin':
        r = t.args[1]
        for a, k in t.args[0]:
            r = add(r, scale(subst(I, a, memo), k))
    else:
        xs = [subst(I, a, memo) for a in t.args]
        if all(x is a or x == a for x, a in zip(xs, t.args)):
            r = t
        else:
            i32 = (32, True)
            w = {'shl': '<<', 'shr': '>>', 'shrv': '>>', 'and': '&', 'or': '|', 'xor': '^', 'mul': '*', 'div': '/', 'mod': '%'}
            if t.op in w:
                bs = i32 if -(1 << 31) <= t.lo and t.hi < (1 << 31) else (64, t.lo < 0)
                if all(is_num(x) for x in xs) and t.op in ('div', 'mod') and xs[1] == 0:
                    r = t
                else:
                    r = I.wrap(I.iarith(w[t.op], xs[0], xs[1], bs), bs)
            elif t.op == 'wrap':
                r = I.wrap(xs[0], (xs[1], xs[2]))
            elif t.op == 'f32':
                r = I.fcast(xs[0], 'float')
            elif t.op == 'trunc' and is_num(xs[0]) and abs(xs[0]) < 1e30:
                r = int(xs[0])
            else:
                r = op(t.op, xs, t.lo, t.hi, t.isf)
    memo[t] = r
    return r


def cond_holds(b, v, env, memo=None):
    x = teval(b.base, env, memo)
    r = x != x if b.kind == 'nan' else x <= b.k if b.kind == 'le' else x == b.k
    return (r != b.neg) == v


def holds(I, env):
    """Does env satisfy every decision taken on the current partition?"""
    memo = {}
    for b, v in I.trail:
        if not isinstance(b, B):
            continue            # a split that does not depend on the atoms
        if b.kind == 'nan':
            x = teval(b.base, env, memo)
            r = x != x
        else:
            x = teval(b.base, env, memo)
            r = x <= b.k if b.kind == 'le' else x == b.k
        if (r != b.neg) != v:
            return False
    return True


def points(I, terms, n=400, seed=1):
    """Points of the current partition (dict atom -> number), boundary values first."""
    at = set()
    for t in terms:
        atoms(t, at)
    for b, v in I.trail:
        if isinstance(b, B):
            atoms(b.base, at)
    at = sorted(at, key=lambda a: a.id)
    rnd = random.Random(seed)
    cand = {}
    ks = set()
    for b, v in I.trail:
        if isinstance(b, B) and b.kind != 'nan' and abs(b.k) != INF:
            ks.add(b.k)
    for a in at:
        c = []
        if I.facts.nan.get(a) is True:
            cand[a] = [math.nan]
            continue
        for l, h in I.facts.sets(a):
            for x in (l, h):
                if a.isf:
                    c.append(x)
                    if abs(x) != INF:
                        c += [math.nextafter(x, INF), math.nextafter(x, -INF)]
                else:
                    c += [x, x + 1, x - 1]
            lo, hi = max(l, -1e9 if a.isf else -(1 << 70)), min(h, 1e9 if a.isf else 1 << 70)
            if lo <= hi:
                for _ in range(8):
                    c.append(rnd.uniform(lo, hi) if a.isf else rnd.randint(int(lo), int(hi)))
        if a.isf:
            c += [0.0, 1.0, -1.0, 0.5, -0.5, 0.3, 0.1, -0.7, 1.3, 3.0, -3.0, 100.7]
        else:
            c += [0, 1, 2, 3, 7, 127, 128, 129, 255, 256, 32767, 32768, 65535, -1, -2, -128, -32768, 0x12345678, 0x80, 0xa5]
        for k in ks:
            c += [k, -k] + ([k + 1, k - 1] if not a.isf else [])
        sets = I.facts.sets(a)
        if len(a.args) > 1 and a.isf:
            c = [f32(x) for x in c]
        elif not a.isf:
            c = [int(x) for x in c]
        c = [x for x in dict.fromkeys(c) if any(l <= x <= h for l, h in sets)]
        cand[a] = c or [sets[0][0] if sets else 0]
    seen = 0
    for i in range(n * 6):
        env = {}
        for a in at:
            c = cand[a]
            env[a] = c[i % len(c)] if len(at) == 1 else (c[0] if i == 0 else rnd.choice(c))
        if len(at) == 1 and i >= len(cand[at[0]]):
            return
        # repair linear decisions by moving one atom
        for _ in range(3):
            bad = False
            for b, v in I.trail:
                if not isinstance(b, B) or b.kind == 'nan':
                    continue
                try:
                    x = teval(b.base, env)
                except NoEval:
                    return
                r = ((x <= b.k if b.kind == 'le' else x == b.k) != b.neg) == v
                if r or b.base.op != 'lin':
                    continue
                bad = True
                want = b.k if ((b.kind == 'le') == (v != b.neg)) or b.kind == 'eq' else b.k + 1
                if b.kind == 'eq' and (v == b.neg):
                    want = b.k + 1
                a, k = rnd.choice(b.base.args[0])
                if a.op == 'var':
                    nv = env[a] + (want - x) / k if a.isf else env[a] + int((want - x) // k)
                    if len(a.args) > 1:
                        nv = f32(nv)
                    if any(l <= nv <= h for l, h in I.facts.sets(a)):
                        env[a] = nv
            if not bad:
                break
        try:
            if holds(I, env):
                yield env
                seen += 1
                if seen >= n:
                    return
        except NoEval:
            return


def unknown(*ts):
    return any(isinstance(t, T) and t.unk for t in ts)


def show_env(env):
    return ', '.join('%s=%s' % (show(a), v) for a, v in sorted(env.items(), key=lambda x: x[0].id)[:8])


def differs(I, a, b, tol=0.0, alt=()):
    """None: equal on this partition; (True, witness text): different; (False, why): undecided."""
    if a is b or (is_num(a) and is_num(b) and a == b):
        return None
    a2, b2 = subst(I, a), subst(I, b)
    if a2 is b2 or (is_num(a2) and is_num(b2) and a2 == b2):
        return None
    if not (is_num(a) or isinstance(a, T)):
        return (False, 'value %r' % (a,))
    if tol and close(a2, b2, tol):
        return None
    if unknown(a, b):
        return (False, 'unknown value %s' % show(a))
    for env in points(I, (a, b) + tuple(alt)):
        try:
            x, y = teval(a, env), teval(b, env)
        except NoEval:
            continue
        if x != y and not (x != x and y != y) and not (tol and abs(x - y) <= tol * max(1.0, abs(y))):
            try:
                if any(teval(z, env) == x for z in alt):
                    continue
            except NoEval:
                continue
            return (True, '%s instead of %s at %s' % (x, y, show_env(env)))
    return (False, '%s vs %s' % (show(a), show(b)))


def close(a, b, tol):
    """Two linear terms with coefficients equal up to rounding."""
    (x, c), (y, d) = parts(a), parts(b)
    if c != c or d != d or not abs(c - d) <= tol * max(1.0, abs(d)):
        return False
    return all(abs(x.get(k, 0) - y.get(k, 0)) <= tol * max(1.0, abs(y.get(k, 0))) for k in set(x) | set(y))


def feasible(I, *terms):
    """A point of the partition, or None when none is found."""
    if unknown_trail(I):
        return None
    for env in points(I, terms, n=1):
        return show_env(env) or 'always'
    return None


def unknown_trail(I):
    return any((not isinstance(b, B) and not isinstance(b, tuple)) or (isinstance(b, B) and b.base.unk) for b, v in I.trail)
