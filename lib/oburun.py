"""Interprets reading and writing of one OBU kind and compares it with the grammar of lib/obuspec.py."""
import absx, obux, obuspec, spec
from absval import *
from absval import T
from contract import events_of, compare_values

NS = 'iamf_tools::'
DBG = False
HEADER_FIELDS = ('obu_type', 'obu_redundant_copy', 'type_specific_flag', 'num_samples_to_trim_at_end', 'num_samples_to_trim_at_start', 'extension_header_bytes')


class Bad(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls = cls


class Und(Exception):
    pass


def deref(v):
    while isinstance(v, (Ptr, Cell)):
        v = v.cell.v if isinstance(v, Ptr) else v.v
    return v


class Kind:
    def __init__(self, name, obu_type, cls, grammar, types=None, fields=(), make=None, strings=None, write_refusal=None, never_written=None, K=3, part=None, opts=None, paths=6000):
        self.name, self.obu_type, self.cls, self.grammar, self.types = name, obu_type, cls, grammar, types
        self.fields, self.make, self.strings, self.write_refusal, self.K = fields, make, strings, write_refusal, K
        self.never_written = never_written
        self.part, self.opts, self.paths = part, opts or [{}], paths


def resolve(I, o, path):
    """Value of the member path in object o; None when there is no such member (renamed)."""
    v = o
    for p in path.split('.'):
        v = deref(v)
        if isinstance(v, Opt):
            v = deref(v.cell)
        if isinstance(v, Variant):
            v = deref(v.cell)
        if not isinstance(v, Obj):
            return None
        if p not in v.f:
            for b in list(v.f):
                pass
            try:
                c = I.member(v, p)
            except Exception:
                return None
            v = c
        else:
            v = v.f[p]
    return deref(v)


def fail(I, cls, msg):
    p = spec.feasible(I)
    if p:
        raise Bad(cls, '%s (e.g. %s)' % (msg, str(p)[:300]))
    if DBG: print('UNDF', msg, obux.DBGT)
    raise Und('not feasible: ' + msg)


def judge(I, kind, toks, mode, env):
    """Runs the grammar; returns it, or raises Bad."""
    g = obuspec.G(I, toks, mode)
    env = dict(env)
    try:
        if kind.part:
            kind.grammar(g, env)
            if g.i < len(g.t) and mode == 'accepted' and obux.norm(I, g.t[g.i:]):
                raise obuspec.Syntax('%r is read after the end of the syntax' % g.t[g.i])
            return g
        obuspec.header(g, env)
        env['end'] = add(g.used, env['payload_bits'])
        env['obu_type'] = g.fields[0][1]
        if env.get('only_header'):
            return g
        kind.grammar(g, env)
        if mode == 'refused' and not g.le(g.used, env['end']):
            raise obuspec.Justified('the fields lie inside the payload')
        if mode == 'accepted' and not g.le(g.used, env['end']):
            g.broken.append('the fields lie inside the payload')
        elif not g.eq(g.used, env['end']):
            r = sub(env['end'], g.used)
            g.bytes(obuspec.I_div8(g, r), 'footer')
        if g.i < len(g.t) and mode == 'accepted':
            rest = obux.norm(I, g.t[g.i:])
            if rest:
                raise obuspec.Syntax('%r is read after the end of the syntax' % rest[0])
    except obuspec.End as e:
        if mode == 'cut':
            return g
        if mode == 'accepted':
            fail(I, 'syntax', '%s is not read' % e)
        need = getattr(e, 'need', None)
        if need is not None and (env.get('end') is None or not g.le(add(g.used, need), env['end'])):
            raise absx.Cut('repeated more than 7 times')
        if g.broken or (env.get('end') is not None and not g.lt(g.used, env['end'])):
            g.no_room = True
            return g
        if g.dubious:
            return g
        fail(I, 'verdict', 'a valid %s is refused before %s is read' % (kind.name, e))
    except obuspec.Syntax as e:
        if mode == 'refused' and g.dubious:
            return g
        fail(I, 'syntax', str(e))
    return g


def chooser(I, kind, env, names, memo):
    """Restricts the fields named: a number, a range or a function of how often the field was read before."""
    def choose(toks, k, w):
        # partitions with the same decisions so far read the same fields
        key = (tuple(I.dec), len(toks), I.serial)
        if key not in memo:
            memo[key] = obuspec.upcoming(I, kind, toks, env)
        what, nth = memo[key]
        v = names.get(what)
        if callable(v):
            v = v(nth)
        if isinstance(v, tuple):
            v = var('%s#%d' % (what, len(toks)), v[0], v[1])
        return v
    return choose


def scenario_fn(c, P, kind, opt):
    H = NS + 'ObuHeader'

    def fn(q, pred=None):
        l = [f for f in P.fn.values() if f['q'] == q and f.get('b') and (pred is None or pred(f))]
        return l[0] if l else None
    readh = fn(H + '::ReadAndValidate')
    writeh = fn(H + '::ValidateAndWrite')
    create = fn(kind.cls + '::CreateFromBuffer') if kind.cls else None
    write = fn(NS + 'ObuBase::ValidateAndWriteObu')
    if kind.part:
        create = fn(kind.part[1])
        write = fn(kind.part[2])

    def status(r):
        r = deref(r)
        st = r.st if isinstance(r, SOr) else r
        if not isinstance(st, StatusV) or not isinstance(st.ok, (bool, int)):
            raise Und('status %r' % (r,))
        return bool(st.ok)

    memo = {}

    def scenario(I):
        obux.reset(I)
        if kind.strings:
            I.strings = kind.strings
        rb = obux.rbuf(I)
        b = obux.buf(rb)
        if kind.obu_type is not None:
            ty = kind.obu_type
            if isinstance(ty, tuple):
                ty = var('obu_type', ty[0], ty[1])
            b.preset = [ty] + list(opt.get('preset', [None, None, 0]))
        elif opt.get('preset'):
            b.preset = list(opt['preset'])
        hdr = I.construct_default(I.rec(H))
        ps = Cell(UNINIT)
        args = kind.make(I, opt) if kind.make else ((), {})
        env = dict(args[1])
        names = dict(env.pop('names', {}), **opt.get('names', {}))
        if names:
            b.choose = chooser(I, kind, env, names, memo)
        try:
            obu = None
            if kind.part:
                o = kind.part[0](I) if kind.part[0] else None
                r = deref(I.call_fn(create, o, [Cell(rb)]))
                ok = status(r)
                obu = o if o is not None else deref(r.cell) if ok else None
            else:
                ok = status(I.call_fn(readh, hdr, [rb, ps]))
            if not kind.part and ok and kind.cls:
                cells = [Cell(hdr), Cell(ps.v)] + [a if isinstance(a, Cell) else Cell(a) for a in args[0]] + [Cell(rb)]
                r = deref(I.call_fn(create, None, cells))
                ok = status(r)
                if ok:
                    obu = deref(r.cell)
        except absx.Cut:
            g = judge(I, kind, b.t, 'cut', env)
            if g.bound_broken:
                fail(I, 'verdict', 'reads on although %s does not hold' % g.bound_broken)
            raise
        except (absx.Abort, absx.Throw) as e:
            fail(I, 'verdict', '%s %s: %s' % (kind.name, 'terminates the process' if isinstance(e, absx.Abort) else 'throws', e))
        ev = events_of(I)
        if ev:
            fail(I, 'verdict', 'undefined behaviour (%s)' % (ev[0][:3],))
        if not ok:
            try:
                if not kind.cls and not kind.part:
                    env['only_header'] = True
                g = judge(I, kind, b.t, 'refused', env)
            except obuspec.Justified:
                return 'refused'
            if g.broken or g.dubious or g.no_room:
                return 'refused'
            fail(I, 'verdict', 'a valid %s is refused' % kind.name)
        if not kind.cls and not kind.part:
            env['only_header'] = True
        g = judge(I, kind, b.t, 'accepted', env)
        if g.broken:
            fail(I, 'verdict', 'an invalid %s is accepted although not: %s' % (kind.name, g.broken[0]))
        if not kind.cls and not kind.part:
            # header alone
            d = compare_values(I, ps, obuspec.I_div8(g, g_end(g)))
            if d and d[0]:
                raise Bad('syntax', 'the payload size is %s' % d[1])
            for nm, v in g.fields:
                if nm in HEADER_FIELDS:
                    check_field(I, hdr, nm, v, 'header')
            if not writeh:
                return 'header'
            wb = obux.wbuf(I)
            I.events[:] = []
            try:
                wok = status(I.call_fn(writeh, hdr, [ps, Cell(wb)]))
            except (absx.Abort, absx.Throw) as e:
                fail(I, 'roundtrip', 'writing a header that was read %s: %s' % ('terminates the process' if isinstance(e, absx.Abort) else 'throws', e))
            if not wok:
                fail(I, 'roundtrip', 'a header that was read is refused when it is written')
            compare(I, kind, g.t[:g.i], obux.buf(wb).t)
            return 'header roundtrip'
        # fields
        for nm, v in g.fields:
            for path in [p for n, p in kind.fields if n == nm]:
                check_field(I, obu, path, v, kind.name)
        if g.dubious or g.other:
            return 'accepted'
        # writing it again
        wb = obux.wbuf(I)
        I.events[:] = []
        try:
            wok = status(I.call_fn(write, obu, [Cell(wb)]))
        except (absx.Abort, absx.Throw) as e:
            fail(I, 'roundtrip', 'writing what was read %s: %s' % ('terminates the process' if isinstance(e, absx.Abort) else 'throws', e))
        ev = events_of(I)
        if ev:
            fail(I, 'roundtrip', 'undefined behaviour (%s) while writing' % (ev[0][:3],))
        if not wok:
            if kind.write_refusal and kind.write_refusal(I, g, env):
                return 'not writable'
            fail(I, 'roundtrip', 'a %s that was read is refused when it is written' % kind.name)
        if kind.never_written and kind.never_written(I, g, env):
            fail(I, 'verdict', 'an invalid %s is written' % kind.name)
        rt = list(g.t)
        for k, v in g.out.items():
            t = rt[k]
            rt[k] = obux.Tok(t.kind, t.w, v, t.size, signed=True)
        compare(I, kind, rt, obux.buf(wb).t)
        return 'roundtrip'
    return scenario, (create or readh)


def g_end(g):
    d = dict(g.fields)
    # bits from the end of the header to the end of the OBU
    tot = 0
    k = 0
    for t in g.t[:g.i]:
        tot = add(tot, t.size)
        k += 1
    size = d['obu_size']
    pre = 0
    for t in g.t:
        pre = add(pre, t.size)
        if t.kind == 'leb':
            break
    return sub(add(pre, scale(size, 8)), tot)


def check_field(I, o, path, v, what):
    got = resolve(I, o, path)
    if got is None:
        I.und_fields = getattr(I, 'und_fields', 0) + 1
        return
    if isinstance(v, obux.Tok):
        if isinstance(got, Opt):
            got = deref(got.cell)
        if isinstance(got, Vec):
            t = obux.Tok('bytes', 0, got.n, 0)
            t.vec = got
            t.v = I.concrete(got.n)
            if not obux.proven_eq(I, t.v, v.v):
                d = compare_values(I, got.n, v.v)
                if d and d[0]:
                    raise Bad('syntax', '%s has size %s' % (path, d[1]))
                return
            m = obux.same_bytes(I, t, v)
            if m:
                raise Bad('syntax', '%s: %s' % (path, m))
        return
    if isinstance(got, Opt):
        got = deref(got.cell)
    if not (is_num(got) or isinstance(got, (T, str, bool, B))) and got is not UNINIT:
        return
    if never_set(got):
        fail(I, 'syntax', '%s.%s is never set' % (what, path))
    d = compare_values(I, got, v)
    if d and d[0]:
        raise Bad('syntax', '%s.%s is %s' % (what, path, d[1]))


def never_set(v):
    """The value is read from memory that nothing was stored in."""
    return v is UNINIT or (isinstance(v, T) and show(v).startswith('uninit#'))


def compare(I, kind, rt, wt):
    a, b = obux.norm(I, rt), obux.norm(I, wt)
    i = j = 0
    a, b = list(a), list(b)
    while a and b:
        x, y = a.pop(0), b.pop(0)
        if x.kind == y.kind == 'bits' and x.w != y.w:
            # the same bits, written in other portions
            if x.w > y.w:
                hi, lo = split(I, x, y.w)
                a.insert(0, lo)
                x = hi
            else:
                hi, lo = split(I, y, x.w)
                b.insert(0, lo)
                y = hi
        if {x.kind, y.kind} == {'bits', 'bytes'}:
            z, l, other = (x, a, y) if x.kind == 'bytes' else (y, b, x)
            m = I.concrete(z.v)
            if isinstance(m, int) and m <= 64 and other.w % 8 == 0:
                bs = [obux.Tok('bits', 8, I.at(z.vec if z.vec is not None else z.view, i).v, 8) for i in range(m)]
                l[:0] = bs
                (b if l is a else a).insert(0, other)
                continue
        if x.kind != y.kind:
            fail(I, 'roundtrip', '%r is read, but %r is written in its place' % (x, y))
        if x.kind == 'bytes':
            if not obux.proven_eq(I, x.v, y.v):
                d = compare_values(I, y.v, x.v)
                if d and d[0]:
                    raise Bad('roundtrip', 'the number of bytes written is %s' % d[1])
                raise Und('bytes: %s vs %s' % (show(x.v), show(y.v)))
            m = obux.same_bytes(I, x, y)
            if m:
                fail(I, 'roundtrip', 'written bytes differ from those read: %s' % m)
            if m is False:
                raise Und('byte content')
            continue
        if x.kind == 'str':
            if isinstance(x.v, str) and isinstance(y.v, str):
                if x.v != y.v:
                    fail(I, 'roundtrip', 'string %r is written as %r' % (x.v, y.v))
            continue
        xv, yv = x.v, y.v
        if x.kind == 'bits' and x.signed != y.signed and x.w in (8, 16, 32):
            xv, yv = I.wrap(xv, (x.w, False)), I.wrap(yv, (x.w, False))
        if obux.proven_eq(I, xv, yv):
            continue
        if never_set(yv):
            fail(I, 'roundtrip', 'a field read as %r is written from memory that was never set' % (x,))
        d = compare_values(I, yv, xv)
        if d and d[0]:
            raise Bad('roundtrip', 'a field read as %r is written as %s' % (x, d[1]))
        if d:
            raise Und('field: ' + d[1])
    if a:
        fail(I, 'roundtrip', '%r is read but not written' % a[0])
    if b:
        fail(I, 'roundtrip', '%r is written but was not read' % b[0])


def split(I, t, w):
    r = t.w - w
    v = t.v
    if t.signed:
        v = I.wrap(v, (t.w, False)) if t.w in (8, 16, 32) else v
    hi = v >> r if is_num(v) else I.iarith('>>', v, r, (64, False))
    lo = sub(v, scale(hi, 1 << r))
    return obux.Tok('bits', w, hi, w), obux.Tok('bits', r, lo, r)


def run_item(c, P, kind, opt, classes, max_paths=None, seconds=100, total=330):
    import time
    I = obux.interp(P, K=opt.get('K', kind.K), max_steps=opt.get('steps', 300000))
    I.deadline = min(c.t0 + total, time.time() + seconds)
    sc, f = scenario_fn(c, P, kind, opt)
    if not f:
        c.count('undecided')
        return

    def wrapped(I):
        try:
            return sc(I)
        except Bad as e:
            return e
        except Und as e:
            return e
    for oc, v in I.explore(wrapped, max_paths or opt.get('paths') or kind.paths):
        if c.enough():
            break
        c.count('partitions')
        bad = None
        if oc == 'ok' and isinstance(v, Bad):
            if v.cls in classes:
                bad = str(v)
        elif oc == 'ok' and isinstance(v, Und):
            c.count('undecided')
            d = c.notes.setdefault('undecided', {}).setdefault(kind.name, {})
            d[str(v)[:140]] = d.get(str(v)[:140], 0) + 1
        elif oc == 'ok':
            c.count('%s: %s' % (kind.name, v))
        elif oc == 'cut':
            c.count('beyond the loop bound')
        else:
            c.count('undecided')
            d = c.notes.setdefault('undecided', {}).setdefault(kind.name, {})
            d['%s %s' % (oc, str(v)[:140])] = d.get('%s %s' % (oc, str(v)[:140]), 0) + 1
        c.oblige(not bad)
        if bad:
            c.violation('%s|%s' % (f['f'], kind.name), f['f'], f['l'], '%s: %s' % (kind.name, bad))
            break
    for k, n in I.cut.items():
        d = c.notes.setdefault('bounds reached', {})
        d[k[:100]] = d.get(k[:100], 0) + n
