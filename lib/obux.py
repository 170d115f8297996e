"""Field-level model of the bit buffers: an OBU is the sequence of fields it reads or writes.

Reading a field yields a fresh bounded value (the buffers themselves are decided by C12); positions are linear terms of the field sizes."""
import absx
from absval import *
from absval import T
from absx import Abort, Unsupported

RB = 'iamf_tools::ReadBitBuffer'
WB = 'iamf_tools::WriteBitBuffer'
DBGT = []
U32 = (1 << 32) - 1


class Tok:
    """One field: kind 'bits' (w bits, value), 'leb', 'exp' (ISO 14496-1 expanded), 'str', 'bytes' (n bytes)."""

    def __init__(self, kind, w, v, size, vec=None, signed=False):
        self.kind, self.w, self.v, self.size, self.vec, self.signed = kind, w, v, size, vec, signed

    def __repr__(self):
        return '%s%s=%s' % (self.kind, self.w if self.kind == 'bits' else '', show(self.v) if self.kind != 'bytes' else 'n:%s' % show(self.v))


class Buf:
    def __init__(self):
        self.t, self.cur, self.n = [], 0, 0
        self.preset = []
        self.choose = None
        self.drop = None

    def cutoff(self, I):
        self.drop = list(self.t[self.cur:])
        del self.t[self.cur:]


def rbuf(I):
    o = Obj(RB)
    o.f['#buf'] = Cell(Buf())
    return o


def wbuf(I):
    """A write buffer as the library constructs it, without the constructor's own fields."""
    o = Obj(WB)
    r = I.rec(WB)
    o.f['#buf'] = Cell(Buf())
    o.f['leb_generator_'] = Cell(Obj('iamf_tools::LebGenerator', sym='leb'))
    return o


def buf(o):
    while isinstance(o, (Ptr, Cell)):
        o = o.cell.v if isinstance(o, Ptr) else o.v
    if not isinstance(o, Obj):
        raise Unsupported('bit buffer %r' % (o,))
    c = o.f.get('#buf')
    if c is None:
        c = o.f['#buf'] = Cell(Buf())
    return c.v


def sizes(I, toks):
    s = 0
    for t in toks:
        s = add(s, t.size)
    return s


def value(I, n, fr):
    v = I.ev(n, fr)
    if isinstance(v, B):
        v = 1 if I.decide(v) else 0
    if isinstance(v, bool):
        v = int(v)
    return v


def proven_eq(I, a, b):
    if a is b:
        return True
    a, b = I.concrete(a), I.concrete(b)
    if is_num(a) and is_num(b):
        return a == b
    if not (is_num(a) or isinstance(a, T)) or not (is_num(b) or isinstance(b, T)):
        return False
    r = I.rel('==', a, b)
    return r is True or (isinstance(r, B) and I.facts.truth(r) is True)


def leb_size(I, v):
    """Bytes of the LEB128 form of v: the size of the field this value was read from (sizes are kept), else a bounded unknown."""
    v = I.concrete(v)
    best = None
    for e in I.lebs:
        if e[0] is v or proven_eq(I, e[0], v):
            if not e[2]:
                best = e
                break
            best = best or e
    if best:
        best[2] = True
        return best[1]
    if is_num(v):
        k = 1
        while v >= 1 << (7 * k):
            k += 1
        return k
    s = var('lebsize(w%d)' % len(I.lebs), 1, 5)
    I.lebs.append([v, s, True])
    return s


def take(I, o, kind, w=0):
    """The next field; None when it is new."""
    b = buf(o)
    if b.cur < len(b.t):
        t = b.t[b.cur]
        if t.kind == kind and (kind != 'bits' or t.w == w):
            b.cur += 1
            return b, t
        # what follows was read differently before a seek: read it anew
        b.cutoff(I)
    return b, None


def put(I, b, t):
    I.serial += 1
    t.serial = I.serial
    if b.drop is not None:
        I.dropped[t.serial] = b.drop
        b.drop = None
    b.t.append(t)
    DBGT[:] = b.t
    b.cur = len(b.t)
    b.n += 1
    if b.n > 400:
        raise absx.Cut('more than 400 fields')
    return t


def preset(b, kind, w=0):
    if b.preset:
        v = b.preset.pop(0)
        if v is not None:
            return v
    return b.choose(b.t, kind, w) if b.choose else None


def read_bits(I, n, fr, obj, args, w, out, signed=False):
    o = I.ev(obj, fr)
    b, t = take(I, o, 'bits', w)
    if t is None:
        k = preset(b, 'bits', w)
        if k is None:
            k = var('%s%d#%d' % ('s' if signed else 'u', w, len(b.t)), -(1 << (w - 1)) if signed else 0, (1 << (w - 1 if signed else w)) - 1)
        t = put(I, b, Tok('bits', w, k, w, signed=signed))
    v = t.v
    if t.signed != signed:
        v = I.wrap(v, (w, signed)) if w in (8, 16, 32, 64) else v
    I.lv(out, fr).v = v
    return StatusV(True)


def m_read_literal(I, n, fr, obj, args):
    w = I.concrete(value(I, args[0], fr))
    if not isinstance(w, int):
        raise Unsupported('symbolic field width')
    return read_bits(I, n, fr, obj, args, w, args[1])


def m_read_leb(I, n, fr, obj, args):
    o = I.ev(obj, fr)
    b, t = take(I, o, 'leb')
    if t is None:
        v = preset(b, 'leb')
        if v is None:
            v = var('leb#%d' % len(b.t), 0, U32)
            s = var('lebsize(leb#%d)' % len(b.t), 1, 5)
            I.lebs.append([v, s, False])
        else:
            s = var('lebsize(leb#%d)' % len(b.t), 1, 5)
            I.lebs.append([v, s, False])
        t = put(I, b, Tok('leb', 0, v, scale(s, 8)))
        t.lebsize = s
    I.lv(args[0], fr).v = t.v
    if len(args) > 1 and args[1] is not None:
        I.lv(args[1], fr).v = t.lebsize
    return StatusV(True)


def m_read_exp(I, n, fr, obj, args):
    o = I.ev(obj, fr)
    mx = I.concrete(value(I, args[0], fr))
    b, t = take(I, o, 'exp')
    if t is None:
        v = preset(b, 'exp')
        s = var('expsize(exp#%d)' % len(b.t), 1, 5)
        if v is None:
            v = var('exp#%d' % len(b.t), 0, mx if isinstance(mx, int) else U32)
        I.exps.append((v, s))
        t = put(I, b, Tok('exp', 0, v, scale(s, 8)))
    I.lv(args[1], fr).v = t.v
    return StatusV(True)


def m_read_string(I, n, fr, obj, args):
    o = I.ev(obj, fr)
    b, t = take(I, o, 'str')
    if t is None:
        s = preset(b, 'str')
        if s is None:
            prev = []
            for x in b.t:
                if x.kind == 'str' and x.v not in prev:
                    prev.append(x.v)
            s = None
            for k in I.strings(b, prev):
                if I.free('the string is %s' % k):
                    s = k
                    break
            if s is None:
                s = 'str#%d' % len(b.t)
        t = put(I, b, Tok('str', 0, s, 8 * (len(s) + 1)))
    I.lv(args[0], fr).v = t.v
    return StatusV(True)


def whole(vw):
    return isinstance(vw, View) and isinstance(vw.vec, Vec) and vw.off == 0 and (vw.n is vw.vec.n or vw.n == vw.vec.n)


def m_read_span(I, n, fr, obj, args):
    o = I.ev(obj, fr)
    vw = I.ev(args[0], fr)
    if isinstance(vw, Vec):
        vw = View(vw, 0, vw.n)
    if not whole(vw):
        raise Unsupported('reading into a part of a buffer')
    vec = vw.vec
    m = I.concrete(vw.n)
    b, t = take(I, o, 'bytes')
    if t is not None and not proven_eq(I, t.v, m):
        b.cur -= 1
        b.cutoff(I)
        t = None
    if t is None:
        k = len(b.t)

        def mk(i, k=k):
            return var('bytes#%d[%s]' % (k, i), 0, 255)
        mk.tokid = (id(b), k)
        t = put(I, b, Tok('bytes', 0, m, scale(m, 8)))
        t.mk = mk
        t.vec = Vec('unsigned char', [], m, mk)
    vec.items = []
    vec.make = t.mk
    if isinstance(m, int) and m <= 16:
        for i in range(m):
            I.at(vec, i)
    return StatusV(True)


def m_read_bool(I, n, fr, obj, args):
    return read_bits(I, n, fr, obj, args, 1, args[0])


def m_tell(I, n, fr, obj, args):
    b = buf(I.ev(obj, fr))
    return sizes(I, b.t[:b.cur])


def m_seek(I, n, fr, obj, args):
    b = buf(I.ev(obj, fr))
    p = value(I, args[0], fr)
    for k in range(len(b.t), -1, -1):
        if proven_eq(I, sizes(I, b.t[:k]), p):
            b.cur = k
            return StatusV(True)
    raise Unsupported('seek to %s' % show(p))


def m_ignore(I, n, fr, obj, args):
    o = I.ev(obj, fr)
    m = I.concrete(value(I, args[0], fr))
    b, t = take(I, o, 'bytes')
    if t is None:
        t = put(I, b, Tok('bytes', 0, m, scale(m, 8)))
        k = len(b.t)
        t.mk = lambda i, k=k: var('bytes#%d[%s]' % (k, i), 0, 255)
        t.vec = Vec('unsigned char', [], m, t.mk)
    return StatusV(True)


def fits(I, v, w, signed=False):
    if not (is_num(v) or isinstance(v, T)):
        return True
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    return I.decide(I.rel('>=', v, lo)) and I.decide(I.rel('<=', v, hi))


def write_bits(I, fr, obj, v, w, signed=False, check=True):
    b = buf(I.ev(obj, fr))
    if v is UNINIT:
        I.event('uninit-write')
    if check and not fits(I, v, w, signed):
        return StatusV(False, 3, 'does not fit')
    put(I, b, Tok('bits', w, v, w, signed=signed))
    return StatusV(True)


def m_write_literal(I, n, fr, obj, args):
    v, w = value(I, args[0], fr), I.concrete(value(I, args[1], fr))
    if not isinstance(w, int):
        raise Unsupported('symbolic field width')
    return write_bits(I, fr, obj, v, w)


def m_write_leb(I, n, fr, obj, args):
    b = buf(I.ev(obj, fr))
    v = value(I, args[0], fr)
    s = leb_size(I, v)
    put(I, b, Tok('leb', 0, v, scale(s, 8)))
    return StatusV(True)


def m_write_exp(I, n, fr, obj, args):
    b = buf(I.ev(obj, fr))
    v = value(I, args[0], fr)
    s = None
    for x, k in I.exps:
        if proven_eq(I, x, v):
            s = k
    if s is None:
        s = var('expsize(w%d)' % len(I.exps), 1, 5)
        I.exps.append((v, s))
    put(I, b, Tok('exp', 0, v, scale(s, 8)))
    return StatusV(True)


def m_write_string(I, n, fr, obj, args):
    b = buf(I.ev(obj, fr))
    v = I.ev(args[0], fr)
    put(I, b, Tok('str', 0, v, 8 * (len(v) + 1) if isinstance(v, str) else add(8, scale(I.size(v), 8))))
    return StatusV(True)


def m_write_span(I, n, fr, obj, args):
    b = buf(I.ev(obj, fr))
    vw = I.ev(args[0], fr)
    if isinstance(vw, Vec):
        vw = View(vw, 0, vw.n)
    if not isinstance(vw, View):
        raise Unsupported('writing %r' % (vw,))
    if vw.vec is None:
        return StatusV(True)
    mk = vw.vec.make
    if getattr(mk, 'toks', None) is not None and whole(vw):
        for t in mk.toks:
            put(I, b, t)
        return StatusV(True)
    m = I.concrete(vw.n)
    if m == 0:
        return StatusV(True)
    t = put(I, b, Tok('bytes', 0, m, scale(m, 8)))
    t.view = vw
    t.vec = vw.vec if whole(vw) else None
    return StatusV(True)


def m_bit_buffer(I, n, fr, obj, args):
    o = I.ev(obj, fr)
    b = buf(o)
    toks = list(b.t)
    s = sizes(I, toks)
    nb = I.iarith('/', s, 8, (64, False)) if not is_num(s) else (s + 7) // 8
    if isinstance(s, T):
        d, c = parts(s)
        if all(k % 8 == 0 for k in d.values()):
            nb = mk({a: k // 8 for a, k in d.items()}, (c + 7) // 8)

    def make(i):
        raise Unsupported('a byte of a written buffer')
    make.toks = toks
    return Vec('unsigned char', [], nb, make)


def m_bit_offset(I, n, fr, obj, args):
    return sizes(I, buf(I.ev(obj, fr)).t)


def m_aligned(I, n, fr, obj, args):
    s = sizes(I, buf(I.ev(obj, fr)).t)
    d, c = parts(s) if isinstance(s, T) else ({}, s)
    if all(k % 8 == 0 for k in d.values()):
        return 1 if c % 8 == 0 else 0
    raise Unsupported('alignment of %s' % show(s))


def nop(I, n, fr, obj, args):
    return None


USER = {
    RB + '::ReadUnsignedLiteral': m_read_literal,
    RB + '::ReadSigned8': lambda I, n, fr, o, a: read_bits(I, n, fr, o, a, 8, a[0], True),
    RB + '::ReadSigned9': lambda I, n, fr, o, a: read_bits(I, n, fr, o, a, 9, a[0], True),
    RB + '::ReadSigned16': lambda I, n, fr, o, a: read_bits(I, n, fr, o, a, 16, a[0], True),
    RB + '::ReadULeb128': m_read_leb,
    RB + '::ReadIso14496_1Expanded': m_read_exp,
    RB + '::ReadString': m_read_string,
    RB + '::ReadUint8Span': m_read_span,
    RB + '::ReadBoolean': m_read_bool,
    RB + '::Tell': m_tell,
    RB + '::Seek': m_seek,
    RB + '::IgnoreBytes': m_ignore,
    WB + '::WriteUnsignedLiteral': m_write_literal,
    WB + '::WriteUnsignedLiteral64': m_write_literal,
    WB + '::WriteSigned8': lambda I, n, fr, o, a: write_bits(I, fr, o, value(I, a[0], fr), 8, True),
    WB + '::WriteSigned9': lambda I, n, fr, o, a: write_bits(I, fr, o, value(I, a[0], fr), 9, True),
    WB + '::WriteSigned16': lambda I, n, fr, o, a: write_bits(I, fr, o, value(I, a[0], fr), 16, True),
    WB + '::WriteBoolean': lambda I, n, fr, o, a: write_bits(I, fr, o, value(I, a[0], fr), 1),
    WB + '::WriteString': m_write_string,
    WB + '::WriteUint8Span': m_write_span,
    WB + '::WriteUleb128': m_write_leb,
    WB + '::WriteIso14496_1Expanded': m_write_exp,
    WB + '::bit_buffer': m_bit_buffer,
    WB + '::bit_offset': m_bit_offset,
    WB + '::IsByteAligned': m_aligned,
}


def interp(P, K=3, **kw):
    printers = {f['q']: nop for f in P.fn.values() if f['q'].split('::')[-1] in ('Print', 'PrintObu', 'PrintHeader') and '/obu/' in f['f']}
    I = absx.Interp(P, K=K, models=dict(printers, **USER), **kw)
    I.strings = lambda b, prev: prev
    reset(I)
    return I


def reset(I):
    I.lebs, I.exps = [], []
    I.serial, I.dropped = 0, {}


# ---- comparing written with read fields ---------------------------------------------------------

def norm(I, toks):
    out = []
    for t in toks:
        if t.kind == 'bytes':
            m = I.concrete(t.v)
            if m == 0 or proven_eq(I, m, 0):
                continue
        out.append(t)
    return out


DBG = False


def same_bytes(I, a, b):
    """None: equal; text: different; False: undecided."""
    va, vb = a.vec, b.vec
    m = I.concrete(a.v)
    if va is not None and vb is not None:
        ia, ib = getattr(va.make, 'tokid', None), getattr(vb.make, 'tokid', None)
        dirty = any(c is not None for c in va.items + vb.items)
        if ia is not None and ia == ib and not (isinstance(m, int) and dirty):
            return None
    if isinstance(m, int) and m <= 64:
        for i in range(m):
            x = I.at(a.view if a.vec is None else va, i)
            y = I.at(b.view if b.vec is None else vb, i)
            if not proven_eq(I, x.v, y.v):
                import spec
                d = spec.differs(I, x.v, y.v)
                if d is None:
                    continue
                if DBG: print('BYTE', i, show(x.v), show(y.v))
                return 'byte %d is %s' % (i, d[1]) if d[0] else False
        return None
    return False
