"""Model of a seekable std::istream over a file given by its layout (absx user models).

The file is a list of regions at linear positions; its length is a linear term.  Reads, seeks and state bits follow the standard."""
import ir
import absx
import absmodels
from absval import *
from absval import T
from absx import Unsupported, bare, split_t, ElemRef, strip_targs


class FileBytes:
    """Contents of a buffer filled from the file: element i is the byte at pos + i."""
    def __init__(self, st, pos, n):
        self.st, self.pos, self.n = st, pos, n

    def __call__(self, i):
        return self.st.byte(self.st.I, add(self.pos, i))


class Stream:
    def __init__(self, I, size):
        self.I, self.size = I, size
        self.pos, self.fail, self.eof = 0, False, False
        self.regions = []           # (position, length or None, tag, contents)
        self.memo = {}
        self.reads = []

    def region(self, pos, n, tag, content=None):
        self.regions.append((pos, n, tag, content))

    def find(self, pos):
        """(region, offset) of a position whose offset in a region is a known number."""
        for r in self.regions:
            d = sub(pos, r[0])
            if not is_num(d) and self.I:
                d = self.I.concrete(d)
            if is_num(d) and 0 <= d and (r[1] is None or d < r[1]):
                return r, int(d)
        return None

    def byte(self, I, pos):
        h = self.find(pos)
        if h:
            r, d = h
            if r[3] is not None:
                return r[3][d]
            k = (r[2], d)
            if k not in self.memo:
                self.memo[k] = var('%s[%d]' % k, 0, 255)
            return self.memo[k]
        k = repr(pos) if is_num(pos) else pos
        if k not in self.memo and len(self.memo) > 400:
            raise Unsupported('reads outside the layout')
        if k not in self.memo:
            self.memo[k] = var('file@%s' % (pos if is_num(pos) else pos.id), 0, 255)
        return self.memo[k]

    def good(self):
        return not self.fail and not self.eof

    def read(self, I, dst, n):
        if not self.good():
            self.fail = True
            return 0
        n = I.concrete(n)
        end = add(self.pos, n)
        if I.decide(I.rel('<=', end, self.size)):
            got = n
        else:
            self.fail = self.eof = True
            got = I.concrete(sub(self.size, self.pos))
            if not is_num(got):
                # a short read of a few bytes
                if is_num(n) and n <= 16:
                    l, h = I.facts.rng(got)
                    if not I.decide(I.rel('>=', got, 1)):
                        got = 0
                    else:
                        got = I.pick(got, 1, int(n) - 1) if n > 1 else 0
        if not (is_num(got) and got <= 0):
            put(I, dst, self, self.pos, got, n)
        self.pos = add(self.pos, got)
        return got

    def seek(self, I, pos):
        self.eof = False
        if self.fail:
            return
        if I.decide(I.rel('<', pos, 0)):
            self.fail = True
        elif I.decide(I.rel('<=', pos, self.size)) or not I.free('seeking past the end fails'):
            self.pos = pos
        else:
            self.fail = True


def put(I, dst, st, pos, n, want):
    """Stores n file bytes from pos at dst."""
    if isinstance(dst, BytePtr):
        if not is_num(n):
            raise Unsupported('read of unknown length into an object')
        store(I, dst.cell, dst.pt, dst.off, [st.byte(I, add(pos, k)) for k in range(int(n))])
        return
    if isinstance(dst, Ptr) and isinstance(dst.cell, ElemRef):
        c, i = dst.cell.vec, dst.cell.i
    elif isinstance(dst, It):
        c, i = dst.c, dst.i
    elif isinstance(dst, Cell) and isinstance(dst.v, (str, SStr)):
        c, i = dst, 0
    elif isinstance(dst, Ptr) and isinstance(dst.cell, Cell) and is_num(n) and n == 1:
        dst.cell.v = I.wrap(st.byte(I, pos), (8, True))
        return
    elif isinstance(dst, (Vec, View)):
        c, i = dst, 0
    else:
        raise Unsupported('read into %r' % (dst,))
    if isinstance(c, View):
        c, i = c.vec, add(c.off, i)
    if isinstance(c, Cell):
        # string buffer
        if I.same(I.size(c.v), n) is True and is_num(i) and i == 0 and not (is_num(n) and n <= 64):
            c.v = SStr([('file', pos, n, st)])
            return
        m = I.concrete(I.size(c.v))
        if is_num(n) and is_num(m) and n <= m <= 64 and is_num(i) and i == 0:
            rest = [SStr([('chr', I.at(c.v, k).v)]) if not is_num(I.at(c.v, k).v) else chr(I.at(c.v, k).v & 255) for k in range(int(n), int(m))]
            c.v = scat(*([chr(b & 255) if is_num(b) else SStr([('chr', b)]) for b in (I.concrete(st.byte(I, add(pos, k))) for k in range(int(n)))] + rest))
            return
        if is_num(i) and i == 0 and I.decide(I.rel('>=', I.size(c.v), want)):
            c.v = SStr([('sym', I.name('filled'))])
            return
        raise Unsupported('read into part of a string')
    if not isinstance(c, Vec):
        raise Unsupported('read into %r' % (c,))
    if is_num(n) and n <= 64:
        for k in range(int(n)):
            I.at(c, add(i, k)).v = I.wrap(st.byte(I, add(pos, k)), I.intty(c.et) or (8, True))
        return
    cn = I.concrete(c.n)
    if I.decide(I.rel('<', cn, add(i, want))):
        I.event('oob', want, cn)
        raise Unsupported('read past the buffer')
    whole = is_num(i) and i == 0 and I.same(cn, want) is True
    c.items, c.symidx = [], None
    if whole and I.same(n, want) is True:
        c.make = FileBytes(st, pos, n)
    else:
        # partly overwritten: the contents are no longer known
        nm = I.name('buffer')
        c.make = lambda k: var('%s[%s]' % (nm, show(k)), -128, 255, unk=True)


def store(I, cell, t, off, data):
    """Overwrites bytes off.. of the object in cell (type t) with data."""
    bs = I.intty(t)
    if bs:
        size = bs[0] // 8
        if off + len(data) > size:
            I.event('oob', off + len(data), size)
            raise Unsupported('write past an object')
        old = cell.v if is_num(cell.v) or isinstance(cell.v, T) else None
        if off == 0 and len(data) == size:
            old = 0
        if old is None:
            raise Unsupported('partial write')
        v = old if is_num(old) and old == 0 else None
        if v is None:
            # keep the untouched bytes
            u = I.wrap(old, (bs[0], False))
            v = 0
            for k in range(size):
                if not off <= k < off + len(data):
                    b = I.iarith('&', I.iarith('>>', u, 8 * k, (bs[0], False)), 255, (bs[0], False))
                    v = add(v, scale(b, 1 << (8 * k)))
        for k, b in enumerate(data):
            v = add(v, scale(b, 1 << (8 * (off + k))))
        cell.v = I.wrap(v, bs)
        return
    r = I.rec(t)
    if r:
        lay, size = layout(I, t)
        if lay is None or not isinstance(cell.v, Obj):
            raise Unsupported('layout of %s' % t)
        if off + len(data) > size:
            I.event('oob', off + len(data), size)
            raise Unsupported('write past an object')
        for name, ft, o, s in lay:
            lo, hi = max(o, off), min(o + s, off + len(data))
            if lo < hi:
                c = cell.v.f.get(name)
                if c is None:
                    c = cell.v.f[name] = Cell(0)
                store(I, c, ft, lo - o, data[lo - off:hi - off])
        return
    raise Unsupported('raw bytes of %s' % t)


def layout(I, t):
    """([(field, type, offset, size)], size) of a plain record of integers."""
    r = I.rec(t)
    out, pos, al = [], 0, 1
    for f in r['fs']:
        bs = I.intty(f['t'])
        if not bs:
            return None, 0
        s = bs[0] // 8
        pos = (pos + s - 1) // s * s
        out.append((f['n'], f['t'], pos, s))
        pos += s
        al = max(al, s)
    return out, (pos + al - 1) // al * al


def stream_of(I, o, fr):
    v = absmodels.obj(I, o, fr)
    if not isinstance(v, Stream):
        raise Unsupported('stream')
    return v


def num(I, v):
    if isinstance(v, Obj) and 'off' in v.f:
        v = v.f['off'].v
    return I.num(v)


def buffer(I, n, fr):
    """Destination of a read: the value of pointer expression n, or the cell of the string it points into."""
    x = n
    while x[0] == 'cast':
        x = x[4]
    if x[0] == 'un' and x[3] == '&' and ir.isnode(x[4]):
        y = x[4]
        if y[0] == 'call' and y[3] and y[3][1].split('::')[-1] in ('operator[]', 'front'):
            b = I.lv(y[4], fr)
            i = I.concrete(I.ev(y[5][0], fr)) if y[5] and y[5][0] is not None else 0
            if isinstance(b.v, (str, SStr)) and is_num(i) and i == 0:
                return b
    v = I.ev(n, fr)
    return v.cell if isinstance(v, StrBuf) else v


def m_read(I, n, fr, o, a):
    s = stream_of(I, o, fr)
    dst = buffer(I, a[0], fr)
    k = I.num(I.ev(a[1], fr))
    s.last = s.read(I, dst, k)
    return s


def m_seekg(I, n, fr, o, a):
    s = stream_of(I, o, fr)
    if len(a) > 1 and a[1] is not None:
        off, way = num(I, I.ev(a[0], fr)), I.concrete(I.ev(a[1], fr))
        base = {0: 0, 1: s.pos, 2: s.size}.get(way)
        if base is None:
            raise Unsupported('seekg')
        s.seek(I, add(base, off))
    else:
        s.seek(I, num(I, I.ev(a[0], fr)))
    return s


def m_tellg(I, n, fr, o, a):
    s = stream_of(I, o, fr)
    return -1 if s.fail else s.pos


def m_ignore(I, n, fr, o, a):
    s = stream_of(I, o, fr)
    k = I.num(I.ev(a[0], fr)) if a and a[0] is not None else 1
    if len(a) > 1 and a[1] is not None:
        d = I.concrete(I.ev(a[1], fr))
        if d != -1:
            raise Unsupported('ignore with a delimiter')
    if not s.good():
        s.fail = True
        return s
    e = add(s.pos, k)
    if I.decide(I.rel('<=', e, s.size)):
        s.pos = e
    else:
        s.pos = s.size
        s.eof = True
    return s


def m_clear(I, n, fr, o, a):
    s = stream_of(I, o, fr)
    v = I.concrete(I.ev(a[0], fr)) if a and a[0] is not None else 0
    s.fail, s.eof = bool(v & 5), bool(v & 2)


def m_ok(I, n, fr, o, a):
    return not stream_of(I, o, fr).fail


MODELS = {
    'std::basic_istream::read': m_read,
    'std::basic_istream::seekg': m_seekg,
    'std::basic_istream::tellg': m_tellg,
    'std::basic_istream::ignore': m_ignore,
    'std::basic_istream::gcount': lambda I, n, fr, o, a: stream_of(I, o, fr).last,
    'std::basic_ios::clear': m_clear,
    'std::basic_ios::setstate': lambda I, n, fr, o, a: (_ for _ in ()).throw(Unsupported('setstate')),
    'std::basic_ios::operator bool': m_ok,
    'std::basic_ios::operator!': lambda I, n, fr, o, a: stream_of(I, o, fr).fail,
    'std::basic_ios::fail': lambda I, n, fr, o, a: stream_of(I, o, fr).fail,
    'std::basic_ios::bad': lambda I, n, fr, o, a: False,
    'std::basic_ios::eof': lambda I, n, fr, o, a: stream_of(I, o, fr).eof,
    'std::basic_ios::good': lambda I, n, fr, o, a: stream_of(I, o, fr).good(),
    'std::fpos::operator long': lambda I, n, fr, o, a: num(I, I.ev(o, fr)),
    'std::fpos::operator+': lambda I, n, fr, o, a: add(num(I, I.ev(o, fr)), num(I, I.ev(a[0], fr))),
    'std::fpos::operator-': lambda I, n, fr, o, a: sub(num(I, I.ev(o, fr)), num(I, I.ev(a[0], fr))),
}


@absmodels.K('std::fpos::fpos')
def _(I, n, fr, t, a):
    return num(I, I.ev(a[0], fr)) if a and a[0] is not None else 0


@absmodels.K('std::basic_ifstream::basic_ifstream')
def _(I, n, fr, t, a):
    if a and a[0] is not None and getattr(I, 'the_file', None) is not None:
        v = I.ev(a[0], fr)
        return v if isinstance(v, Stream) else I.the_file
    return I.opaque_obj(n, fr, a)
