"""Bits are read and written exactly, or refused."""
import itertools
import check, db, ir, absx, absmodels, spec, streamx
from absval import *
from absval import T
from contract import *

RULE = ('every value read is the MSB-first value of exactly the bits at the current position of the source, whatever the buffer capacity, the '
        'offset, the width and the history of seeks, pushes and flushes; every value written appends exactly its bits; a call that cannot '
        'do so is refused and leaves the position alone (abstract interpretation of the bit buffers over symbolic bits; linear terms)')

NS = 'iamf_tools::'
RB = NS + 'ReadBitBuffer'
WB = NS + 'WriteBitBuffer'


class Bad(Exception):
    pass


class Undecided(Exception):
    pass


def number(bs):
    v = 0
    for b in bs:
        v = add(scale(v, 2), b)
    return v


def pack(bs):
    return [number(bs[i:i + 8]) for i in range(0, len(bs), 8)]


def fails(I, msg):
    p = spec.feasible(I)
    if p:
        raise Bad('%s (e.g. %s)' % (msg, p))
    raise Undecided(msg)


def pinned(I, v):
    """v with the bits that are known on this partition filled in."""
    if not isinstance(v, T):
        return v
    d, c = parts(v)
    for x in list(d):
        l, h = I.facts.rng(x)
        if l == h:
            c += d.pop(x) * l
    return mk(d, c)


def same(I, what, got, want):
    want = pinned(I, want)
    got = unwrap(got)
    got = pinned(I, got)
    d = compare_values(I, got, want)
    if d is None:
        return
    if d[0]:
        raise Bad('%s is %s' % (what, d[1]))
    raise Undecided('%s: %s' % (what, d[1]))


def unwrap(v):
    while isinstance(v, (Cell, Ptr)):
        v = v.v if isinstance(v, Cell) else v.cell
    return v


class Machine:
    """The functions under analysis."""
    def __init__(self, P, c):
        self.P = P
        self.missing = []

        def fn(q, types=None):
            r = [f for f in P.fn.values() if f['q'] == NS + q and f.get('b') and '/tests/' not in f['f'] and (types is None or all(t in f['p'][i][2] for i, t in types.items()))]
            if not r:
                self.missing.append(q)
            return r[0] if r else None
        self.mem = fn('MemoryBasedReadBitBuffer::CreateFromSpan')
        self.file = fn('FileBasedReadBitBuffer::CreateFromFilePath')
        self.stream = fn('StreamBasedReadBitBuffer::Create')
        self.push = fn('StreamBasedReadBitBuffer::PushBytes')
        self.flush = fn('StreamBasedReadBitBuffer::Flush')
        self.u = {w: fn('ReadBitBuffer::ReadUnsignedLiteral', {1: t + ' &'}) for w, t in ((64, 'unsigned long'), (32, 'unsigned int'), (16, 'unsigned short'), (8, 'unsigned char'))}
        self.s = {8: fn('ReadBitBuffer::ReadSigned8'), 9: fn('ReadBitBuffer::ReadSigned9'), 16: fn('ReadBitBuffer::ReadSigned16')}
        self.boolean = fn('ReadBitBuffer::ReadBoolean')
        self.string = fn('ReadBitBuffer::ReadString')
        self.leb = [f for f in P.fn.values() if f['q'] == RB + '::ReadULeb128' and f.get('b')]
        self.iso = fn('ReadBitBuffer::ReadIso14496_1Expanded')
        self.span = fn('ReadBitBuffer::ReadUint8Span')
        self.tell, self.seek, self.ignore = fn('ReadBitBuffer::Tell'), fn('ReadBitBuffer::Seek'), fn('ReadBitBuffer::IgnoreBytes')
        self.avail, self.more = fn('ReadBitBuffer::NumBytesAvailable'), fn('ReadBitBuffer::IsDataAvailable')
        self.wu32, self.wu64 = fn('WriteBitBuffer::WriteUnsignedLiteral'), fn('WriteBitBuffer::WriteUnsignedLiteral64')
        self.ws = {8: fn('WriteBitBuffer::WriteSigned8'), 9: fn('WriteBitBuffer::WriteSigned9'), 16: fn('WriteBitBuffer::WriteSigned16')}
        self.wbool, self.wstr, self.wspan = fn('WriteBitBuffer::WriteBoolean'), fn('WriteBitBuffer::WriteString'), fn('WriteBitBuffer::WriteUint8Span')
        self.wleb, self.wiso = fn('WriteBitBuffer::WriteUleb128'), fn('WriteBitBuffer::WriteIso14496_1Expanded')
        self.wflush, self.wreset = fn('WriteBitBuffer::FlushAndWriteToFile'), fn('WriteBitBuffer::Reset')
        self.wctor = [f for f in P.fn.values() if f['q'] == WB + '::WriteBitBuffer' and f.get('b') and len(f['p']) == 2]
        self.wrec = [r for r in P.rec.values() if r['q'] == WB]
        self.gen = fn('LebGenerator::Create')
        self.lebu, self.lebs = fn('LebGenerator::Uleb128ToUint8Vector'), fn('LebGenerator::Sleb128ToUint8Vector')
        self.get = {n: fn('WriteBitBuffer::' + n) for n in ('bit_buffer', 'bit_offset', 'IsByteAligned')}


class Reader:
    """A bit buffer and the reference position."""
    def __init__(self, M, I, kind, cap, nbits, given=None):
        self.M, self.I, self.kind = M, I, kind
        self.bits = given or [var('b%d' % i, 0, 1) for i in range(nbits)]
        self.pos = 0
        self.src = []               # bits the source holds
        self.fresh_flush = False
        if kind == 'mem':
            self.o = unwrap(I.call_fn(M.mem, None, [Cell(self.view(self.bits))]))
            self.src = list(self.bits)
        elif kind == 'file':
            st = streamx.Stream(I, nbits // 8)
            st.region(0, nbits // 8, 'file', pack(self.bits))
            I.the_file = st
            self.o = unwrap(I.call_fn(M.file, None, [Cell(cap), Cell('file.iamf')]))
            self.src = list(self.bits)
        else:
            self.o = unwrap(I.call_fn(M.stream, None, [Cell(cap)]))
        if not isinstance(self.o, Obj):
            raise Undecided('no buffer')

    def view(self, bs):
        v = Vec('unsigned char', [Cell(x) for x in pack(bs)])
        return View(v, 0, len(v.pre) if hasattr(v, 'pre') else len(bs) // 8)

    def status(self, s):
        s = unwrap(s)
        if isinstance(s, SOr):
            s = s.st
        if not isinstance(s, StatusV) or not isinstance(s.ok, bool):
            raise Undecided('status')
        return s

    def can(self, n, mx):
        return 0 <= n <= mx and self.pos + n <= len(self.src)

    def take(self, n):
        r = self.src[self.pos:self.pos + n]
        self.pos += n
        return r

    def verdict(self, s, want, what):
        s = self.status(s)
        if s.ok and not want:
            fails(self.I, '%s succeeds although it cannot' % what)
        if not s.ok and want:
            fails(self.I, '%s is refused although the bits are there' % what)
        return s.ok

    def step(self, op):
        """Performs one operation; False when the history cannot go on."""
        I, M, o = self.I, self.M, self.o
        k = op[0]
        flushed, self.fresh_flush = self.fresh_flush, False
        if k == 'u':
            _, n, mx = op
            out = Cell(UNINIT)
            want = self.can(n, mx)
            s = I.call_fn(M.u[mx], o, [Cell(n), out])
            st = self.status(s)
            if self.verdict(s, want, 'reading %d bits (at most %d) at bit %d of %d' % (n, mx, self.pos, len(self.src))):
                p = self.pos
                same(I, 'the %d-bit value at bit %d' % (n, p), out, number(self.take(n)))
            elif 0 <= n <= mx and st.code not in (None, 0, 2, 8):
                fails(I, 'running out of data is reported as status code %s instead of ResourceExhausted' % st.code)
        elif k == 's':
            out = Cell(UNINIT)
            n = op[1]
            if self.verdict(I.call_fn(M.s[n], o, [out]), self.can(n, n), 'reading a signed %d-bit value at bit %d' % (n, self.pos)):
                bs = self.take(n)
                same(I, 'the signed %d-bit value' % n, out, add(number(bs[1:]), scale(bs[0], -(1 << (n - 1)))))
        elif k == 'bool':
            out = Cell(UNINIT)
            if self.verdict(I.call_fn(M.boolean, o, [out]), self.can(1, 1), 'reading a flag'):
                same(I, 'the flag', out, self.take(1)[0])
        elif k == 'span':
            n = op[1]
            want = self.can(8 * n, 8 * n)
            v = Vec('unsigned char', [Cell(UNINIT) for _ in range(n)])
            if not self.verdict(I.call_fn(M.span, o, [Cell(View(v, 0, n))]), want, 'reading %d bytes at bit %d' % (n, self.pos)):
                return False
            for i in range(n):
                same(I, 'byte %d of a span' % i, I.at(v, i), number(self.take(8)))
        elif k in ('leb', 'iso'):
            return self.varint(k, op[1])
        elif k == 'str':
            want, chars = False, []
            while self.pos + 8 <= len(self.src) and len(chars) < 128:
                b = number(self.take(8))
                if I.decide(I.rel('==', b, 0)):
                    want = True
                    break
                chars.append(b)
            out = Cell('')
            if not self.verdict(I.call_fn(M.string, o, [out]), want, 'reading a string of %d characters' % len(chars)):
                return False
            same(I, 'the length of the string', I.size(out.v), len(chars))
            for i, ch in enumerate(chars):
                got = I.at(out.v, i) if not isinstance(out.v, str) else ord(out.v[i])
                got = unwrap(got)
                if isinstance(got, str):
                    got = ord(got)
                same(I, 'character %d of the string' % i, I.wrap(got, (8, False)), ch)
        elif k in ('seek', 'ign'):
            if k == 'seek':
                to = op[1]
                if flushed:
                    if self.status(I.call_fn(M.seek, o, [Cell(to)])).ok:
                        fails(I, 'Seek(%d) right after Flush() is accepted although old positions have lost their meaning' % to)
                    self.fresh_flush = True
                    return True
                s = I.call_fn(M.seek, o, [Cell(to)])
            else:
                to = self.pos + 8 * op[1]
                s = I.call_fn(M.ignore, o, [Cell(op[1])])
            if self.verdict(s, 0 <= to <= len(self.src), 'moving to bit %d of %d' % (to, len(self.src))):
                self.pos = to
        elif k == 'push':
            have = len(self.src) + self.dropped
            bs = self.bits[have:have + 8 * op[1]]
            if len(bs) < 8 * op[1]:
                return False
            if self.verdict(I.call_fn(M.push, o, [Cell(self.view(bs))]), True, 'pushing %d bytes' % op[1]):
                self.src += bs
        elif k == 'flush':
            I.call_fn(M.flush, o, [])
            d = self.pos // 8 * 8
            self.src = self.src[d:]
            self.dropped += d
            self.pos -= d
            self.fresh_flush = True
            return True
        self.check()
        return True

    dropped = 0

    def varint(self, k, arg):
        I, M = self.I, self.M
        got, want, start = [], False, self.pos
        v = 0
        while len(got) < 8 and self.pos + 8 <= len(self.src):
            bs = self.take(8)
            got.append(bs)
            if k == 'leb':
                v = add(v, scale(number(bs[1:]), 1 << (7 * (len(got) - 1))))
            else:
                v = add(scale(v, 128), number(bs[1:]))
            lim = arg if k == 'iso' else (1 << 32) - 1
            if I.decide(I.rel('>', v, lim)):
                break
            if I.decide(I.rel('==', bs[0], 0)):
                want = True
                break
        out, size = Cell(UNINIT), Cell(UNINIT)
        if k == 'iso':
            s = I.call_fn(M.iso, self.o, [Cell(arg), out])
        else:
            f = [f for f in M.leb if len(f['p']) == arg][0]
            s = I.call_fn(f, self.o, [out] + ([size] if arg == 2 else []))
        if not self.verdict(s, want, 'reading a %d-byte variable-length integer' % len(got)):
            return False
        same(I, 'the variable-length integer', out, v)
        if k == 'leb' and arg == 2:
            same(I, 'its encoded size', size, len(got))
        self.check()
        return True

    def check(self):
        I, M, o = self.I, self.M, self.o
        same(I, 'the position', unwrap(I.call_fn(M.tell, o, [])), self.pos)
        n = (len(self.src) - self.pos) // 8
        same(I, 'the number of bytes available', unwrap(I.call_fn(M.avail, o, [])), n)
        same(I, 'whether data is available', unwrap(I.call_fn(M.more, o, [])), int(n > 0))


class Writer:
    def __init__(self, M, I, mode=None, cap=1):
        self.M, self.I = M, I
        self.bits = []
        gt = [x for x in M.gen['p'][:1]]
        args = [Cell(0), Cell(0)] if mode is None else [Cell(mode[0]), Cell(mode[1])]
        g = unwrap(I.call_fn(M.gen, None, args))
        self.g = g
        self.o = None
        if isinstance(g, Obj):
            o = I.fresh(WB, 'wb')
            I.run_ctor(M.wctor[0], o, [Cell(cap), Cell(g)])
            self.o = o

    def status(self, s):
        return Reader.status(self, s)

    def call(self, f, args, bits, what):
        """bits: the bits it must append, or None when it must refuse."""
        I = self.I
        s = self.status(I.call_fn(f, self.o, [Cell(a) for a in args]))
        if s.ok and bits is None:
            fails(I, '%s succeeds although the value does not fit' % what)
        if not s.ok and bits is not None:
            fails(I, '%s is refused although the value fits' % what)
        if bits is not None:
            self.bits += bits
        return s.ok

    def check(self, partial=False):
        I, M = self.I, self.M
        off = unwrap(I.call_fn(M.get['bit_offset'], self.o, []))
        same(I, 'the bit offset', off, len(self.bits))
        buf = unwrap(I.call_fn(M.get['bit_buffer'], self.o, []))
        bs = self.bits + [0] * (-len(self.bits) % 8)
        same(I, 'the size of the buffer', I.size(buf), len(bs) // 8)
        for i, w in enumerate(pack(bs)):
            same(I, 'byte %d of the buffer' % i, I.at(buf, i), w)
        same(I, 'IsByteAligned', unwrap(I.call_fn(M.get['IsByteAligned'], self.o, [])), int(len(self.bits) % 8 == 0))


def file_models():
    m = dict(streamx.MODELS)
    m['std::filesystem::exists'] = lambda I, n, fr, o, a: getattr(I, 'file_exists', True)
    # an output file: which bytes it was given
    m['std::basic_fstream::is_open'] = lambda I, n, fr, o, a: I.out_open
    m['std::basic_ios::bad'] = lambda I, n, fr, o, a: I.out_bad
    m['std::basic_ios::fail'] = lambda I, n, fr, o, a: I.out_bad if isinstance(absmodels.obj(I, o, fr), Obj) else streamx.MODELS['std::basic_ios::fail'](I, n, fr, o, a)
    m['std::basic_ios::good'] = lambda I, n, fr, o, a: not I.out_bad if isinstance(absmodels.obj(I, o, fr), Obj) else streamx.MODELS['std::basic_ios::good'](I, n, fr, o, a)
    m['std::basic_ios::operator!'] = m['std::basic_ios::fail']

    def write(I, n, fr, o, a):
        p, k = I.ev(a[0], fr), I.concrete(I.ev(a[1], fr))
        if not is_num(k):
            raise absx.Unsupported('write of unknown length')
        for i in range(k):
            x = unwrap(I.at(p, i))
            I.out.append(ord(x) if isinstance(x, str) else x)
        return absmodels.obj(I, o, fr)
    m['std::basic_ostream::write'] = write
    return m


def read_items():
    out = []
    # one literal of every width at every offset, several capacities
    for kind, cap in (('mem', 0), ('stream', 1), ('stream', 2), ('stream', 3), ('stream', 8), ('file', 1), ('file', 3)):
        for off in range(0, 20):
            ws = []
            for n in sorted(set(list(range(0, 66)) + [-1])):
                if off % 8 and off > 8 and n % 5:
                    continue
                ws.append((off, n))
            out.append(('lit', kind, cap, ws))
    # mixtures
    ops = [('u', 3, 8), ('u', 8, 8), ('u', 9, 8), ('u', 16, 16), ('u', 17, 32), ('u', 33, 64), ('u', 64, 64), ('s', 8), ('s', 9), ('s', 16), ('bool',), ('span', 2),
           ('seek', 0), ('seek', 13), ('seek', 40), ('seek', 72), ('seek', 73), ('seek', -1), ('ign', 1), ('ign', 4), ('ign', -1), ('ign', 20)]
    for kind, cap in (('mem', 0), ('stream', 2), ('file', 3)):
        for a in ops:
            out.append(('hist', kind, cap, [(('push', 9),) * (kind == 'stream') + (a, b, d) for b in ops for d in ops[0:12:3]]))
    sops = [('u', 3, 8), ('u', 16, 16), ('u', 33, 64), ('push', 1), ('push', 3), ('flush',), ('seek', 0), ('seek', 9), ('ign', 2)]
    for cap in (1, 3, 9):
        for a in sops:
            out.append(('hist', 'stream', cap, [(('push', 4), a, b, d, ('u', 5, 8)) for b in sops for d in sops]))
    for kind, cap in (('mem', 0), ('stream', 1), ('stream', 3), ('file', 2)):
        pre = (('push', 9),) * (kind == 'stream')
        for first in ((), (('u', 3, 8),), (('bool',),)):
            out.append(('hist', kind, cap, [pre + first + (x,) for x in (('leb', 1), ('leb', 2), ('iso', 0xffffffff), ('iso', 200), ('iso', 127), ('iso', 16383), ('iso', 0))]))
        out.append(('hist', kind, cap, [pre + (('u', 64, 64), x) for x in (('leb', 1), ('leb', 2), ('iso', 127), ('str',), ('span', 1))]))
        out.append(('hist', kind, cap, [(('push', 5),) * (kind == 'stream') + (('u', 11, 16), ('str',))]))
    return out


def write_items():
    out = [('wlit', n) for n in list(range(-1, 10)) + [12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 56, 63, 64, 65]]
    out += [('wmix', k) for k in ('s8', 's9', 's16', 'bool', 'span', 'str', 'iso', 'reset')]
    out += [('strlen',), ('make',), ('wfile',), ('pushlimit',)]
    out += [('wleb', 0, 0)] + [('wleb', 1, k) for k in range(-1, 10)] + [('wleb', 2, 3)]
    return out


def run():
    P = db.load()
    c = check.Check('C12', RULE, ['sources of at most sixteen bytes, histories of at most five operations', 'the capacity of a vector created with n elements is n',
                                  'the file does not change while it is read'])
    M = Machine(P, c)
    if M.missing or not M.leb or not M.wctor:
        c.notes['not found'] = M.missing
        return c
    file_r, file_w = M.u[64]['f'], M.wu32['f']

    def one(I, what, f, where):
        """Explores one scenario; True when it was decided without a violation."""
        for oc, v in I.explore(f, 3000):
            if c.enough():
                return
            c.count('partitions')
            bad = None
            if oc == 'ok':
                ev = events_of(I)
                if v:
                    if v[0] == 'bad':
                        bad = v[1]
                    else:
                        c.count('undecided')
                        c.notes.setdefault('undecided', {})[v[1][:100]] = 1
                elif ev and spec.feasible(I):
                    bad = 'undefined behaviour (%s)' % (ev[0][:3],)
            elif oc in ('abort', 'throw'):
                p = spec.feasible(I)
                if p:
                    bad = '%s at %s' % (v, p)
            elif oc in ('unsupported', 'cut'):
                c.count('undecided')
                c.notes.setdefault('undecided', {})[str(v)[:100]] = 1
            c.oblige(not bad)
            if bad:
                c.violation('%s|%s' % (where, what[0]), where, 1, '%s: %s: %s' % (what[0], what[1], bad))
                return
            if c.enough():
                return

    def guarded(g):
        def h(I):
            try:
                g(I)
            except Bad as e:
                return ('bad', str(e))
            except Undecided as e:
                return ('und', str(e))
        return h

    def work(item):
        I = absx.Interp(P, K=140, models=file_models(), max_steps=2000000)
        I.deadline = c.t0 + 500
        k = item[0]
        if k == 'lit':
            _, kind, cap, ws = item
            for off, n in ws:
                for mx in (8, 16, 32, 64):
                    if n > mx + 1:
                        continue
                    def g(I):
                        r = Reader(M, I, kind, cap, 96)
                        if kind == 'stream':
                            r.step(('push', 12))
                        r.check()
                        o = off
                        while o > 0:
                            r.step(('u', min(o, 7), 8))
                            o -= 7
                        r.step(('u', n, mx))
                        r.step(('u', 3, 8))
                    one(I, ('ReadUnsignedLiteral', '%s buffer of capacity %d' % (kind, cap)), guarded(g), file_r)
        elif k == 'hist':
            _, kind, cap, hs = item
            for h in hs:
                def g(I):
                    r = Reader(M, I, kind, cap, 72)
                    for op in h:
                        if not r.step(op):
                            break
                one(I, ('ReadBitBuffer', '%s buffer of capacity %d, %s' % (kind, cap, ' '.join(map(str, h)))), guarded(g), file_r)
        elif k == 'strlen':
            for n in (126, 127, 128, 129):
                for end in (0, 1):
                    def g(I):
                        r = Reader(M, I, 'mem', 0, 0, [0, 1, 1, 0, 0, 0, 0, 1] * n + [0] * 8 * end)
                        r.step(('str',))
                    one(I, ('ReadString', '%d characters' % n), guarded(g), file_r)
        elif k == 'make':
            def g(I):
                I.file_exists = I.free('the file exists')
                I.the_file = streamx.Stream(I, 5)
                cap = var('capacity', -2**63, 100)
                ok = not I.decide(I.rel('<', cap, 0))
                v = unwrap(I.call_fn(M.file, None, [Cell(cap), Cell('file.iamf')])) if not ok else None
                if not ok and v is not None:
                    fails(I, 'a file buffer of negative capacity is made')
                v = unwrap(I.call_fn(M.stream, None, [Cell(cap)])) if not ok else None
                if not ok and v is not None:
                    fails(I, 'a stream buffer of negative capacity is made')
                if ok:
                    v = unwrap(I.call_fn(M.file, None, [Cell(4), Cell('file.iamf')]))
                    if (v is None) == I.file_exists:
                        fails(I, 'a buffer for a file that does not exist' if v is not None else 'no buffer for a readable file')
            one(I, ('Create', ''), guarded(g), file_r)
        elif k == 'pushlimit':
            for have in (0, 3):
                def g(I):
                    r = Reader(M, I, 'stream', 4, 24)
                    if have:
                        r.step(('push', have))
                    n = var('n', 0, 2**40)
                    v = View(Vec('unsigned char', [], n, lambda i: 0), 0, n)
                    lim = 1 << 22
                    fits = I.decide(I.rel('<=', add(n, have), lim))
                    s = r.status(I.call_fn(M.push, r.o, [Cell(v)]))
                    if s.ok and not fits:
                        fails(I, 'PushBytes accepts more bytes than two maximal OBUs')
                    if not s.ok and fits:
                        fails(I, 'PushBytes refuses bytes although there is room')
                one(I, ('PushBytes', ''), guarded(g), file_r)
        elif k == 'wfile':
            for n in (0, 3, 8, 16, 19, 24):
                for twice in (False, True):
                    def g(I):
                        w = Writer(M, I)
                        I.out, I.out_bad = [], I.free('writing fails')
                        I.out_open = I.free('the file is open')
                        given = I.free('there is a file')
                        bs = [(i * i + i // 3) % 2 for i in range(n)]
                        w.call(M.wu32, [number(bs), n], bs, 'writing')
                        f = Opt(given, Cell(I.fresh('std::fstream', 'file')) if given else None)
                        s = w.status(I.call_fn(M.wflush, w.o, [Cell(f)]))
                        good = n % 8 == 0 and (not given or (I.out_open and not I.out_bad))
                        if s.ok != good:
                            fails(I, 'flushing %d bits %s' % (n, 'succeeds although the bytes cannot be written' if s.ok else 'is refused'))
                        if not s.ok:
                            return
                        w.bits = []
                        w.check()
                        want = pack(bs)
                        if twice:
                            w.call(M.wu32, [0x5c, 8], [0, 1, 0, 1, 1, 1, 0, 0], 'writing')
                            if not w.status(I.call_fn(M.wflush, w.o, [Cell(f)])).ok:
                                fails(I, 'the second flush is refused')
                            want = want + [0x5c]
                        if given:
                            same(I, 'the number of bytes in the file', len(I.out), len(want))
                            for i, x in enumerate(want):
                                same(I, 'byte %d of the file' % i, I.out[i], x)
                    one(I, ('FlushAndWriteToFile', ''), guarded(g), file_w)
        elif k == 'wlit':
            n = item[1]
            for mx, f in ((32, M.wu32), (64, M.wu64)):
                # aligned: every value at once
                def g(I):
                    w = Writer(M, I)
                    bs = [var('d%d' % i, 0, 1) for i in range(mx)]
                    v = number(bs)
                    fits = 0 <= n <= mx and (n == 0 or I.decide(I.rel('<', v, 1 << n)))
                    for pre in range(2):
                        w.call(M.wu32, [0xa5, 8], [1, 0, 1, 0, 0, 1, 0, 1], 'writing a byte')
                    if w.call(f, [v, n], bs[mx - n:] if fits and n else [] if fits else None, 'writing %d bits' % n):
                        w.call(M.wu32, [0x0f, 4], [1, 1, 1, 1], 'writing four bits')
                    w.check()
                if n % 8 == 0 or not 0 <= n <= mx:
                    one(I, (f['n'], 'aligned'), guarded(g), file_w)
                    if not 0 <= n <= mx:
                        continue
                # any offset: three free bits in four backgrounds
                for off in range(8):
                    for bg in ('0', '1', '10', '110'):
                        def g(I):
                            w = Writer(M, I, cap=off)
                            base = [int(bg[i % len(bg)]) for i in range(n)]
                            free = sorted({0, n // 2, n - 1}) if n else []
                            bs = [var('d%d' % i, 0, 1) if i in free else base[i] for i in range(n)]
                            if off:
                                w.call(M.wu32, [(1 << off) - 1 if bg != '0' else 0, off], [int(bg != '0')] * off, 'writing %d bits' % off)
                            if w.call(f, [number(bs), n], list(bs), 'writing %d bits at bit %d' % (n, off)):
                                w.call(M.wu32, [1, 1], [1], 'writing a bit')
                                w.call(M.wu32, [0, 2], [0, 0], 'writing two bits')
                            w.check()
                        one(I, (f['n'], 'offset %d' % off), guarded(g), file_w)
                # too large by one bit anywhere above
                if 0 < n < mx:
                    def g(I):
                        w = Writer(M, I)
                        bs = [var('d%d' % i, 0, 1) for i in range(mx - n)]
                        w.call(M.wu32, [5, 3], [1, 0, 1], 'writing three bits')
                        if I.decide(I.rel('>', number(bs), 0)):
                            w.call(f, [scale(number(bs), 1 << n), n], None, 'writing a value that needs more than %d bits' % n)
                        w.check()
                    one(I, (f['n'], 'too large'), guarded(g), file_w)
        elif k == 'wmix':
            mixes(I, item[1])
        elif k == 'wleb':
            lebs(I, item[1:])

    def mixes(I, k):
        def go(g, name):
            one(I, (name, ''), guarded(g), file_w)
        if k[0] == 's' and k[1:].isdigit():
            n = int(k[1:])
            for off in (0, 3):
                for bg in (0, 1):
                    def g(I):
                        w = Writer(M, I)
                        if off:
                            w.call(M.wu32, [5, 3], [1, 0, 1], 'writing three bits')
                        free = {0, 1, n // 2, n - 1}
                        bs = [var('d%d' % i, 0, 1) if i in free else bg for i in range(n)]
                        w.call(M.ws[n], [add(number(bs[1:]), scale(bs[0], -(1 << (n - 1))))], list(bs), 'writing a signed value')
                        w.check()
                    go(g, M.ws[n]['n'])
            if n == 9:
                def g(I):
                    w = Writer(M, I)
                    v = var('value', -2**15, 2**15 - 1)
                    if I.decide(I.rel('<', v, -256)) or I.decide(I.rel('>', v, 255)):
                        w.call(M.ws[n], [v], None, 'writing a value outside [-256, 255]')
                        w.check()
                go(g, M.ws[n]['n'])
        elif k == 'bool':
            for off in range(9):
                def g(I):
                    w = Writer(M, I)
                    if off:
                        w.call(M.wu32, [0, off], [0] * off, 'writing')
                    b = var('flag', 0, 1)
                    w.call(M.wbool, [b], [b], 'writing a flag')
                    w.check()
                go(g, 'WriteBoolean')
        elif k == 'span':
            for off in (0, 1, 7, 8):
                for n in range(0, 5):
                    def g(I):
                        w = Writer(M, I)
                        if off:
                            w.call(M.wu32, [1, off], [0] * (off - 1) + [1], 'writing')
                        if off % 8:
                            bs = [var('d%d' % i, 0, 1) if i in (0, 8 * n - 1) else (i * 5 + i // 3) % 2 for i in range(8 * n)]
                        else:
                            bs = [var('d%d' % i, 0, 1) for i in range(8 * n)]
                        v = View(Vec('unsigned char', [Cell(x) for x in pack(bs)]), 0, n)
                        w.call(M.wspan, [v], bs, 'writing %d bytes at bit %d' % (n, off))
                        w.call(M.wu32, [3, 2], [1, 1], 'writing two bits')
                        w.check()
                    go(g, 'WriteUint8Span')
        elif k == 'str':
            for off in (0, 3):
                for s in ('', 'a', 'en-us', 'caf\udce9', 'x' * 126, 'x' * 127, 'x' * 128, 'x' * 129, 'a\0b', '\0', 'a\0'):
                    def g(I):
                        w = Writer(M, I)
                        if off:
                            w.call(M.wu32, [1, off], [0] * (off - 1) + [1], 'writing')
                        ok = len(s) <= 127 and '\0' not in s
                        bs = [int(x) for ch in s.encode('utf-8', 'surrogateescape') + b'\0' for x in format(ch, '08b')]
                        w.call(M.wstr, [s], bs if ok else None, 'writing the string %r' % s[:12])
                        if ok:
                            w.check()
                    go(g, 'WriteString')
        elif k == 'iso':
            def g(I):
                w = Writer(M, I)
                bs = [var('d%d' % i, 0, 1) for i in range(32)]
                v = number(bs)
                n = 1
                while n < 5 and not I.decide(I.rel('<', v, 1 << (7 * n))):
                    n += 1
                e = []
                pb = [0, 0, 0] + bs
                for j in range(n):
                    e += [int(j < n - 1)] + pb[35 - 7 * (n - j):35 - 7 * (n - j) + 7]
                w.call(M.wiso, [v], e, 'writing a %d-byte expanded size' % n)
                w.check()
            go(g, 'WriteIso14496_1Expanded')
        elif k == 'reset':
            def g(I):
                w = Writer(M, I)
                w.call(M.wu32, [5, 11], [0] * 8 + [1, 0, 1], 'writing')
                I.call_fn(M.wreset, w.o, [])
                w.bits = []
                w.check()
                w.call(M.wu32, [0, 3], [0] * 3, 'writing')
                w.call(M.wu32, [77, 9], [0, 0, 1, 0, 0, 1, 1, 0, 1], 'writing')
                w.check()
            go(g, 'Reset')

    def lebs(I, item):
        mode, size = item
        def g(I):
            w = Writer(M, I, (mode, size))
            good = mode == 0 or (mode == 1 and 1 <= size <= 8)
            if not isinstance(w.g, Obj):
                if good:
                    fails(I, 'no generator for a fixed size of %d bytes' % size)
                return
            if not good:
                fails(I, 'a generator for mode %d and a fixed size of %d bytes' % (mode, size))
            bs = [var('d%d' % i, 0, 1) for i in range(32)]
            v = number(bs)
            n = 1
            while n < 5 and not I.decide(I.rel('<', v, 1 << (7 * n))):
                n += 1
            fits = mode == 0 or n <= size
            n = n if mode == 0 else size
            pb = [0] * 24 + bs
            e = []
            for j in range(n):
                hi = 56 - 7 * j
                e += [int(j < n - 1)] + pb[hi - 7:hi]
            if w.call(M.wleb, [v], e if fits else None, 'writing a value in %s bytes' % n):
                w.check()
        one(I, ('WriteUleb128', 'mode %d, size %d' % (mode, size)), guarded(g), M.lebu['f'])
        if not (mode == 0 or (mode == 1 and 1 <= size <= 8)):
            return
        for neg in (0, 1):
            def g(I):
                w = Writer(M, I, (mode, size))
                if not isinstance(w.g, Obj):
                    return
                bs = [var('d%d' % i, 0, 1) for i in range(31)]
                v = add(number(bs), -neg << 31)
                n = 1
                while n < 5 and not (I.decide(I.rel('>=', v, -(1 << (7 * n - 1)))) and I.decide(I.rel('<', v, 1 << (7 * n - 1)))):
                    n += 1
                fits = mode == 0 or n <= size
                n = n if mode == 0 else size
                pb = [neg] * 25 + bs
                out = Cell(Vec('unsigned char', []))
                s = w.status(I.call_fn(M.lebs, w.g, [Cell(v), out]))
                if s.ok != fits:
                    fails(I, 'a signed value %s in %d bytes' % ('is refused although it fits' if fits else 'is accepted although it does not fit', n))
                if fits:
                    same(I, 'the size of a signed encoding', I.size(out.v), n)
                    for j in range(n):
                        hi = 56 - 7 * j
                        same(I, 'byte %d of a signed encoding' % j, I.at(out.v, j), number([int(j < n - 1)] + pb[hi - 7:hi]))
            one(I, ('Sleb128ToUint8Vector', 'mode %d, size %d' % (mode, size)), guarded(g), M.lebs['f'])

    items = read_items() + write_items()
    items.sort(key=lambda x: repr(x)[::-1])
    c.fork(items, work)
    c.require('partitions', 3000)
    return c
