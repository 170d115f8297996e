"""IAMF byte streams with symbolic payloads, and the analysis of the demultiplexer over them."""
import absx, absmodels, spec
from absval import *
from absval import T

NS = 'iamf_tools::'


class Bad(Exception):
    pass


def leb(v):
    o = []
    while True:
        b = v & 127
        v >>= 7
        o.append(b | (128 if v else 0))
        if not v:
            return o


def obu(t, payload, red=0, trim=None):
    h = leb(trim[0]) + leb(trim[1]) if trim else []
    return [t << 3 | (4 if red else 0) | (2 if trim else 0)] + leb(len(h) + len(payload)) + h + list(payload)


def ia(red=0, p1=0, p2=0):
    return obu(31, [105, 97, 109, 102, p1, p2], red)


def codec(id=1, n=8, red=0, rate=48000, name=b'ipcm'):
    return obu(0, leb(id) + list(name) + leb(n) + [0, 0, 1, 16] + list(rate.to_bytes(4, 'big')), red)


def demixing(pid, n=8, rate=48000, mode=0, w=0):
    return leb(1) + leb(pid) + leb(rate) + [0] + leb(n) + leb(n) + [mode << 5, w << 4]


def recon(pid, n=8, rate=48000):
    return leb(2) + leb(pid) + leb(rate) + [0] + leb(n) + leb(n)


def element(id, cid, subs, params=(), layers=((1, 1, 1),), red=0, kind=0):
    p = leb(id) + [kind << 5] + leb(cid) + leb(len(subs)) + sum((leb(s) for s in subs), []) + leb(len(params)) + sum((list(x) for x in params), [])
    p += [len(layers) << 5]
    for l, s, c, *fl in layers:
        p += [l << 4 | (4 if fl else 0), s, c]
    return obu(1, p, red)


def mix_gain(pid, rate=48000):
    return leb(pid) + leb(rate) + [128] + [0, 0]


def mix(id, elements, red=0, pid=100, *more):
    parts = (elements,) + more
    p = leb(id) + [0] + leb(len(parts))
    for es in parts:
        p += leb(len(es))
        for e in es:
            p += leb(e) + [0] + leb(0) + mix_gain(pid)
        p += mix_gain(pid) + leb(1) + [0x80] + [0, 0, 0, 0, 0]
    return obu(2, p, red)


def delimiter(red=0):
    return obu(4, [], red)


def frame(sub, payload, explicit=False, trim=None):
    if sub < 18 and not explicit:
        return obu(6 + sub, payload, 0, trim)
    return obu(5, leb(sub) + list(payload), 0, trim)


def block(pid, payload):
    return obu(3, leb(pid) + list(payload))


def obj(v):
    while isinstance(v, (Cell, Ptr)):
        v = v.v if isinstance(v, Cell) else (v.cell.v if v.cell is not None else None)
    return v


class Lib:
    def __init__(self, P):
        self.P = P
        self.fns = {}
        for f in P.fn.values():
            if f.get('b') and '/tests/' not in f['f'] and not f['f'].startswith('/') and f['q'].startswith(NS):
                self.fns.setdefault(f['q'][len(NS):], []).append(f)

    def fn(self, q, np=None):
        r = [f for f in self.fns.get(q, []) if np is None or len(f['p']) == np]
        if not r:
            raise absx.Unsupported('no function %s' % q)
        return r[0]

    def call(self, I, q, this, *a):
        return obj(I.call_fn(self.fn(q), this, [x if isinstance(x, Cell) else Cell(x) for x in a]))

    def memory(self, I, data):
        v = Vec('unsigned char', [Cell(x) for x in data])
        return self.call(I, 'MemoryBasedReadBitBuffer::CreateFromSpan', None, View(v, 0, len(data)))

    def stream(self, I):
        return self.call(I, 'StreamBasedReadBitBuffer::Create', None, 1 << 16)

    def push(self, I, rb, data):
        v = Vec('unsigned char', [Cell(x) for x in data])
        if not good(self.call(I, 'StreamBasedReadBitBuffer::PushBytes', rb, View(v, 0, len(data)))):
            raise absx.Unsupported('bytes refused')

    def num(self, I, q, rb):
        n = I.concrete(self.call(I, q, rb))
        if not is_num(n):
            raise absx.Unsupported(q)
        return int(n)


def good(r):
    if isinstance(r, SOr):
        r = r.st
    if not isinstance(r, StatusV) or not isinstance(r.ok, bool):
        raise absx.Unsupported('status')
    return r.ok


def flag(I, cell):
    v = cell.v
    if v is UNINIT:
        raise Bad('a flag is not set')
    v = I.concrete(v)
    if not is_num(v) and not isinstance(v, bool):
        raise absx.Unsupported('flag')
    return bool(v)


def same(I, a, b):
    if is_num(a) and is_num(b):
        return a == b
    if not is_num(a) and not is_num(b) and getattr(a, 'id', 0) == getattr(b, 'id', 1):
        return True
    r = I.rel('==', a, b)
    return r is True or (isinstance(r, B) and I.facts.truth(r) is True)


def ints(I, vec):
    n = I.concrete(I.size(vec))
    if not is_num(n):
        raise absx.Unsupported('size')
    return [I.at(vec, i).v for i in range(int(n))]


def entries(m):
    return [(k, cell.v.f['second'].v) for k, cell in m.entries if cell is not absmodels.ABSENT]


def decide(c, P, where, key, scenario, models=None, max_paths=60, steps=6000000, order=0):
    """One obligation: the scenario (an abstract run) ends without Bad."""
    I = absx.Interp(P, K=4, models=models, max_steps=steps)
    I.deadline = c.t0 + 500
    I.hash_order = order
    und, bad, why = 0, None, None

    def run(I):
        try:
            scenario(I)
        except Bad as e:
            return str(e)
        except absx.Abort as e:
            return 'terminates the process (%s)' % e
        except absx.Throw as e:
            return 'throws (%s)' % e
        ev = [e for e in I.events if e[0] in ('oob', 'div0', 'fp-ub', 'null', 'sovf', 'uaf')]
        if ev:
            return 'undefined behaviour (%s)' % ', '.join(str(x) for x in ev[0][:3])
        return None
    for o, t in I.explore(run, max_paths):
        if o != 'ok':
            und += 1
            why = str(t)[:120]
            continue
        if t:
            if spec.feasible(I):
                bad = t
                break
            und += 1
    c.oblige(bad is None)
    c.count('sequences')
    if bad:
        c.violation(key, where['f'], where['l'], bad)
    if und:
        c.count('undecided', und)
        d = c.notes.setdefault('undecided', {})
        d[why or 'infeasible'] = d.get(why or 'infeasible', 0) + 1
    return bad
