"""The streaming decoder hands out every decoded unit once, in order, whatever the calls."""
import itertools
import check, db, ir, absx, absmodels, spec
from absval import *
from contract import *

RULE = ('abstract interpretation of the decoder API over every bounded call history (data in any pieces, output buffers too small or large enough, end of '
        'data, reset), with the OBU processor summarised as a source of temporal units: what is written is the units of the stream, each once, in order, in '
        'the requested sample type and channel order; a refused call changes nothing; calls out of turn are refused')

NS = 'iamf_tools::api::'
OP = 'iamf_tools::ObuProcessor::'
D, U = 3, 2                     # bytes of the descriptors and of one temporal unit
SWAP = [0, 1, 2, 3, 6, 7, 4, 5]
LAYOUTS = {0: list(range(2)), 1: list(range(6)), 8: SWAP, 9: SWAP + [8, 9, 10, 11], 10: SWAP + [8, 9], 12: [0]}
T_ = 2                          # ticks of a unit


def value(k, ch, t):
    """The sample of a unit: a fraction the 16 bit format can hold."""
    return ((k * 37 + ch * 5 + t * 3 + 1) % 127 - 60) / 128.0


def pcm(v, size):
    x = int(v * 2 ** 31) & (2 ** 32 - 1)
    return [(x >> s) & 255 for s in range(32 - 8 * size, 32, 8)]


class World:
    """The stream and what the summarised OBU processor knows."""
    def __init__(self, layout, nch, faults):
        self.layout, self.nch, self.faults = layout, nch, faults
        self.created = []
        self.procs = {}
        self.live = []


def run():
    P = db.load()
    c = check.Check('C16', RULE, ['at most %d calls per history, streams of at most 3 units' % 6])
    fns = {}
    for f in P.fn.values():
        if f.get('b') and '/tests/' not in f['f'] and not f['f'].startswith('/') and (f['q'].startswith(NS + 'IamfDecoder') or 'ReadBitBuffer::' in f['q']):
            fns.setdefault(f['q'].split('::', 1)[1], []).append(f)

    def fn(q):
        r = fns.get(q)
        if not r:
            raise absx.Unsupported('no function %s' % q)
        return r[0]
    LT = {x['n']: x['t'] for r in P.rec.values() if r['q'] == 'iamf_tools::Layout' for x in r['fs']}
    OTU = [r for r in P.rec.values() if r['q'] == 'iamf_tools::ObuProcessor::OutputTemporalUnit']
    SAFE = [0]

    def mk_layout(I, k):
        o = I.fresh('iamf_tools::Layout', 'layout')
        v = I.fresh(LT['specific_layout'], 'specific')
        o.f['layout_type'] = Cell(3 if k == 14 else 2)
        s = I.fresh('iamf_tools::' + ('LoudspeakersReservedOrBinauralLayout' if k == 14 else 'LoudspeakersSsConventionLayout'), 'ss')
        for x in list(s.f):
            s.f[x] = Cell(k if x == 'sound_system' else 0)
        if k != 14:
            s.f['sound_system'] = Cell(k)
        want = [i for i, x in enumerate(v.alts) if x.endswith('LoudspeakersReservedOrBinauralLayout' if k == 14 else 'LoudspeakersSsConventionLayout')]
        o.f['specific_layout'] = Cell(Variant(v.alts, want[0], Cell(s)))
        return o

    # -- the summarised OBU processor
    def rd(I, q, buf, *a):
        f = fn(q)
        r = I.call_fn(f, buf, list(a))
        return r.v if isinstance(r, Cell) else r

    def take(I, buf, n):
        """n bytes of the buffer, or None when there are not that many."""
        av = I.concrete(rd(I, 'ReadBitBuffer::NumBytesAvailable', buf))
        if not is_num(av):
            raise absx.Unsupported('bytes available')
        if av < n:
            return None
        v = Vec('unsigned char', [Cell(0) for _ in range(n)])
        r = rd(I, 'ReadBitBuffer::ReadUint8Span', buf, Cell(View(v, 0, n)))
        return [I.concrete(I.at(v, i).v) for i in range(n)]

    def obj(v):
        while isinstance(v, (Cell, Ptr)):
            v = v.v if isinstance(v, Cell) else v.cell
        return v

    def create(I, n, fr, o, a):
        w = I.w
        ver, mix, lay, exact, buf, trim = [I.ev(x, fr) for x in a[:6]]
        ins = I.lv(a[6], fr)
        ins.v = False
        w.created.append((ver, mix, lay, exact, trim))
        b = obj(buf)
        start = rd(I, 'ReadBitBuffer::Tell', b)
        d = take(I, b, D)
        if d is None:
            ins.v = True
            return None
        left = I.concrete(rd(I, 'ReadBitBuffer::NumBytesAvailable', b))
        if d != [200, 201, 202] or 'descriptors' in w.faults or (exact and left):
            return None
        p = Obj('iamf_tools::ObuProcessor')
        w.procs[id(p)] = {'buf': b, 'cur': None, 'left': [], 'o': p}
        return Ptr(Cell(p))

    def process(I, n, fr, o, a):
        w = I.w
        p = w.procs[id(obj(I.ev(o, fr) if o[0] != 'un' else I.lv(o, fr)))]
        eos = I.decide(I.ev(a[0], fr))
        out, cont = I.lv(a[1], fr), I.lv(a[2], fr)
        while True:
            u = take(I, p['buf'], U)
            if u is None:
                cont.v = False
                if eos and p['cur'] is not None:
                    k, p['cur'] = p['cur'], None
                    break
                return StatusV(True)
            if u[1] != u[0] + 100 or ('unit', u[0]) in w.faults:
                return StatusV(False, 3, 'corrupt unit')
            k, p['cur'] = p['cur'], u[0]
            if k is not None:
                break
        t = Obj(OTU[0]['k'])
        for x in OTU[0]['fs']:
            t.f[x['n']] = Cell(I.default(x['t']))
        t.f['output_timestamp'] = Cell(k)
        if ('empty', k) not in w.faults:
            t.f['output_audio_frames'] = Cell(Vec('int', [Cell(k)]))
        t.f['output_parameter_blocks'] = Cell(Vec('int', [Cell(k)]))
        out.v = Opt(True, Cell(t))
        return StatusV(True)

    def render(I, n, fr, o, a):
        w = I.w
        ts, pb, af = I.concrete(I.ev(a[0], fr)), I.ev(a[1], fr), I.lv(a[2], fr).v
        if not (isinstance(pb, Vec) and isinstance(af, Vec)):
            raise absx.Unsupported('unit lists')
        ks = {I.concrete(I.at(v, i).v) for v in (pb, af) for i in range(int(I.concrete(I.size(v))))}
        for ch in w.live:           # what was rendered before is overwritten
            for x in ch.items:
                x.v = 77.0
        w.live = []
        if int(I.concrete(I.size(af))) == 0:
            return SOr(StatusV(True), Cell(View(Vec('absl::Span<const double>', []), 0, 0)))
        if ks != {ts}:
            return StatusV(False, 3, 'mixed units')
        if ('render', ts) in w.faults:
            return SOr(StatusV(False, 3, 'render'), None)
        chs = []
        for ch in range(w.nch):
            nt = 0 if ('trimmed', ts) in w.faults else T_
            v = Vec('double', [Cell(2.5e300 * 1e300 - 2.5e300 * 1e300 if ('nan', ts) in w.faults else value(ts, ch, t)) for t in range(nt)])
            w.live.append(v)
            chs.append(Cell(View(v, 0, nt)))
        return SOr(StatusV(True), Cell(View(Vec('absl::Span<const double>', chs), 0, len(chs))))

    def push(I, n, fr, o, a):
        b = obj(I.ev(o, fr))
        s = b.f.get('source_vector_') if isinstance(b, Obj) else None
        x = I.ev(a[0], fr)
        if s is not None and isinstance(s.v, Vec):
            m = add(I.size(s.v), I.size(x))
            if is_num(m) and m > I.cap:
                return StatusV(False, 3, 'buffer full')
        return NotImplemented

    models = {OP + 'CreateForRendering': create, OP + 'ProcessTemporalUnit': process, OP + 'RenderTemporalUnitAndMeasureLoudness': render,
              'iamf_tools::StreamBasedReadBitBuffer::PushBytes': push,
              OP + 'GetOutputMixPresentationId': lambda I, n, fr, o, a: SOr(StatusV(False, 3, 'id'), None) if 'id' in I.w.faults else SOr(StatusV(True), Cell(42)),
              OP + 'GetOutputLayout': lambda I, n, fr, o, a: SOr(StatusV(False, 3, 'layout'), None) if 'layout' in I.w.faults else SOr(StatusV(True), Cell(mk_layout(I, I.w.layout))),
              OP + 'GetOutputSampleRate': lambda I, n, fr, o, a: SOr(StatusV(True), Cell(48000)),
              OP + 'GetOutputFrameSize': lambda I, n, fr, o, a: SOr(StatusV(True), Cell(960)),
              OP + '~ObuProcessor': lambda I, n, fr, o, a: None}

    class Bad(Exception):
        pass

    def ok(r):
        r = obj(r)
        if isinstance(r, Obj) and 'success' in r.f:
            v = r.f['success'].v
            if v in (True, False, 0, 1):
                return bool(v)
        raise absx.Unsupported('status %r' % (r,))

    def history(mode, ops, layout, nch, size, android, faults, cap):
        """mode: 'desc' | 'stream'; ops: list of call tuples."""
        def scenario(I):
            I.w = w = World(layout, nch, faults)
            I.cap = cap
            S = I.fresh(NS + 'IamfDecoder::Settings', 'settings')
            rm = I.fresh(NS + 'RequestedMix', 'mix')
            rm.f['mix_presentation_id'], rm.f['output_layout'] = Cell(Opt(True, Cell(var('mix_id', 0, 2 ** 32 - 1)))), Cell(Opt(True, Cell(layout)))
            tr = I.fresh(NS + 'TrimmingSettings', 'trim')
            tr.f['trim_beginning'], tr.f['trim_end'] = Cell(var('trim_beginning', 0, 1)), Cell(var('trim_end', 0, 1))
            for k, v in (('requested_mix', rm), ('channel_ordering', int(android)), ('requested_output_sample_type', {2: 1, 4: 2}.get(size, 0)), ('trimming_settings', tr)):
                S.f[k] = Cell(v)
            vt = [x['t'] for r in P.rec.values() if r['q'] == NS + 'IamfDecoder::Settings' for x in r['fs'] if x['n'] == 'requested_profile_versions'][0]
            S.f['requested_profile_versions'] = Cell(I.default(vt))
            for v in (0, 2):
                absmodels.map_put(I, S.f['requested_profile_versions'].v, v, v)
            dec = Cell(None)
            pushed = []             # bytes given to the decoder
            state = {'eos': False, 'pend': None}
            outs = []               # units handed out
            log = []

            def check_created(mixid=None, lay=None):
                ver, mix, la, exact, trim = w.created[-1]
                vs = obj(ver)
                if isinstance(vs, MapV) and sorted(I.concrete(e[0]) for e in vs.entries) != [0, 2]:
                    raise Bad('the requested profiles are not the ones looked for')
                m = obj(mix)
                if not isinstance(m, Opt) or not m.has or not same(m.cell.v, var('mix_id', 0, 2 ** 32 - 1) if mixid is None else mixid):
                    raise Bad('the requested mix presentation is not the one looked for')
                la = obj(la)
                if not isinstance(la, Opt) or not la.has:
                    raise Bad('the requested layout is not looked for')
                lo = la.cell.v
                ss = lo.f['specific_layout'].v if isinstance(lo, Obj) else None
                want = layout if lay is None else lay
                if isinstance(ss, Variant) and want != 14:
                    q = ss.cell.v.f.get('sound_system')
                    if q is None or not same(q.v, want):
                        raise Bad('the requested layout is not the one looked for')
                t = obj(trim)
                for k in ('trim_beginning', 'trim_end'):
                    if not same(t.f[k].v, tr.f[k].v):
                        raise Bad('the setting %s is not passed on' % k)
                if bool(exact) != (mode == 'desc'):
                    raise Bad('whether the descriptors are complete is passed on wrongly')

            def same(a, b):
                return (a is b) or (is_num(a) and is_num(b) and a == b) or (not is_num(a) and not is_num(b) and getattr(a, 'id', 0) == getattr(b, 'id', 1)) or I.rel('==', a, b) is True

            def complete_units():
                n = (len(pushed) - (0 if mode == 'desc' else D)) // U
                return [pushed[(0 if mode == 'desc' else D) + i * U] for i in range(max(n, 0))]

            def reached():
                return mode == 'desc' or len(pushed) >= D

            def call(name, *cells):
                d = obj(dec.v)
                if not isinstance(d, Obj):
                    raise Bad('there is no decoder after a successful creation')
                return I.call_fn(fn('api::IamfDecoder::' + name), d, list(cells))

            def view(bs):
                v = Vec('unsigned char', [Cell(b) for b in bs])
                return Ptr(absx.ElemRef(I, v, 0)) if bs else None

            nb = nch * T_ * size
            perm = LAYOUTS.get(layout, list(range(nch))) if android else list(range(nch))

            def want_bytes(k):
                return [b for t in range(0 if ('trimmed', k) in w.faults else T_) for ch in range(nch) for b in pcm(value(k, perm[ch], t), size)]

            def get(room):
                buf = Vec('unsigned char', [Cell(250) for _ in range(nb + 2)])
                wr = Cell(var('old_written', 0, 999))
                avail = I.call_fn(fn('api::IamfDecoder::IsTemporalUnitAvailable'), obj(dec.v), [])
                avail = bool(I.concrete(obj(avail)) if not isinstance(obj(avail), bool) else obj(avail))
                good = ok(call('GetOutputTemporalUnit', Cell(Ptr(absx.ElemRef(I, buf, 0))), Cell(room), wr))
                n = I.concrete(wr.v)
                if not is_num(n):
                    raise Bad('the number of bytes written is not set')
                bs = [I.concrete(I.at(buf, i).v) for i in range(nb + 2)]
                if any(b != 250 for b in bs[int(n):]) and (good or n):
                    raise Bad('writes past the bytes it reports')
                if n > room:
                    raise Bad('writes more than the output buffer holds')
                if not avail:
                    if n or any(b != 250 for b in bs):
                        raise Bad('writes output when no unit is available')
                    return None, good
                if n == 0 and not good:
                    if any(b != 250 for b in bs) and not w.faults:
                        raise Bad('touches the output buffer of a refused call')
                    return None, good
                exp = [k for k in complete_units()]
                i = len(outs)
                exp = [k for k in exp if ('empty', k) not in w.faults]
                if i >= len(exp):
                    raise Bad('hands out more units than were given')
                if bs[:int(n)] != want_bytes(exp[i]):
                    raise Bad('unit %d of the stream is not what is handed out next (%s)' % (i, 'another unit' if any(bs[:int(n)] == want_bytes(x) for x in exp) else 'other samples or channels'))
                outs.append(exp[i])
                return n, good

            try:
                if mode == 'desc':
                    good = ok(I.call_fn(fn('api::IamfDecoder::CreateFromDescriptors'), None, [Cell(S), Cell(view([200, 201, 202])), Cell(D), dec]))
                    if good != (not w.faults & {'descriptors', 'id', 'layout'}):
                        raise Bad('creation from descriptors %s' % ('succeeds' if good else 'fails'))
                    if not good:
                        return None
                    check_created()
                else:
                    if not ok(I.call_fn(fn('api::IamfDecoder::Create'), None, [Cell(S), dec])):
                        raise Bad('creation fails')
                for op_ in ops:
                    log.append(op_[0] if len(op_) == 1 else '%s(%s)' % (op_[0], len(op_[1]) if isinstance(op_[1], list) else op_[1]))
                    if op_[0] == 'decode':
                        n0 = len(pushed)
                        got = ok(call('Decode', Cell(view(op_[1])), Cell(len(op_[1]))))
                        if state['eos']:
                            if got:
                                raise Bad('Decode is accepted after the end was signalled')
                            continue
                        pushed += op_[1]
                        if w.faults & {'descriptors', 'id', 'layout'} and len(pushed) >= D:
                            if got:
                                raise Bad('invalid descriptors are reported as success')
                            return None
                        if not w.faults and not got:
                            raise Bad('Decode refuses valid data')
                        if not got:
                            return None
                        if n0 < D <= len(pushed) and mode == 'stream':
                            check_created()
                    elif op_[0] == 'get':
                        _, good = get(nb if op_[1] == 'ok' else nb - 1 if op_[1] == 'small' else 0)
                        if not good and op_[1] == 'ok':
                            if not w.faults:
                                raise Bad('GetOutputTemporalUnit fails with enough room')
                            return None
                    elif op_[0] == 'drain':
                        for _ in range(8):
                            n, good = get(nb)
                            if not good:
                                if not w.faults:
                                    raise Bad('GetOutputTemporalUnit fails with enough room')
                                if not w.faults & {('nan', k) for k in range(9)} and any(x[0] not in ('empty', 'trimmed') for x in w.faults):
                                    return None
                                if not any(x[0] in ('nan',) for x in w.faults):
                                    raise Bad('GetOutputTemporalUnit fails with enough room')
                                return None
                            if n is None:
                                break
                        if w.faults and any(x[0] not in ('empty', 'trimmed') for x in w.faults):
                            continue
                        full = [k for k in complete_units() if ('empty', k) not in w.faults]
                        if not any(x[0] == 'empty' for x in w.faults) and (mode == 'desc' or state['eos']) and reached() and outs != full:
                            raise Bad('%d of %d units are never handed out' % (len(full) - len(outs), len(full)))
                    elif op_[0] == 'end':
                        got = ok(call('SignalEndOfDecoding'))
                        state['eos'] = True
                        if not got and not w.faults:
                            raise Bad('SignalEndOfDecoding fails')
                        if not got:
                            return None
                    elif op_[0] in ('reset', 'newmix'):
                        nc = len(w.created)
                        sel = Cell(I.fresh(NS + 'SelectedMix', 'selected'))
                        if op_[0] == 'reset':
                            got = ok(call('Reset'))
                        else:
                            r2 = I.fresh(NS + 'RequestedMix', 'mix2')
                            r2.f['mix_presentation_id'], r2.f['output_layout'] = Cell(Opt(True, Cell(7))), Cell(Opt(True, Cell(1)))
                            got = ok(call('ResetWithNewMix', Cell(r2), sel))
                        if mode != 'desc':
                            if got:
                                raise Bad('%s is accepted by a decoder without given descriptors' % log[-1])
                            continue
                        if not got:
                            raise Bad('%s fails' % log[-1])
                        if len(w.created) != nc + 1:
                            raise Bad('%s keeps the old state' % log[-1])
                        check_created(*((7, 1) if op_[0] == 'newmix' else ()))
                        if op_[0] == 'newmix':
                            s = obj(sel)
                            if I.concrete(s.f['mix_presentation_id'].v) != 42 or I.concrete(s.f['output_layout'].v) != layout:
                                raise Bad('the selected mix is reported wrongly')
                        pushed.clear()
                        outs.clear()
                        state['eos'] = False
                    elif op_[0] == 'query':
                        done = reached() and not w.faults & {'descriptors', 'id', 'layout'}
                        g = obj(call('IsDescriptorProcessingComplete'))
                        if bool(g) != done:
                            raise Bad('IsDescriptorProcessingComplete is %s' % bool(g))
                        for name, t, wantv in (('GetSampleRate', 'unsigned int', 48000), ('GetFrameSize', 'unsigned int', 960), ('GetNumberOfOutputChannels', 'int', nch)):
                            o_ = Cell(12345)
                            got = ok(call(name, o_))
                            if got != done or (done and I.concrete(o_.v) != wantv):
                                raise Bad('%s %s' % (name, 'reports %s' % show(o_.v) if got else 'fails'))
                        sel = Cell(I.fresh(NS + 'SelectedMix', 'selected'))
                        got = ok(call('GetOutputMix', sel))
                        if got != done:
                            raise Bad('GetOutputMix %s' % ('succeeds without descriptors' if got else 'fails'))
                        if done and (I.concrete(obj(sel).f['mix_presentation_id'].v) != 42 or I.concrete(obj(sel).f['output_layout'].v) != layout):
                            raise Bad('GetOutputMix reports another mix')
                        if I.concrete(obj(call('GetOutputSampleType'))) != {2: 1, 4: 2}.get(size, 0):
                            raise Bad('GetOutputSampleType reports another type')
            except Bad as e:
                return '%s after %s' % (e, ', '.join(log) or 'creation')
            except absx.Abort as e:
                return 'the process is terminated (%s) after %s' % (e, ', '.join(log) or 'creation')
            except absx.Throw as e:
                return 'throws (%s) after %s' % (e, ', '.join(log) or 'creation')
            ev = events_of(I)
            if ev:
                return 'undefined behaviour (%s) after %s' % (', '.join(str(x) for x in ev[0][:3]), ', '.join(log))
            return None
        return scenario

    anchor = fns.get('api::IamfDecoder::GetOutputTemporalUnit', [None])[0]
    if anchor is None:
        c.require('functions', 1)
        return c
    file, line = loc(anchor)
    seen = set()

    def go(mode, ops, layout=0, nch=2, size=4, android=False, faults=(), cap=1 << 20):
        I = absx.Interp(P, K=64, models=models, max_steps=2000000)
        I.deadline = c.t0 + 500
        und = n = 0
        for o, t in I.explore(history(mode, ops, layout, nch, size, android, frozenset(faults), cap), 200):
            n += 1
            if o != 'ok':
                und += 1
                if c.notes.get('why') is None:
                    c.note('why', '%s %s' % (o, str(t)[:200]))
            elif t:
                c.violation('%s|decoder' % file, file, line, 'IamfDecoder (%s%s, layout %d): %s' % (
                    'created from descriptors' if mode == 'desc' else 'standalone', ', faults %s' % sorted(map(str, faults)) if faults else '', layout, t))
                return
        c.count('histories')
        c.count('partitions', n)
        c.oblige(not (n and c.violations))
        if und:
            c.count('undecided', und)

    DESC = [200, 201, 202]
    data = [b for k in range(1, 4) for b in (k, k + 100)]
    jobs = []

    def chunks(bs, most):
        for m in range(1, most + 1):
            for cut in itertools.combinations(range(0, len(bs) + 1), m - 1):
                e = [0] + list(cut) + [len(bs)]
                yield [bs[a:b] for a, b in zip(e, e[1:])]

    BETWEEN = {'nothing': [], 'get': [('get', 'ok')], 'drain': [('drain',)], 'small': [('get', 'small'), ('get', 'ok')], 'small drain': [('get', 'none'), ('get', 'small'), ('drain',)],
               'query': [('query',), ('get', 'small')]}
    END = [('end',), ('get', 'small'), ('drain',), ('decode', [9, 109]), ('get', 'ok'), ('query',)]
    for mode, bs in (('desc', data), ('stream', DESC + data)):
        for ch in chunks(bs, 3):
            for pol in BETWEEN:
                if len(ch) == 3 and pol in ('query', 'small drain') and not (len(ch[0]) + len(ch[1])) % 2:
                    continue
                ops = [('query',)] if pol == 'query' else []
                for x in ch:
                    ops += [('decode', x)] + BETWEEN[pol]
                jobs.append((mode, ops + END, {}))
        # what is asked of the output, for every layout and sample type
        for lay in list(range(14)) + [14]:
            nch = [2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16, 2][lay]
            for size in (2, 4):
                for android in (False, True):
                    if lay not in LAYOUTS and android and lay != 14 and lay != 3 and lay != 11:
                        continue
                    for ops in ([('decode', bs), ('end',), ('drain',)], [('query',), ('decode', bs[:5]), ('query',), ('decode', bs[5:]), ('drain',), ('end',), ('drain',)]):
                        jobs.append((mode, ops, dict(layout=lay, nch=nch, size=size, android=android)))
        # a stream longer than the input buffer
        long = [b for k in range(1, 60) for b in (k, k + 100)]
        ops = [('decode', DESC)] if mode == 'stream' else []
        for i in range(0, len(long), 6):
            ops += [('decode', long[i:i + 6]), ('drain',)]
        jobs.append((mode, ops + [('end',), ('drain',)], dict(cap=48)))
        # units that fail or have nothing to show
        for f in ('unit', 'render', 'empty', 'trimmed', 'nan'):
            for k in (1, 2, 3):
                for android, lay, nch in ((False, 0, 2), (True, 9, 12), (True, 0, 2)):
                    if nch == 12 and f == 'nan':
                        continue
                    for ops in ([('decode', bs), ('drain',), ('end',), ('drain',)], [('decode', bs[:4]), ('get', 'ok'), ('decode', bs[4:]), ('end',), ('drain',)],
                                [('decode', bs[:3]), ('decode', bs[3:]), ('drain',), ('decode', []), ('drain',)]):
                        jobs.append((mode, ops, dict(faults=((f, k),), android=android, layout=lay, nch=nch)))
        for f in ('descriptors', 'id', 'layout'):
            jobs.append((mode, [('decode', bs[:2]), ('query',), ('decode', bs[2:]), ('query',)], dict(faults=(f,))))
        # starting again
        for r in ('reset', 'newmix'):
            for before in ([], [('decode', bs[:3])], [('decode', bs)], [('decode', bs), ('get', 'ok')], [('decode', bs), ('drain',), ('end',)], [('decode', bs), ('end',)],
                           [('decode', bs), ('drain',), (r,), ('decode', bs[:2])]):
                for android, lay, nch in ((False, 0, 2), (True, 9, 12)):
                    after = [('query',), ('get', 'ok')]
                    if mode == 'desc':
                        again = [b for k in range(5, 8) for b in (k, k + 100)]
                        after += [('decode', again[:3]), ('get', 'ok'), ('decode', again[3:]), ('drain',), ('end',), ('drain',)]
                    jobs.append((mode, before + [(r,)] + after, dict(android=android, layout=lay, nch=nch)))
    c.fork(jobs, lambda j: None if c.enough() else go(j[0], j[1], **j[2]))
    c.require('histories', 400)
    return c
