"""Temporal units hold what belongs together."""
import itertools
import os
import check, db, ir, absx, absmodels, spec
from absval import *
from absval import T
from contract import *
import demux
from demux import *

RULE = ('abstract interpretation of the demultiplexer and the timing module over sequences of OBUs (typestate; payloads symbolic): every frame and parameter block '
        'is handed out in exactly one temporal unit, with those of the same time, in order, at contiguous timestamps, however the data is cut into pieces')


THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


def run():
    P = db.load()
    only = os.environ.get('C09_ONLY')
    c = check.Check('C09', RULE, ['at most 3 temporal units of at most 4 OBUs, one redundant or unknown OBU in between'])
    L = Lib(P)

    # ---- the demultiplexer
    N = 8
    CONF = {
        'one substream': (codec() + element(10, 1, [0]), [0], []),
        'two substreams': (codec() + element(10, 1, [3, 40], layers=((0, 1, 0), (1, 1, 0))), [3, 40], []),
        'two elements': (codec() + element(10, 1, [300]) + element(11, 1, [17]) + mix(5, [10, 11]), [300, 17], []),
        'de-mixing': (codec() + element(10, 1, [0, 1], params=[demixing(70)], layers=((0, 1, 0), (1, 1, 0))), [0, 1], [70]),
    }

    def pay(k, s):
        return [var('payload_%d_%d_%d' % (k, s, i), 0, 255) for i in range(2 if (k + s) % 2 else 3)]

    def units(conf, n, order, td):
        """[(bytes, [substreams and payloads], [parameter ids])]"""
        _, subs, params = CONF[conf]
        out = []
        for k in range(n):
            obus = []
            if td == 'all' or (td == 'odd' and k % 2):
                obus.append((delimiter(), None))
            for p in params:
                if order != 2 or k != 1:
                    obus.append((block(p, [((k * 3) % 7 if (k * 3) % 7 != 3 else 2) << 5]), ('p', p)))
            for s in (subs if (order + k * (order == 2)) % 2 == 0 else subs[::-1]):
                obus.append((frame(s, pay(k, s), explicit=(k + s) % 3 == 0), ('f', s, pay(k, s))))
            out.append(obus)
        return out

    def demux_run(I, conf, obus, cuts, eos, tail=None):
        """Feeds the bytes in pieces; returns the units handed out (frames, blocks, timestamp) per call history."""
        head = ia() + CONF[conf][0]
        data = [b for o, _ in obus for b in o]
        rb = L.stream(I)
        pts = [0] + sorted(x for x in cuts if 0 < x < len(data)) + [len(data)]
        L.push(I, rb, head + data[:pts[1]] if len(data) else head)
        ins = Cell(UNINIT)
        proc = L.call(I, 'ObuProcessor::Create', None, 0, Ptr(Cell(rb)), ins)
        k = 1
        while not isinstance(proc, Obj):
            if not flag(I, ins):
                raise Bad('the descriptors of the stream are refused')
            k += 1
            if k >= len(pts):
                raise Bad('the descriptors of the stream are never complete')
            L.push(I, rb, data[pts[k - 1]:pts[k]])
            ins = Cell(UNINIT)
            proc = L.call(I, 'ObuProcessor::Create', None, 0, Ptr(Cell(rb)), ins)
        f = L.fn('ObuProcessor::ProcessTemporalUnit')
        ot = f['p'][1][2].replace('&', '').strip()
        got = []

        def poll(eos):
            for _ in range(40):
                out, go = Cell(I.default(ot)), Cell(UNINIT)
                r = obj(I.call_fn(f, proc, [Cell(int(eos)), out, go]))
                if not good(r):
                    raise Bad('processing the stream fails')
                o = out.v
                if isinstance(o, Opt) and I.concrete(o.has):
                    u = o.cell.v.f
                    fr = [obj(I.at(u['output_audio_frames'].v, i)) for i in range(int(I.concrete(I.size(u['output_audio_frames'].v))))]
                    pb = [obj(I.at(u['output_parameter_blocks'].v, i)) for i in range(int(I.concrete(I.size(u['output_parameter_blocks'].v))))]
                    got.append((fr, pb, u['output_timestamp'].v))
                elif not flag(I, go):
                    return
            raise Bad('processing never ends')
        while True:
            poll(False)
            if k >= len(pts) - 1:
                break
            k += 1
            L.push(I, rb, data[pts[k - 1]:pts[k]])
        before = len(got)
        if eos:
            poll(True)
        return got, before, rb

    def judge(I, got, us, name):
        want = [u for u in us if any(x for _, x in u)]
        if len(got) != len(want):
            raise Bad('%d temporal units are handed out instead of %d (%s)' % (len(got), len(want), name))
        for k, ((fr, pb, ts), u) in enumerate(zip(got, want)):
            fs = [x for _, x in u if x and x[0] == 'f']
            ps = [x for _, x in u if x and x[0] == 'p']
            if not same(I, ts, k * N):
                raise Bad('unit %d has the timestamp %s instead of %d (%s)' % (k, show(ts), k * N, name))
            if len(fr) != len(fs) or len(pb) != len(ps):
                raise Bad('unit %d holds %d frames and %d parameter blocks instead of %d and %d (%s)' % (k, len(fr), len(pb), len(fs), len(ps), name))
            for a, w in zip(fr, fs):
                if not same(I, L.call(I, 'AudioFrameObu::GetSubstreamId', a.f['obu'].v), w[1]):
                    raise Bad('the frames of unit %d are not in the order of the stream (%s)' % (k, name))
                if not (same(I, a.f['start_timestamp'].v, k * N) and same(I, a.f['end_timestamp'].v, k * N + N)):
                    raise Bad('a frame of unit %d covers [%s, %s) instead of [%d, %d) (%s)' % (k, show(a.f['start_timestamp'].v), show(a.f['end_timestamp'].v), k * N, k * N + N, name))
                bs = ints(I, a.f['obu'].v.f['audio_frame_'].v) if 'audio_frame_' in a.f['obu'].v.f else None
                if bs is not None and (len(bs) != len(w[2]) or not all(same(I, x, y) for x, y in zip(bs, w[2]))):
                    raise Bad('the data of a frame of unit %d is not that of the stream (%s)' % (k, name))
            for a, w in zip(pb, ps):
                o = obj(a.f['obu'])
                if not same(I, o.f['parameter_id_'].v, w[1]):
                    raise Bad('the parameter blocks of unit %d are not in the order of the stream (%s)' % (k, name))
                if not (same(I, a.f['start_timestamp'].v, k * N) and same(I, a.f['end_timestamp'].v, k * N + N)):
                    raise Bad('a parameter block of unit %d covers [%s, %s) (%s)' % (k, show(a.f['start_timestamp'].v), show(a.f['end_timestamp'].v), name))

    extras = {
        'nothing': [], 'a reserved OBU': obu(25, [1, 2, 3]), 'an empty reserved OBU': obu(30, []), 'a redundant sequence header': ia(1), 'a metadata OBU': obu(24, [9]),
        'a redundant codec config': codec(red=1), 'a redundant element': element(10, 1, [0], red=1), 'a redundant mix': mix(5, [10], red=1),
        'a frame of an unknown substream': frame(9, [4, 5, 6]), 'a block of an unknown parameter': block(99, [0, 0]), 'a second delimiter': delimiter(),
    }
    where = None
    try:
        where = L.fn('ObuProcessor::ProcessTemporalUnit')
    except absx.Unsupported:
        pass
    items = []
    for conf in CONF:
        for n in (1, 2, 3):
            for order in (0, 1, 2):
                for td in ('all', 'none', 'odd'):
                    for ex in extras:
                        if ex == 'nothing' or (n == 2 and order < 2) or THOROUGH:
                            items.append((conf, n, order, td, ex))

    def one(item):
        idx, (conf, n, order, td, ex) = item
        us = units(conf, n, order, td)
        if order == 2 and CONF[conf][2]:
            us = [[x for x in u if not (x[1] and x[1][0] == 'p')] for u in us]
        flat = [x for u in us for x in u]
        spots = None
        if ex == 'a second delimiter':
            at = {0}
            for u in us:
                at.add(max(at) + len(u))
            spots = sorted(at)
        name = '%d units of %s, %s delimiters' % (n, conf, td)
        spots = spots if spots else [None] if ex == 'nothing' else sorted({idx % (len(flat) + 1), (idx * 5 + 2) % (len(flat) + 1)})
        for sp in spots:
            seq = list(flat)
            if sp is not None:
                seq.insert(sp, (extras[ex], None))
            data = sum(len(x[0]) for x in seq)
            if ex == 'nothing':
                cutss = [()] + [(x,) for x in range(1, data)] + [tuple(range(1, data))]
                if n != 2 or order or td == 'odd':
                    cutss = cutss[idx % 7::7] + cutss[-1:]
            else:
                cutss = [(), (idx * 7 % data,), tuple(range(1, data, 2))][:(3 if idx % 3 == 0 else 1)]
            for cuts in cutss:
                def scen(I):
                    nm = name + ('' if sp is None else ', with %s at position %d' % (ex, sp)) + (', cut at %s' % (cuts,) if cuts else '')
                    got, before, rb = demux_run(I, conf, seq, cuts, True)
                    judge(I, got, us, nm)
                    if before < n - 1:
                        raise Bad('%d units are held back although a later one has begun (%s)' % (n - before, nm))
                    if L.num(I, 'ReadBitBuffer::NumBytesAvailable', rb):
                        raise Bad('bytes of the stream are left unprocessed (%s)' % nm)
                if decide(c, P, where, 'iamf/cli/obu_processor.cc|ProcessTemporalUnit|%s' % ex, scen, order=(idx + len(cuts)) % 2):
                    return

    # a further sequence ends the last unit and is left in the buffer; misplaced descriptors are refused
    def ends(item):
        conf = item
        for td in ('all', 'none'):
            us = units(conf, 2, 0, td)
            flat = [x for u in us for x in u]

            def scen(I):
                got, before, rb = demux_run(I, conf, flat + [(ia(), None)], (), True)
                judge(I, got, us, 'two units of %s before another sequence' % conf)
                if L.num(I, 'ReadBitBuffer::NumBytesAvailable', rb) != len(ia()):
                    raise Bad('the header of the next sequence is not left in the buffer')
            decide(c, P, where, 'iamf/cli/obu_processor.cc|ProcessTemporalUnit|next', scen)

    if where and not only:
        c.fork(list(enumerate(items)), one)
        c.fork(list(CONF), ends)

    # ---- parts: a processor is set up once per scenario and its members are driven directly
    def member(o, cls):
        for v in o.f.values():
            v = obj(v)
            if isinstance(v, Obj) and v.cls.split('::')[-1] == cls:
                return v
        raise absx.Unsupported('no member %s' % cls)

    def setup(I, head, rest=(), units=0):
        rest = rest or delimiter()
        rb = L.stream(I)
        L.push(I, rb, ia() + head + list(rest))
        proc = L.call(I, 'ObuProcessor::Create', None, 0, Ptr(Cell(rb)), Cell(UNINIT))
        if not isinstance(proc, Obj):
            raise absx.Unsupported('descriptors refused')
        f = L.fn('ObuProcessor::ProcessTemporalUnit')
        ot = f['p'][1][2].replace('&', '').strip()
        got = []
        for _ in range(4 * units + 4 if units else 0):
            out, go = Cell(I.default(ot)), Cell(UNINIT)
            if not good(obj(I.call_fn(f, proc, [Cell(1), out, go]))):
                raise absx.Unsupported('units refused')
            if isinstance(out.v, Opt) and I.concrete(out.v.has):
                u = out.v.cell.v.f
                got.append([[obj(I.at(u[k].v, i)) for i in range(int(I.concrete(I.size(u[k].v))))] for k in ('output_audio_frames', 'output_parameter_blocks')])
            elif not flag(I, go):
                break
        if len(got) != units:
            raise absx.Unsupported('units')
        return proc, got

    two = codec() + element(10, 1, [3, 40], layers=((0, 1, 0), (1, 1, 0)), params=[demixing(70)])

    # -- the clock: every frame starts where the last one of its substream ended
    def clock(hist):
        def scen(I):
            proc, _ = setup(I, two)
            m = member(proc, 'GlobalTimingModule')
            t = {3: 0, 40: 0}
            tp = 0
            for i, op in enumerate(hist):
                d = var('duration_%d' % i, 0, 0xffffffff)
                s, e = Cell(UNINIT), Cell(UNINIT)
                if op == 'global':
                    g = Cell(Opt(True, Cell(var('old', 0, 9))) if i % 2 else Opt(False, None))
                    if not good(L.call(I, 'GlobalTimingModule::GetGlobalAudioFrameTimestamp', m, g)):
                        raise Bad('asking for the common timestamp fails')
                    eq = I.rel('==', t[3], t[40])
                    has = I.concrete(g.v.has) if isinstance(g.v, Opt) else None
                    if not isinstance(eq, bool):
                        eq = I.decide(eq)
                    if eq and not (has and same(I, g.v.cell.v, t[3])):
                        raise Bad('all substreams are at one timestamp, which is not reported, after %s' % (hist[:i],))
                    if not eq and has:
                        raise Bad('a common timestamp is reported although the substreams differ, after %s' % (hist[:i],))
                    continue
                if op in ('param', 'late'):
                    x = tp if op == 'param' else I.arith('+', tp, 1, 'long')
                    r = good(L.call(I, 'GlobalTimingModule::GetNextParameterBlockTimestamps', m, 70, x, d, s, e))
                    if r != (op == 'param'):
                        raise Bad('a parameter block that %s is %s' % ('follows its predecessor' if op == 'param' else 'leaves a gap', 'accepted' if r else 'refused'))
                    if op == 'late':
                        return
                    base = tp
                elif op == 'unknown':
                    r = L.call(I, 'GlobalTimingModule::GetNextAudioFrameTimestamps', m, 9, d, s, e)
                    if good(r):
                        raise Bad('a frame of an unknown substream gets timestamps')
                    continue
                else:
                    if not good(L.call(I, 'GlobalTimingModule::GetNextAudioFrameTimestamps', m, op, d, s, e)):
                        raise Bad('a frame gets no timestamps')
                    base = t[op]
                end = I.arith('+', base, d, 'long')
                if not (same(I, s.v, base) and same(I, e.v, end)):
                    raise Bad('after %s, %s covers [%s, %s) instead of [%s, %s)' % (hist[:i], op, show(s.v), show(e.v), show(base), show(end)))
                if op == 'param':
                    tp = end
                else:
                    t[op] = end
        w = L.fn('GlobalTimingModule::GetNextAudioFrameTimestamps')
        for order in (0, 1):
            if decide(c, P, w, 'iamf/cli/global_timing_module.cc|timestamps', scen, order=order):
                return

    ops = (3, 40, 'param', 'late', 'unknown', 'global')
    hists = [h for n in ((1, 2, 3, 4) if THOROUGH else (1, 2, 3)) for h in itertools.product(ops, repeat=n) if 'late' not in h[:-1]]
    c.fork(hists, clock)

    # -- the parameters: every element goes through the blocks of its parameter, one per frame
    TAB = {0: (1, 1, .707, .707, -1), 1: (.707, .707, .707, .707, -1), 2: (1, .866, .866, .866, -1)}
    TAB.update({k + 4: TAB[k][:4] + (1,) for k in (0, 1, 2)})
    W = [0, .0179, .0391, .0658, .1038, .25, .3962, .4342, .4609, .4821, .5]
    DEF = (1, 7)

    def heads(share):
        dm = [demixing(p, mode=DEF[0], w=DEF[1]) for p in ((70, 70) if share == 'one block' else (70, 71))]
        lay = ((0, 1, 0), (1, 1, 0))
        if share == 'one element':
            return codec() + element(10, 1, [3, 4], params=dm[:1], layers=lay), {10: 70}, [3, 4]
        return codec() + element(10, 1, [3, 4], params=dm[:1], layers=lay) + element(11, 1, [40, 41], params=dm[1:], layers=lay), {10: 70, 11: 70 if share == 'one block' else 71}, [3, 4, 40, 41]

    def close(v, w):
        return is_num(v) and abs(v - w) < 1e-9

    def params(item):
        share, modes = item
        head, own, subs = heads(share)
        pids = sorted(set(own.values()))

        def mode(k, p):
            m = modes[k]
            return m if m is None or p == 70 else (m + 1) % 7 if (m + 1) % 7 != 3 else 4

        def scen(I):
            rest = []
            for k in range(len(modes)):
                rest += delimiter() + sum((block(p, [mode(k, p) << 5]) for p in pids if modes[k] is not None), []) + sum((frame(x, [1]) for x in subs), [])
            proc, got = setup(I, head, rest, len(modes))
            d = member(proc, 'DescriptorObus')
            m = L.call(I, 'ParametersManager::Create', None, d.f['audio_elements'])
            if not isinstance(m, SOr) or not good(m):
                raise Bad('no manager for elements with one de-mixing parameter each')
            m = obj(m.cell)
            w = {e: 0 for e in own}
            first = {e: True for e in own}
            for k, (fr, pb) in enumerate(got):
                for b in pb:
                    L.call(I, 'ParametersManager::AddDemixingParameterBlock', m, Ptr(Cell(b)))
                use = {}
                what = 'in frame %d of the modes %s, %s' % (k, list(modes), share)
                for phase in (0, 1):
                    for e in own:
                        if phase == 0 or (share == 'one block' and k % 2):
                            out = Cell(I.default('iamf_tools::DownMixingParams'))
                            if not good(L.call(I, 'ParametersManager::GetDownMixingParameters', m, e, out)):
                                raise Bad('element %d gets no down-mixing parameters %s' % (e, what))
                            md = mode(k, own[e])
                            if md is None:
                                mm, wi = DEF
                            else:
                                mm = md
                                wi = 0 if first[e] else max(0, min(10, w[e] + TAB[md][4]))
                            f = out.v.f
                            for n, x in zip(('alpha', 'beta', 'gamma', 'delta'), TAB[mm]):
                                if not close(I.concrete(f[n].v), x):
                                    raise Bad('%s of element %d is %s instead of %s %s' % (n, e, show(f[n].v), x, what))
                            if not (close(I.concrete(f['w_idx_used'].v), wi) and close(I.concrete(f['w'].v), W[wi])):
                                raise Bad('w of element %d is %s (index %s) instead of %s (%d) %s' % (e, show(f['w'].v), show(f['w_idx_used'].v), W[wi], wi, what))
                            if md is not None:
                                use[e] = wi
                    for e in own:
                        if (share != 'one block' or k % 2 == 0 or phase == 1) and e in (use if modes[k] is not None else own) and (e, 'done') not in use:
                            if not good(L.call(I, 'ParametersManager::UpdateDemixingState', m, e, k * N + N)):
                                raise Bad('the state of element %d is not advanced %s' % (e, what))
                            if modes[k] is not None:
                                first[e], w[e] = False, use[e]
                                use[e, 'done'] = True
                if modes[k] is None and k + 1 < len(modes):
                    return
        w = L.fn('ParametersManager::GetDownMixingParameters')
        decide(c, P, w, 'iamf/cli/parameters_manager.cc|down-mixing history', scen, order=len(modes) % 2)

    ms = [m for n in (1, 2, 3) for m in itertools.product((0, 1, 2, 4, 5, 6) if n < 3 else (0, 5, 6), repeat=n)] + [(None,), (4, None), (4, 4, None), (4,) * 4, (6, 6, 6, 0, 1), (5,) * 12, (4, 4, 4, 4, 0, 0, 0, 0)]
    c.fork([(sh, m) for sh in ('one element', 'two blocks', 'one block') for m in ms], params)

    def misplaced(how):
        def scen(I):
            head = codec() + element(10, 1, [3, 4], params=[demixing(70), recon(71)] if how != 'late' else [recon(71), demixing(70)], layers=((0, 1, 0), (1, 1, 0, 7)))
            if how == 'twice':
                proc, _ = setup(I, head)
                els = member(proc, 'DescriptorObus').f['audio_elements']
                for _, e in entries(obj(els)):
                    v = obj(e).f['obu'].v.f['audio_element_params_'].v
                    v.items.insert(1, Cell(v.items[0].v))
                    v.n += 1
                m = L.call(I, 'ParametersManager::Create', None, els)
                if good(m):
                    raise Bad('a second de-mixing parameter of an element is accepted')
                return
            rest = sum((delimiter() + block(70, [128]) + block(71, [5, 100 + k, 200 + k]) + frame(3, [1]) + frame(4, [1]) for k in range(3)), [])
            proc, got = setup(I, head, rest, 3)
            m = L.call(I, 'ParametersManager::Create', None, member(proc, 'DescriptorObus').f['audio_elements'])
            if not isinstance(m, SOr) or not good(m):
                raise Bad('no manager for an element with one parameter of each kind')
            m = obj(m.cell)
            ids = {70: 'Demixing', 71: 'ReconGain'}
            G = 'iamf_tools::ReconGainInfoParameterData'

            def gains(n):
                out = Cell(I.default(G))
                if not good(L.call(I, 'ParametersManager::GetReconGainInfoParameterData', m, 10, n, out)):
                    return None
                v = out.v.f['recon_gain_elements'].v
                r = []
                for i in range(int(I.concrete(I.size(v)))):
                    o = I.at(v, i).v
                    if isinstance(o, Opt):
                        o = obj(o.cell) if I.concrete(o.has) else None
                    if o is None:
                        r.append(None)
                        continue
                    r.append([I.concrete(o.f['recon_gain_flag'].v)] + ints(I, o.f['recon_gain'].v))
                return r

            def add(k):
                for b in got[k][1]:
                    L.call(I, 'ParametersManager::Add%sParameterBlock' % ids[int(I.concrete(obj(b.f['obu']).f['parameter_id_'].v))], m, Ptr(Cell(b)))

            def step(kind, t):
                return good(L.call(I, 'ParametersManager::Update%sState' % kind, m, 10, t))

            def mixes():
                return good(L.call(I, 'ParametersManager::GetDownMixingParameters', m, 10, Cell(I.default('iamf_tools::DownMixingParams'))))
            none = [[0] + [255] * 12] * 2
            if gains(2) != none:
                raise Bad('the recon gains without a block are %s' % gains(2))
            if how == 'early':
                add(1)
                if mixes() or gains(2) is not None:
                    raise Bad('the block of another frame is used')
                return
            for k in range(3):
                add(k)
                if k and how == 'stuck':
                    if mixes() or gains(2) is not None:
                        raise Bad('the block of a later frame is used')
                    return
                if not mixes():
                    raise Bad('no down-mixing parameters in frame %d' % k)
                g = gains(2)
                if g != [None, [5] + [100 + k, 0, 200 + k] + [0] * 9]:
                    raise Bad('the recon gains of frame %d are %s' % (k, g))
                if gains(3) is not None:
                    raise Bad('recon gains of 2 layers are accepted for 3')
                if how == 'stuck':
                    continue
                if how == 'late' and k == 1:
                    if step('Demixing', k * N + N + 1) or step('ReconGain', k * N + N - 1):
                        raise Bad('the state advances to a timestamp that is not the end of the block')
                    return
                if not (step('Demixing', k * N + N) and step('ReconGain', k * N + N)):
                    raise Bad('the state does not advance from frame %d' % k)
                if gains(2) != none:
                    raise Bad('recon gains are used twice, after frame %d' % k)
        decide(c, P, L.fn('ParametersManager::GetReconGainInfoParameterData'), 'iamf/cli/parameters_manager.cc|%s' % how, scen)
    c.fork(['early', 'stuck', 'late', 'on time', 'twice'], misplaced)

    # -- the view: frames and blocks of one time and trim, at most one of each identifier, in canonical order
    def view(item):
        case, swap = item
        head = codec() + element(10, 1, [300, 301], params=[demixing(326)], layers=((0, 1, 0), (1, 1, 0))) + element(11, 1, [17, 556], params=[demixing(70)], layers=((0, 1, 0), (1, 1, 0)))

        def scen(I):
            rest = delimiter() + block(326, [0]) + block(70, [32]) + sum((frame(x, [1]) for x in (300, 301, 17, 556)), [])
            proc, got = setup(I, head, rest * 2, 2)
            (fr, pb), (fr2, pb2) = got
            s, e, t0, t1 = (var(n, 0, 0xffffffff) for n in ('trim_start', 'trim_end', 'from', 'to'))
            x = var('other', 0, 0xffffffff)

            def sets(o, k, v):
                cell = o.f[k] if k in o.f else o.f['obu'].v.f['header_'].v.f[k]
                cell.v = v
            TS, TE = 'num_samples_to_trim_at_start', 'num_samples_to_trim_at_end'
            for o in fr:
                sets(o, TS, s)
                sets(o, TE, e)
            for o in fr + pb:
                sets(o, 'start_timestamp', t0)
                sets(o, 'end_timestamp', t1)
            fs, ps, need = list(fr), list(pb), None
            if case in (TS, TE, 'start_timestamp', 'end_timestamp'):
                sets(fr[2], case, x)
                need = (x, {TS: s, TE: e, 'start_timestamp': t0, 'end_timestamp': t1}[case])
            elif case in ('block start', 'block end'):
                k = 'start_timestamp' if case == 'block start' else 'end_timestamp'
                sets(pb[1], k, x)
                need = (x, t0 if case == 'block start' else t1)
            elif case == 'frame twice':
                fs.append(fr2[1])
                for k, v in ((TS, s), (TE, e), ('start_timestamp', t0), ('end_timestamp', t1)):
                    sets(fr2[1], k, v)
            elif case == 'block twice':
                ps.append(pb2[0])
                sets(pb2[0], 'start_timestamp', t0)
                sets(pb2[0], 'end_timestamp', t1)
            elif case == 'no frames':
                fs = []
            elif case == 'one frame':
                fs, ps = fs[1:2], []
            if swap:
                fs, ps = fs[::-1] if swap == 1 else fs[1:] + fs[:1], ps[::-1]

            def span(xs):
                v = Vec('const void *', [Cell(Ptr(Cell(o))) for o in xs])
                return View(v, 0, len(xs))
            r = L.call(I, 'TemporalUnitView::CreateFromPointers', None, span(ps), span(fs), span([]))
            if not isinstance(r, SOr):
                raise absx.Unsupported('view')
            ok = good(r)
            should = not case.endswith('twice') and bool(fs)
            if should and need:
                should = I.decide(I.rel('==', *need))
            if should:
                should = I.decide(I.rel('<=', I.arith('+', s, e, 'unsigned long'), N))
            if ok != should:
                raise Bad('%s: the temporal unit is %s' % (case if not swap else case + ', in another order', 'accepted' if ok else 'refused'))
            if not ok:
                return
            u = obj(r.cell).f
            for k, v in (('start_timestamp_', t0), ('end_timestamp_', t1), ('num_samples_to_trim_at_start_', s)):
                if not same(I, u[k].v, v):
                    raise Bad('%s: the view says %s = %s instead of %s' % (case, k, show(u[k].v), show(v)))
            left = I.arith('-', I.arith('-', N, s, 'long'), e, 'long')
            if not same(I, I.arith('+', I.arith('+', u['num_untrimmed_samples_'].v, s, 'long'), e, 'long'), N):
                raise Bad('%s: %s samples are left instead of %s' % (case, show(u['num_untrimmed_samples_'].v), show(left)))
            a = [obj(I.at(u['audio_frames_'].v, i)) for i in range(int(I.concrete(I.size(u['audio_frames_'].v))))]
            b = [obj(I.at(u['parameter_blocks_'].v, i)) for i in range(int(I.concrete(I.size(u['parameter_blocks_'].v))))]
            if len(a) != len(fs) or any(y is not z for y, z in zip(a, [o for o in fr if o in fs])):
                raise Bad('%s: the frames are not those of the unit in order of element and substream' % case)
            if len(b) != len(ps) or any(y is not z for y, z in zip(b, [o for o in pb[::-1] if o in ps])):
                raise Bad('%s: the parameter blocks are not those of the unit in order of identifier' % case)
        w = L.fn('TemporalUnitView::CreateFromPointers')
        decide(c, P, w, 'iamf/cli/temporal_unit_view.cc|CreateFromPointers|%s' % case, scen)

    cases = ('plain', 'num_samples_to_trim_at_start', 'num_samples_to_trim_at_end', 'start_timestamp', 'end_timestamp', 'block start', 'block end', 'frame twice', 'block twice', 'no frames', 'one frame')
    c.fork([(x, sw) for x in cases for sw in (0, 1, 2)], view)
    c.require('sequences', 100)
    return c
