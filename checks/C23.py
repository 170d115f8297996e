"""Down-mixing and de-mixing apply the specified coefficients and undo each other."""
import check, db, ir, absx, absmodels, spec
from absval import *
from absval import T
from contract import *

RULE = ('constant propagation of the mixing coefficients over symbolic samples: every down-mixer and de-mixer writes, for every channel it owns, '
        'exactly the linear term of the specified matrix and refuses absent channels, unequal lengths and vanishing divisors; the mixers selected for a '
        'pair of layouts compose to the specified matrix and the de-mixers of a layered element give back the samples that were down-mixed')

C707, C866 = 0.707, 0.866
# (IAMF v1.1 section 7.2.2 / table of dmixp_mode): alpha, beta, gamma, delta, offset of w_idx
MODES = {0: (1, 1, C707, C707, -1), 1: (C707, C707, C707, C707, -1), 2: (1, C866, C866, C866, -1),
         4: (1, 1, C707, C707, 1), 5: (C707, C707, C707, C707, 1), 6: (1, C866, C866, C866, 1)}
W = [0, 0.0179, 0.0391, 0.0658, 0.1038, 0.25, 0.3962, 0.4342, 0.4609, 0.4821, 0.5]
PARAM = 'iamf_tools::DownMixingParams'

# name -> (inputs, {output: {input: coefficient}}); coefficients are functions of (a, b, g, d, w)
k1 = lambda p: 1.0
DOWN = {
    'S7ToS5DownMixer': (['L7', 'R7', 'Lss7', 'Lrs7', 'Rss7', 'Rrs7'], lambda a, b, g, d, w: {
        'L5': {'L7': 1}, 'R5': {'R7': 1}, 'Ls5': {'Lss7': a, 'Lrs7': b}, 'Rs5': {'Rss7': a, 'Rrs7': b}}),
    'S5ToS3DownMixer': (['L5', 'R5', 'Ls5', 'Rs5'], lambda a, b, g, d, w: {'L3': {'L5': 1, 'Ls5': d}, 'R3': {'R5': 1, 'Rs5': d}}),
    'S3ToS2DownMixer': (['L3', 'R3', 'Centre'], lambda a, b, g, d, w: {'L2': {'L3': 1, 'Centre': C707}, 'R2': {'R3': 1, 'Centre': C707}}),
    'S2ToS1DownMixer': (['L2', 'R2'], lambda a, b, g, d, w: {'Mono': {'L2': 0.5, 'R2': 0.5}}),
    'T4ToT2DownMixer': (['Ltf4', 'Rtf4', 'Ltb4', 'Rtb4'], lambda a, b, g, d, w: {'Ltf2': {'Ltf4': 1, 'Ltb4': g}, 'Rtf2': {'Rtf4': 1, 'Rtb4': g}}),
    'T2ToTf2DownMixer': (['Ltf2', 'Rtf2', 'Ls5', 'Rs5'], lambda a, b, g, d, w: {'Ltf3': {'Ltf2': 1, 'Ls5': w * d}, 'Rtf3': {'Rtf2': 1, 'Rs5': w * d}}),
}
DEMIX = {
    'S5ToS7Demixer': (['L5', 'Ls5', 'Lss7', 'R5', 'Rs5', 'Rss7'], lambda a, b, g, d, w: {
        'L7': {'L5': 1}, 'R7': {'R5': 1}, 'Lrs7': {'Ls5': 1 / b, 'Lss7': -a / b}, 'Rrs7': {'Rs5': 1 / b, 'Rss7': -a / b}}, 1),
    'S3ToS5Demixer': (['L3', 'L5', 'R3', 'R5'], lambda a, b, g, d, w: {'Ls5': {'L3': 1 / d, 'L5': -1 / d}, 'Rs5': {'R3': 1 / d, 'R5': -1 / d}}, 3),
    'S2ToS3Demixer': (['L2', 'R2', 'Centre'], lambda a, b, g, d, w: {'L3': {'L2': 1, 'Centre': -C707}, 'R3': {'R2': 1, 'Centre': -C707}}, None),
    'S1ToS2Demixer': (['L2', 'Mono'], lambda a, b, g, d, w: {'R2': {'Mono': 2, 'L2': -1}}, None),
    'T2ToT4Demixer': (['Ltf2', 'Ltf4', 'Rtf2', 'Rtf4'], lambda a, b, g, d, w: {'Ltb4': {'Ltf2': 1 / g, 'Ltf4': -1 / g}, 'Rtb4': {'Rtf2': 1 / g, 'Rtf4': -1 / g}}, 2),
    'Tf2ToT2Demixer': (['Ltf3', 'L3', 'L5', 'Rtf3', 'R3', 'R5'], lambda a, b, g, d, w: {
        'Ltf2': {'Ltf3': 1, 'L3': -w, 'L5': w}, 'Rtf2': {'Rtf3': 1, 'R3': -w, 'R5': w}}, None),
}
GENERIC = [(0.3, 0.5, 0.7, 0.9, 0.2), (1.25, -0.5, 2.0, -0.75, 0.5)]


def run():
    P = db.load()
    c = check.Check('C23', RULE, ['frames of at most 3 ticks', 'samples in the mixers are real numbers (rounding is not modelled)'])
    L = {n[1:]: v for n, v in P.enum['iamf_tools::ChannelLabel::Label']['e']}
    NAME = {v: n for n, v in L.items()}

    def fn(name, where='', np=None):
        return [f for f in P.fn.values() if f['n'] == name and f.get('b') and '_test' not in f['f'] and '/tests/' not in f['f'] and where in f['f'] and (np is None or len(f['p']) == np)]

    def params(I, a, b, g, d, w):
        o = I.fresh(PARAM, 'params')
        o.f = {k: Cell(v) for k, v in zip(('alpha', 'beta', 'gamma', 'delta', 'w_idx_offset', 'w_idx_used', 'w', 'in_bitstream'), (float(a), float(b), float(g), float(d), 1, 5, float(w), 1))}
        return o

    def smp(label, t):
        return var('%s[%d]' % (label, t), -1.0, 1.0, True)

    def lsm(f, chans):
        """map label -> samples: chans = {label name: (source name, ticks)}"""
        t = f['p'][1][2].replace('&', '').replace('const ', '').strip()
        I = chans['I']
        m = I.default(t)
        for lab, (src, n) in chans['m'].items():
            absmodels.map_put(I, m, L[lab], Vec('double', [Cell(smp(src, i)) for i in range(n)]))
        return m

    def value(I, m, lab):
        for k, cell in m.entries:
            if k == L[lab] and cell is not absmodels.ABSENT:
                return cell.v.f['second'].v
        return None

    def term(row, t, src=lambda x: x):
        s = 0.0
        for k, co in row.items():
            s = add(s, scale(smp(src(k), t), float(co)))
        return s

    def mixer(f, inputs, rows, div, demix):
        cases = []
        for co in GENERIC:
            for n in (0, 1, 2, 3):
                cases.append((co, {x: n for x in inputs}, 'plain', ()))
        for x in inputs:
            cases.append((GENERIC[0], {y: 2 for y in inputs if y != x}, 'plain', ()))
            for k in (1, 3):
                cases.append((GENERIC[0], {y: k if y == x else 2 for y in inputs}, 'plain', ()))
        outs = list(rows(*GENERIC[0]))
        cases.append((GENERIC[1], {y: 2 for y in inputs}, 'plain', [('Demixed' + o if demix else o, n) for o in outs for n in (3,)]))
        cases.append((GENERIC[1], {y: 2 for y in inputs}, 'plain', [('Demixed' + o if demix else o, n) for o in outs for n in (1,)]))
        for idx in range(5):
            for v in (0.0, 1e-6, -1e-6, 2e-5, -2e-5):
                co = list(GENERIC[0])
                co[idx] = v
                cases.append((tuple(co), {y: 1 for y in inputs}, 'plain', ()))
        if demix:
            for x in inputs:
                if 'Demixed' + x in L:
                    cases.append((GENERIC[0], {y: 2 for y in inputs}, ('only', x), ()))
                    cases.append((GENERIC[0], {y: 2 for y in inputs}, ('both', x), ()))
        for co, ch, how, old in cases:
            def b_(I, co=co, ch=ch, how=how, old=old):
                m = {}
                for x, n in ch.items():
                    if how == ('only', x):
                        m['Demixed' + x] = (x, n)
                    else:
                        m[x] = (x, n)
                        if how == ('both', x):
                            m['Demixed' + x] = ('other', n)
                for o, n in old:
                    m[o] = ('old', n)
                M = Cell(lsm(f, {'I': I, 'm': m}))
                return None, [Cell(params(I, *co)), M], {'m': M}

            def o_(I, e, t, co=co, ch=ch):
                if set(ch) != set(inputs) or len(set(ch.values())) > 1:
                    return ERR
                if div is not None and abs(co[div]) < 1e-5:
                    return ERR
                n = list(ch.values())[0]
                if t['out'] != 'ret':
                    return []
                out = []
                for lab, row in rows(*co).items():
                    lab = 'Demixed' + lab if demix else lab
                    out.append(('channel ' + lab, value(I, e['m'].v, lab), [term(row, i) for i in range(n)]))
                for x in ch:
                    if how == ('only', x):
                        continue
                    out.append(('input channel ' + x, value(I, e['m'].v, x), [smp(x, i) for i in range(n)]))
                return out
            check_fn(c, P, f, b_, o_, K=6, key='%s|%s' % (f['f'], f['n']), tol=1e-9)

    for name, (inputs, rows) in DOWN.items():
        for f in fn(name):
            mixer(f, inputs, rows, None, False)
    for name, (inputs, rows, div) in DEMIX.items():
        for f in fn(name):
            mixer(f, inputs, rows, div, True)

    # -- a channel and its reconstruction
    for f in fn('GetDemixedLabel'):
        for n, v in L.items():
            def b_(I, v=v):
                return None, [Cell(v)], {}
            check_fn(c, P, f, b_, lambda I, e, t, n=n: [('the reconstructed version of ' + n, t['ret'].cell.v if t['ret'].st.ok is True else None, L['Demixed' + n])] if 'Demixed' + n in L else ERR, key='%s|GetDemixedLabel' % f['f'])
    for f in fn('FindSamplesOrDemixedSamples'):
        for n, v in L.items():
            for have in ((n,), ('Demixed' + n,), (n, 'Demixed' + n), ()):
                if any(x not in L for x in have):
                    continue

                def b_(I, v=v, have=have):
                    m = I.default(f['p'][1][2].replace('&', '').replace('const ', '').strip())
                    for x in [y for y in L if y not in have and y not in (n, 'Demixed' + n)][:4] + list(have):
                        absmodels.map_put(I, m, L[x], Vec('double', [Cell(smp(x, 0)), Cell(smp(x, 1))]))
                    r = Cell(View(Vec('double', []), 0, 0))
                    return None, [Cell(v), Cell(m), r], {'r': r}
                check_fn(c, P, f, b_, lambda I, e, t, have=have: [('the samples of %s' % have[0], e['r'], [smp(have[0], 0), smp(have[0], 1)])] if have else ERR, key='%s|FindSamplesOrDemixedSamples' % f['f'])
    FLAGS = {n: v for n, v in (P.enum.get('iamf_tools::ReconGainElement::ReconGainFlagBitmask') or {'e': []})['e']}
    for f in fn('GetDemixedChannelLabelForReconGain'):
        # (IAMF v1.1 section 3.8.3: L, C, R, Ls, Rs, Ltf, Rtf, Lrs, Rrs, Ltb, Rtb, LFE)
        for lay, sur in ((0, 1), (1, 2), (2, 5), (3, 5), (4, 5), (5, 7), (6, 7), (7, 7), (8, 3)):
            want = {'L': {3: 'L3', 5: 'L5', 7: 'L7'}.get(sur), 'R': {2: 'R2', 3: 'R3', 5: 'R5', 7: 'R7'}.get(sur), 'C': None, 'Lfe': None}
            if sur >= 5:
                want.update({'Lss': 'Ls5', 'Rss': 'Rs5', 'Ltf': 'Ltf2', 'Rtf': 'Rtf2', 'Ltb': 'Ltb4', 'Rtb': 'Rtb4'})
            if sur == 7:
                want.update({'Lrs': 'Lrs7', 'Rrs': 'Rrs7'})
            for fl, w in want.items():
                if 'kReconGainFlag' + fl not in FLAGS:
                    continue

                def b_(I, lay=lay, fl=fl):
                    return None, [Cell(lay), Cell(FLAGS['kReconGainFlag' + fl])], {}
                check_fn(c, P, f, b_, lambda I, e, t, w=w, fl=fl: [('the channel of flag ' + fl, t['ret'].cell.v if t['ret'].st.ok is True else None, L['Demixed' + w])] if w else ERR, key='%s|GetDemixedChannelLabelForReconGain' % f['f'])

    # -- the parameters of a mode
    for f in fn('DMixPModeToDownMixingParams'):
        for mode in range(8):
            for prev in range(-2, 13):
                for rule in (0, 1, 2):
                    def b_(I, mode=mode, prev=prev, rule=rule):
                        o = Cell(params(I, 9, 9, 9, 9, 9))
                        o.v.f['in_bitstream'] = Cell(0)
                        return None, [Cell(mode), Cell(prev), Cell(rule), o], {'o': o}

                    def o_(I, e, t, mode=mode, prev=prev, rule=rule):
                        if mode not in MODES:
                            return ERR
                        a, b, g, d, off = MODES[mode]
                        w = min(10, max(0, prev + off)) if rule == RULES['kNormal'] else 0 if rule == RULES['kFirstFrame'] else prev
                        if not 0 <= w <= 10:
                            return ERR
                        p = e['o'].v.f
                        return [(k, p[k], v) for k, v in (('alpha', a), ('beta', b), ('gamma', g), ('delta', d), ('w_idx_offset', off), ('w_idx_used', w), ('w', W[w]), ('in_bitstream', 1))]
                    RULES = {n: v for n, v in P.enum['iamf_tools::DemixingInfoParameterData::WIdxUpdateRule']['e']}
                    check_fn(c, P, f, b_, o_, K=6, key='%s|DMixPModeToDownMixingParams' % f['f'], tol=1e-12)

    # -- the mixers of a layered element compose to the specified matrix and undo each other
    SUR = {'0': 1, '1': 2}
    layouts = {'Mono': (1, 0), 'Stereo': (2, 0), '5.1': (5, 0), '5.1.2': (5, 2), '5.1.4': (5, 4), '7.1': (7, 0), '7.1.2': (7, 2), '7.1.4': (7, 4), '3.1.2': (3, 2)}
    CODE = {'Mono': 0, 'Stereo': 1, '5.1': 2, '5.1.2': 3, '5.1.4': 4, '7.1': 5, '7.1.2': 6, '7.1.4': 7, '3.1.2': 8}

    def labels(lay):
        s, h = layouts[lay]
        out = {1: ['Mono'], 2: ['L2', 'R2'], 3: ['L3', 'R3', 'Centre', 'LFE'], 5: ['L5', 'R5', 'Centre', 'LFE', 'Ls5', 'Rs5'],
               7: ['L7', 'R7', 'Centre', 'LFE', 'Lss7', 'Rss7', 'Lrs7', 'Rrs7']}[s]
        return out + ({0: [], 2: ['Ltf3', 'Rtf3'] if s == 3 else ['Ltf2', 'Rtf2'], 4: ['Ltf4', 'Rtf4', 'Ltb4', 'Rtb4']}[h])

    def group(prev, lay):
        """Substreams (lists of labels) a layer adds (IAMF v1.1 section 3.6.3)."""
        s, h = layouts[lay]
        cpl, non, end = [], [], []
        if prev is None:
            l = labels(lay)
            pairs = [x for x in l if x not in ('Mono', 'Centre', 'LFE')]
            return [pairs[i:i + 2] for i in range(0, len(pairs), 2)] + [[x] for x in l if x in ('Mono', 'Centre', 'LFE')]
        s0, h0 = layouts[prev]
        if s0 < 5 <= s:
            cpl.append(['L5', 'R5'])
        if s0 < 7 <= s:
            cpl.append(['Lss7', 'Rss7'])
        if h > h0:
            if h == 4:
                cpl.append(['Ltf4', 'Rtf4'])
                if h0 == 0:
                    cpl.append(['Ltb4', 'Rtb4'])
            else:
                cpl.append(['Ltf3', 'Rtf3'] if s == 3 else ['Ltf2', 'Rtf2'])
        if s0 < 3 <= s:
            non.append(['Centre'])
            non.append(['LFE'])
        if s0 < 2 <= s:
            end.append(['L2'])
        return cpl + non + end

    def chains():
        import itertools
        names = sorted(layouts, key=lambda x: layouts[x])
        for n in (1, 2, 3, 4):
            for ch in itertools.permutations(names, n):
                ok = all(layouts[a][0] <= layouts[b][0] and layouts[a][1] <= layouts[b][1] for a, b in zip(ch, ch[1:]))
                if ok:
                    yield ch

    def composed(top, co):
        """label -> row over the channels of the top layout, for everything that can be derived."""
        rows = {x: {x: 1.0} for x in labels(top)}
        s, h = layouts[top]
        todo = [n for n, lo in (('S7ToS5DownMixer', 7), ('S5ToS3DownMixer', 5), ('S3ToS2DownMixer', 3), ('S2ToS1DownMixer', 2)) if s >= lo]
        todo += [n for n, lo in (('T4ToT2DownMixer', 4), ('T2ToTf2DownMixer', 2)) if h >= lo and not (n == 'T2ToTf2DownMixer' and s == 3)]
        for n in todo:
            ins, f = DOWN[n]
            if all(i in rows for i in ins):
                for o, r in f(*co).items():
                    if o in rows:
                        continue
                    new = {}
                    for k, x in r.items():
                        for k2, x2 in rows[k].items():
                            new[k2] = new.get(k2, 0) + x * x2
                    rows[o] = new
        return rows

    TICKS = 1
    mgr = fn('DownMixSamplesToSubstreams')
    fac = fn('CreateScalableChannelDownmixers')
    make = fn('Make', 'downmixer_manager')
    demix_create = [f for f in fn('Create', 'demixing_manager')]
    demix = {n: fn(n) for n in ('DemixDecodedAudioSamples', 'DemixOriginalAudioSamples')}
    every = [(ch, back) for ch in sorted(chains(), key=len) for back in (0, 1)]    # hash maps have no order
    modes = [MODES[m][:4] + (W[w],) for m, w in ((0, 0), (1, 10), (2, 5), (4, 3), (5, 7), (6, 9))] + GENERIC

    def typ(f, i):
        return f['p'][i][2].replace('&', '').replace('const ', '').strip()

    def layered(item):
        idx, (ch, back) = item
        co = modes[(idx + idx // 16) % len(modes)]
        subs = []
        prev = None
        for lay in ch:
            subs += group(prev, lay)
            prev = lay
        top = ch[-1]
        rows = composed(top, co)
        name = ' > '.join(ch)

        def substreams(I, t):
            m = I.default(t)
            for i, labs in reversed(list(enumerate(subs))) if back else enumerate(subs):
                absmodels.map_put(I, m, 100 + i, I.copy(Vec('list', [Cell(L[x]) for x in labs])))
            return m

        # encoder: factory, then the manager
        for f in mgr:
            if not fac:
                break
            pushed = {}

            def push(I, n, fr, o, a):
                ob = absmodels.obj(I, o, fr)
                pushed.setdefault(id(ob), []).append((I.concrete(I.ev(a[0], fr)), I.ev(a[1], fr)))
                return None
            models = {'iamf_tools::SubstreamFrames::PushSample': push,
                      'iamf_tools::NormalizedFloatingPointToInt32': lambda I, n, fr, o, a: StatusV(True)}

            def b_(I, f=f):
                pushed.clear()
                st = I.default(typ(fac[0], 0))
                for x in labels(top):
                    absmodels.map_put(I, st, L[x], None)
                sm = substreams(I, typ(fac[0], 1))
                mixers = I.call_fn(fac[0], None, [Cell(st), Cell(sm)])
                mixers = mixers.v if isinstance(mixers, Cell) else mixers
                if not (isinstance(mixers, SOr) and mixers.st.ok is True):
                    raise absx.Unsupported('down-mixers refused')
                cfg = I.fresh('iamf_tools::DownmixerManager::DownmixingConfig', 'cfg')
                cfg.f['down_mixers'] = mixers.cell
                cfg.f['substream_id_to_labels'] = Cell(substreams(I, typ(fac[0], 1)))
                cfg.f['label_to_output_gain'] = Cell(I.default([x['t'] for r in P.rec.values() if r['q'] == 'iamf_tools::DownmixerManager::DownmixingConfig' for x in r['fs'] if x['n'] == 'label_to_output_gain'][0]))
                mm = I.default(typ(make[0], 0))
                absmodels.map_put(I, mm, 7, cfg)
                M = I.call_fn(make[0], None, [Cell(mm)])
                M = M.v if isinstance(M, Cell) else M
                ins = I.default(typ(f, 2))
                for x in labels(top):
                    absmodels.map_put(I, ins, L[x], Vec('double', [Cell(smp(x, i)) for i in range(TICKS)]))
                data = I.default(typ(f, 3))
                fr = {}
                for i, labs in enumerate(subs):
                    sd = I.fresh('iamf_tools::SubstreamData', 'data')
                    for k in ('frames_in_obu', 'frames_to_encode'):
                        sd.f[k] = Cell(Obj('iamf_tools::SubstreamFrames'))
                    fr[i] = sd.f['frames_in_obu'].v
                    absmodels.map_put(I, data, 100 + i, sd)
                return M.cell if isinstance(M, (Ptr, )) else M, [Cell(7), Cell(params(I, *co)), Cell(ins), Cell(data)], {'fr': fr}

            def o_(I, e, t):
                out = []
                for i, labs in enumerate(subs):
                    got = pushed.get(id(e['fr'][i]), [])
                    for j, lab in enumerate(labs):
                        out.append(('channel %d (%s) of substream %d of the layers %s' % (j, lab, i, name),
                                    Vec('double', [Cell(v) for k, v in got if k == j]), [term(rows[lab], q) for q in range(TICKS)]))
                return out
            check_fn(c, P, f, b_, o_, K=6, models=models, key='%s|layers' % f['f'], tol=1e-9)

        # decoder: the manager made for the element
        for which, fs in demix.items():
            for f in fs:
                if not demix_create:
                    break
                models = {'iamf_tools::AudioFrameObu::GetSubstreamId': lambda I, n, fr, o, a: absmodels.obj(I, o, fr).f['id!'].v,
                          'iamf_tools::AudioElementObu::GetAudioElementType': lambda I, n, fr, o, a: 0}

                def b_(I, f=f, which=which, fault=None):
                    el = I.fresh('iamf_tools::AudioElementObu', 'element')
                    cfgs = [x['t'] for r in P.rec.values() if r['q'] == 'iamf_tools::AudioElementObu' for x in r['fs'] if x['n'] == 'config_'][0]
                    v = I.fresh(cfgs, 'config')
                    k = [i for i, x in enumerate(v.alts) if x.endswith('ScalableChannelLayoutConfig')][0]
                    sc = I.fresh('iamf_tools::ScalableChannelLayoutConfig', 'scalable')
                    lays = []
                    for lay in ch:
                        lc = I.fresh('iamf_tools::ChannelAudioLayerConfig', 'layer')
                        lc.f['loudspeaker_layout'] = Cell(CODE[lay])
                        lc.f['expanded_loudspeaker_layout'] = Cell(Opt(0, None))
                        lays.append(Cell(lc))
                    sc.f['channel_audio_layer_configs'] = Cell(Vec('std::vector<iamf_tools::ChannelAudioLayerConfig>', lays))
                    el.f['config_'] = Cell(Variant(v.alts, k, Cell(sc)))
                    rc = I.fresh('iamf_tools::DemixingManager::ReconstructionConfig', 'rc')
                    rc.f['audio_element_obu'] = Cell(Ptr(Cell(el)))
                    ft = {x['n']: x['t'] for r in P.rec.values() if r['q'] == 'iamf_tools::DemixingManager::ReconstructionConfig' for x in r['fs']}
                    rc.f['substream_id_to_labels'] = Cell(substreams(I, ft['substream_id_to_labels']))
                    rc.f['label_to_output_gain'] = Cell(I.default(ft['label_to_output_gain']))
                    mm = I.default(typ(demix_create[0], 0))
                    absmodels.map_put(I, mm, 7, rc)
                    M = I.call_fn(demix_create[0], None, [Cell(mm)])
                    M = M.v if isinstance(M, Cell) else M
                    if not (isinstance(M, SOr) and M.st.ok is True):
                        raise absx.Unsupported('the de-mixing manager refused the layers')
                    frames = []
                    for i, labs in enumerate(subs):
                        fr = I.fresh('iamf_tools::AudioFrameWithData', 'frame')
                        ob = I.fresh('iamf_tools::AudioFrameObu', 'obu')
                        ob.f['id!'] = Cell(100 + i)
                        fr.f['obu'] = Cell(ob)
                        fr.f['start_timestamp'] = Cell(64)
                        fr.f['end_timestamp'] = Cell(64 + TICKS)
                        fr.f['down_mixing_params'] = Cell(params(I, *co))
                        fr.f['audio_element_with_data'] = Cell(None)
                        chs = [Cell(Vec('double', [Cell(term(rows[x], q)) for q in range(TICKS)])) for x in labs]
                        bad = [Cell(Vec('double', [Cell(smp('wrong', q)) for q in range(TICKS)])) for x in labs]
                        good, other = Vec('std::vector<double>', chs), Vec('std::vector<double>', bad)
                        dec, enc = (good, other) if which.startswith('DemixDecoded') else (other, good)
                        fr.f['decoded_samples'] = Cell(View(dec, 0, len(labs)))
                        fr.f['encoded_samples'] = Cell(Opt(1, Cell(enc)))
                        frames.append(Cell(fr))
                    last = frames[-1].v.f
                    if fault == 'time':
                        last['start_timestamp'] = Cell(65)
                    elif fault == 'absent':
                        last['decoded_samples'] = Cell(View(Vec('std::vector<double>', []), 0, 0))
                        last['encoded_samples'] = Cell(Opt(0, None))
                    elif fault:
                        for k, cell in (('decoded_samples', None), ('encoded_samples', None)):
                            v = last[k].v.cell.v if isinstance(last[k].v, Opt) else last[k].v.vec
                            if fault == 'ticks':
                                v.items = [Cell(Vec('double', [Cell(smp('x', q)) for q in range(TICKS + 1)])) for _ in v.items]
                            elif fault == 'uneven':
                                v.items[-1] = Cell(Vec('double', []))
                            elif fault == 'more':
                                v.items.append(Cell(Vec('double', [Cell(smp('x', q)) for q in range(TICKS)])))
                            elif fault == 'less':
                                v.items.pop()
                            v.n = len(v.items)
                            if isinstance(last[k].v, View):
                                last[k] = Cell(View(v, 0, v.n))
                    return M.cell, [Cell(Vec(typ(f, 0), frames))], {}

                def o_(I, e, t):
                    r = t['ret']
                    if not isinstance(r, SOr) or r.st.ok is not True:
                        return []
                    lf = [cell.v.f['second'].v for k, cell in r.cell.v.entries if k == 7]
                    if not lf:
                        return ('FAIL', 'no labeled frame for the element')
                    m = lf[0].f['label_to_samples'].v
                    out = []
                    for x in labels(top):
                        got = value(I, m, x)
                        if got is None:
                            got = value(I, m, 'Demixed' + x) if 'Demixed' + x in L else None
                        if got is None:
                            return ('FAIL', 'channel %s of the layers %s is not reconstructed' % (x, name))
                        out.append(('channel %s of the layers %s' % (x, name), got, [smp(x, q) for q in range(TICKS)]))
                    return out
                if 0.0 in co[:4]:
                    continue
                check_fn(c, P, f, b_, o_, K=6, models=models, key='%s|layers' % f['f'], tol=1e-6)
                if idx % 8 == 0:
                    faults = ['absent', 'more', 'less'] + (['uneven'] if len(subs[-1]) > 1 else []) + (['time', 'ticks'] if len(subs) > 1 else [])
                    for x in faults:
                        check_fn(c, P, f, lambda I, x=x: b_(I, fault=x), lambda I, e, t: ERR, K=6, models=models, key='%s|%s' % (f['f'], x))
    c.fork(list(enumerate(every)), layered)
    c.require('functions', 14)
    return c
