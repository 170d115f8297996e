"""The channels each audio substream carries."""
import itertools
import check, db, ir, absx, absmodels, spec
from absval import *
from absval import T
from contract import *

RULE = ('constant propagation of the layout tables: for every sequence of channel layers, expanded layout, ambisonics mapping and object count, the labels '
        'assigned to each substream id, the channel numbers of the layers and the output gains are those specified, and every element '
        'whose counts, ids or layouts do not agree is refused')

LAYOUTS = {'Mono': (1, 0), 'Stereo': (2, 0), '5.1': (5, 0), '5.1.2': (5, 2), '5.1.4': (5, 4), '7.1': (7, 0), '7.1.2': (7, 2), '7.1.4': (7, 4), '3.1.2': (3, 2)}
CODE = {'Mono': 0, 'Stereo': 1, '5.1': 2, '5.1.2': 3, '5.1.4': 4, '7.1': 5, '7.1.2': 6, '7.1.4': 7, '3.1.2': 8}
BINAURAL, EXPANDED = 9, 15

# expanded layout -> (substreams, (surround, lfe, height, bottom)) (IAMF v2 section 3.6.3)
_916 = ['FLc', 'FRc', 'FL', 'FR', 'SiL', 'SiR', 'BL', 'BR', 'TpFL', 'TpFR', 'TpSiL', 'TpSiR', 'TpBL', 'TpBR']
_714 = ['L7', 'R7', 'Lss7', 'Rss7', 'Lrs7', 'Rrs7', 'Ltf4', 'Rtf4', 'Ltb4', 'Rtb4']
EXP = {
    0: ([], ['LFE'], (0, 1, 0, 0)), 1: (['Ls5', 'Rs5'], [], (2, 0, 0, 0)), 2: (['Lss7', 'Rss7'], [], (2, 0, 0, 0)), 3: (['Lrs7', 'Rrs7'], [], (2, 0, 0, 0)),
    4: (['Ltf4', 'Rtf4'], [], (0, 0, 2, 0)), 5: (['Ltb4', 'Rtb4'], [], (0, 0, 2, 0)), 6: (['Ltf4', 'Rtf4', 'Ltb4', 'Rtb4'], [], (0, 0, 4, 0)),
    7: (['L7', 'R7'], ['Centre'], (3, 0, 0, 0)), 8: (_916, ['FC', 'LFE'], (9, 1, 6, 0)), 9: (['FL', 'FR'], [], (2, 0, 0, 0)),
    10: (['SiL', 'SiR'], [], (2, 0, 0, 0)), 11: (['TpSiL', 'TpSiR'], [], (0, 0, 2, 0)),
    12: (['TpFL', 'TpFR', 'TpSiL', 'TpSiR', 'TpBL', 'TpBR'], [], (0, 0, 6, 0)),
    13: (_916 + ['BtFL', 'BtFR'], ['FC', 'BC', 'TpFC', 'TpC', 'TpBC', 'BtFC', 'LFE', 'LFE2'], (10, 2, 9, 3)),
    14: ([], ['LFE', 'LFE2'], (0, 2, 0, 0)), 15: (['BtFL', 'BtFR'], ['BtFC'], (0, 0, 0, 3)),
    16: (_714 + ['BtFL', 'BtFR', 'BtBL', 'BtBR'], ['Centre', 'TpC', 'LFE'], (7, 1, 5, 4)),
    17: (['BtFL', 'BtFR', 'BtBL', 'BtBR'], [], (0, 0, 0, 4)), 18: ([], ['TpC'], (0, 0, 1, 0)), 19: (['Ltf4', 'Rtf4', 'Ltb4', 'Rtb4'], ['TpC'], (0, 0, 5, 0)),
}
GAIN = {'Mono': 5, 'L2': 5, 'L3': 5, 'R2': 4, 'R3': 4, 'Ls5': 3, 'Rs5': 2, 'Ltf2': 1, 'Ltf3': 1, 'Rtf2': 0, 'Rtf3': 0}


def labels(lay):
    s, h = LAYOUTS[lay]
    out = {1: ['Mono'], 2: ['L2', 'R2'], 3: ['L3', 'R3', 'Centre', 'LFE'], 5: ['L5', 'R5', 'Ls5', 'Rs5', 'Centre', 'LFE'],
           7: ['L7', 'R7', 'Lss7', 'Rss7', 'Lrs7', 'Rrs7', 'Centre', 'LFE']}[s]
    return out + ({0: [], 2: ['Ltf3', 'Rtf3'] if s == 3 else ['Ltf2', 'Rtf2'], 4: ['Ltf4', 'Rtf4', 'Ltb4', 'Rtb4']}[h])


def pair(l):
    return [l[i:i + 2] for i in range(0, len(l), 2)]


def group(prev, lay):
    """(coupled substreams, single substreams) a layer adds (IAMF v1.1 section 3.6.3)."""
    s, h = LAYOUTS[lay]
    if prev is None:
        l = labels(lay)
        return pair([x for x in l if x not in ('Mono', 'Centre', 'LFE')]), [[x] for x in l if x in ('Mono', 'Centre', 'LFE')]
    s0, h0 = LAYOUTS[prev]
    cpl, non = [], []
    if s0 < 5 <= s:
        cpl.append(['L5', 'R5'])
    if s0 < 7 <= s:
        cpl.append(['Lss7', 'Rss7'])
    if h > h0:
        if h == 4:
            cpl.append(['Ltf4', 'Rtf4'])
            if h0 == 0:
                cpl.append(['Ltb4', 'Rtb4'])
        else:
            cpl.append(['Ltf3', 'Rtf3'] if s == 3 else ['Ltf2', 'Rtf2'])
    if s0 < 3 <= s:
        non += [['Centre'], ['LFE']]
    if s0 < 2 <= s:
        non.append(['L2'])
    return cpl, non


def chains():
    """Every sequence of different layouts in which no channel number decreases."""
    def grow(ch):
        yield ch
        for n in LAYOUTS:
            if n not in ch and all(x <= y for x, y in zip(LAYOUTS[ch[-1]], LAYOUTS[n])):
                for x in grow(ch + [n]):
                    yield x
    for n in LAYOUTS:
        for x in grow([n]):
            yield x


def run():
    P = db.load()
    c = check.Check('C13', RULE, ['the layouts, mappings and counts of an element are enumerated; ids are fixed distinct numbers'])
    L = {n[1:]: v for n, v in P.enum['iamf_tools::ChannelLabel::Label']['e']}
    NAME = {v: n for n, v in L.items()}

    def fn(name, np=None):
        return [f for f in P.fn.values() if f['n'] == name and f.get('b') and '_test' not in f['f'] and '/tests/' not in f['f'] and (np is None or len(f['p']) == np)]

    def typ(f, i):
        return f['p'][i][2].replace('&', '').replace('const ', '').strip()

    def nums(I, q):
        return {k: v for k, v in zip(('surround', 'lfe', 'height', 'bottom'), q)}

    def entries(m):
        return [(k, cell.v.f['second'].v) for k, cell in m.entries if cell is not absmodels.ABSENT]

    def lab_map(I, m):
        out = {}
        for k, v in entries(m):
            items = v.items if isinstance(v, Vec) else None
            out[I.concrete(k)] = [NAME.get(I.concrete(x.v), '?') for x in items]
        return out

    def gains_of(I, m):
        return {NAME.get(I.concrete(k), '?'): v for k, v in entries(m)}

    def layer(I, code, sub, cpl, exp=None, gain=None):
        lc = I.fresh('iamf_tools::ChannelAudioLayerConfig', 'layer')
        lc.f['loudspeaker_layout'] = Cell(code)
        lc.f['expanded_loudspeaker_layout'] = Cell(Opt(0, None) if exp is None else Opt(1, Cell(exp)))
        lc.f['substream_count'] = Cell(sub)
        lc.f['coupled_substream_count'] = Cell(cpl)
        lc.f['output_gain_is_present_flag'] = Cell(1 if gain else 0)
        lc.f['recon_gain_is_present_flag'] = Cell(0)
        lc.f['output_gain_flag'] = Cell(gain[0] if gain else 63)
        lc.f['output_gain'] = Cell(gain[1] if gain else 999)
        return Cell(lc)

    def scalable(I, lays):
        sc = I.fresh('iamf_tools::ScalableChannelLayoutConfig', 'scalable')
        sc.f['channel_audio_layer_configs'] = Cell(Vec('std::vector<iamf_tools::ChannelAudioLayerConfig>', [layer(I, *x) for x in lays]))
        return sc

    def ids_vec(I, ids):
        return Vec('std::vector<uint32_t>', [Cell(x) for x in ids])

    def ids_for(n):
        return [(37 * (i + 3)) % 101 + (300 if i % 3 else 0) for i in range(n)]      # distinct, in no particular order

    def verdict(I, m, g, nl, want, name):
        got = lab_map(I, m)
        ids, subs, gains, numbers = want
        w = dict(zip(ids, subs))
        if got != w:
            for k in ids:
                if got.get(k) != w[k]:
                    return ('FAIL', 'substream %d of %s carries %s instead of %s' % (ids.index(k), name, got.get(k), w[k]))
            return ('FAIL', 'substream ids %s of %s appear from nowhere' % (sorted(set(got) - set(w)), name))
        out = []
        if g is not None:
            gg = gains_of(I, g)
            for k in sorted(set(gg) ^ set(gains)):
                return ('FAIL', 'channel %s of %s %s an output gain' % (k, name, 'is given' if k in gg else 'is not given'))
            out += [('the output gain of %s in %s' % (k, name), gg[k], gains[k]) for k in gains]
        if nl is not None:
            n = I.concrete(I.size(nl))
            if n != len(numbers):
                return ('FAIL', '%d layers of channel numbers for %s' % (n, name))
            for i, q in enumerate(numbers):
                o = I.at(nl, i).v
                for k, v in nums(I, q).items():
                    out.append(('%s of layer %d of %s' % (k, i, name), o.f[k], v))
        return out

    fins = fn('FinalizeScalableChannelLayoutConfig', 5)

    def call(ids, lays, want, name, key=''):
        for f in fins:
            def b_(I):
                m, g = Cell(I.default(typ(f, 2))), Cell(I.default(typ(f, 3)))
                nl = Cell(I.default(typ(f, 4)))
                return None, [Cell(ids_vec(I, ids)), Cell(scalable(I, lays)), m, g, nl], {'m': m, 'g': g, 'nl': nl}

            def o_(I, e, t):
                if want is ERR or t['out'] != 'ret':
                    return ERR
                r = t['ret']
                if isinstance(r, StatusV) and r.ok is not True:
                    return []
                return verdict(I, e['m'].v, e['g'].v, e['nl'].v, want, name)
            check_fn(c, P, f, b_, o_, K=4, key='%s|%s%s' % (f['f'], f['n'], key))

    every = list(chains())

    def of(ch, salt=0):
        """layer tuples, substreams, gains and channel numbers of a sequence"""
        lays, subs, gains, numbers = [], [], {}, []
        prev = None
        for i, lay in enumerate(ch):
            cpl, non = group(prev, lay)
            flag = (salt * 37 + i * 21 + 63) % 64
            raw = (-32768, 32767, -1, 256, 0, 1537, -640)[(salt + i) % 7]
            on = (salt + i) % 4 != 3
            lays.append((CODE[lay], len(cpl) + len(non), len(cpl), None, (flag, raw) if on else None))
            if on:
                for l in itertools.chain(*(cpl + non)):
                    if l in GAIN and flag >> GAIN[l] & 1:
                        gains[l] = raw / 256.0
            subs += cpl + non
            s, h = LAYOUTS[lay]
            numbers.append((s, 1 if s >= 3 else 0, h, 0))
            prev = lay
        return lays, subs, gains, numbers

    def layered(item):
        idx, ch = item
        name = 'the layers ' + ' > '.join(ch)
        lays, subs, gains, numbers = of(ch, idx)
        ids = ids_for(len(subs))
        call(ids, lays, (ids, subs, gains, numbers), name)
        if len(ch) <= 2:
            for salt in range(1, 12):
                lays, subs, gains, numbers = of(ch, idx + salt)
                call(ids, lays, (ids, subs, gains, numbers), name)
        # what does not agree
        call(ids[:-1], lays, ERR, name, '|few')
        call(ids + [77777], lays, ERR, name, '|many')
        if len(ids) > 1:
            call(ids[:-1] + ids[:1], lays, ERR, name, '|twice')
        for i in range(len(ch)):
            if len(ch) > 3 and i != idx % len(ch):
                continue
            for ds, dc in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1)):
                x = list(lays[i])
                x[1] += ds
                x[2] += dc
                if min(x[1:3]) >= 0:
                    call(ids, lays[:i] + [tuple(x)] + lays[i + 1:], ERR, name, '|counts')
        # a layer which takes channels away
        for lay in LAYOUTS:
            if any(x > y for x, y in zip(LAYOUTS[ch[-1]], LAYOUTS[lay])) and (len(ch) < 3 or idx % 5 == 0):
                for extra in (0, 1):
                    call(ids + [9000 + k for k in range(extra)], lays + [(CODE[lay], extra, 0, None, None)], ERR, name + ' > ' + lay, '|shrink')
    c.fork(list(enumerate(every)), layered)

    # layouts that stand alone
    for base in (0, 7):
        lays = [(BINAURAL, 1, 1, None, (63, 512))]
        call([5 + base], lays, ([5 + base], [['L2', 'R2']], {'L2': 2.0, 'R2': 2.0}, [(2, 0, 0, 0)]), 'the binaural layout')
    for code in range(10, 15):
        for sub, cpl in ((0, 0), (1, 0), (1, 1)):
            call(ids_for(sub), [(code, sub, cpl, None, None)], ERR, 'the reserved layout %d' % code, '|reserved')
            call([1] + [x + 5 for x in ids_for(sub)], [(0, 1, 0, None, None), (code, sub, cpl, None, None)], ERR, 'the reserved layout %d' % code, '|reserved')
    for e, (cpl, non, numbers) in EXP.items():
        subs = pair(cpl) + [[x] for x in non]
        ids = ids_for(len(subs))
        name = 'the expanded layout %d' % e
        lay = (EXPANDED, len(subs), len(cpl) // 2, e, None)
        call(ids, [lay], (ids, subs, {}, [numbers]), name)
        call(ids[:-1], [lay], ERR, name, '|few')
        call(ids + [77777], [lay], ERR, name, '|many')
        call(ids, [(EXPANDED, len(subs) + 1, len(cpl) // 2, e, None)], ERR, name, '|counts')
        call(ids, [(EXPANDED, len(subs), len(cpl) // 2 + 1, e, None)], ERR, name, '|counts')
        call([7] + [x + 1000 for x in ids], [(0, 1, 0, None, None), lay], ERR, name + ' in a second layer', '|second')
    call([7], [(EXPANDED, 1, 1, None, None)], ERR, 'an expanded layout which is missing', '|missing')
    for e in (21, 100, 254):
        call([7], [(EXPANDED, 1, 1, e, None)], ERR, 'the reserved expanded layout %d' % e, '|reserved')

    # scene-based and object-based elements
    def element(I, kind, ids, body):
        el = I.fresh('iamf_tools::AudioElementObu', 'element')
        el.f['audio_substream_ids_'] = Cell(ids_vec(I, ids))
        el.f['audio_element_type_'] = Cell(kind)
        el.f['audio_element_id_'] = Cell(11)
        el.f['codec_config_id_'] = Cell(21)
        t = [x['t'] for r in P.rec.values() if r['q'] == 'iamf_tools::AudioElementObu' for x in r['fs'] if x['n'] == 'config_'][0]
        v = I.fresh(t, 'config')
        which, ob = body(I)
        k = [i for i, x in enumerate(v.alts) if x.endswith(which)][0]
        el.f['config_'] = Cell(Variant(v.alts, k, Cell(ob)))
        return el

    def ambisonics(I, which, fields):
        a = I.fresh('iamf_tools::AmbisonicsConfig', 'ambisonics')
        t = [x['t'] for r in P.rec.values() if r['q'] == 'iamf_tools::AmbisonicsConfig' for x in r['fs'] if x['n'] == 'ambisonics_config'][0]
        v = I.fresh(t, 'config')
        k = [i for i, x in enumerate(v.alts) if x.endswith(which)][0]
        o = I.fresh('iamf_tools::' + which, 'mode')
        for n, x in fields.items():
            o.f[n] = Cell(x)
        a.f['ambisonics_config'] = Cell(Variant(v.alts, k, Cell(o)))
        return a

    TYPES = {n: v for n, v in P.enum['iamf_tools::AudioElementObu::AudioElementType']['e']}

    def scene(ids, which, fields, want, name, kind='kAudioElementSceneBased', key=''):
        for f in fn('FinalizeAmbisonicsConfig', 2):
            def b_(I):
                m = Cell(I.default(typ(f, 1)))
                el = element(I, TYPES[kind], ids, lambda I: ('AmbisonicsConfig', ambisonics(I, which, {k: (Vec('uint8_t', [Cell(q) for q in x]) if isinstance(x, list) else x) for k, x in fields.items()})))
                return None, [Cell(el), m], {'m': m}

            def o_(I, e, t):
                if want is ERR or t['out'] != 'ret':
                    return ERR
                if isinstance(t['ret'], StatusV) and t['ret'].ok is not True:
                    return []
                return verdict(I, e['m'].v, None, None, (ids, want, None, None), name)
            check_fn(c, P, f, b_, o_, K=4, key='%s|%s%s' % (f['f'], f['n'], key))

    for n in (1, 4, 9, 16, 25):
        maps = [list(range(n)), list(range(n))[::-1], [(i * 7 + 3) % n if n not in (7,) else i for i in range(n)]]
        if n > 1:
            maps += [[255] + list(range(n - 1)), list(range(n - 1)) + [255], [255 if i % 2 else i // 2 for i in range(n)], [0] + [255] * (n - 1), [255] * (n - 1) + [0]]
        for m in maps:
            k = len(set(m) - {255})
            if sorted(x for x in m if x != 255) != list(range(k)):
                continue
            ids = ids_for(k)
            want = [None] * k
            for acn, s in enumerate(m):
                if s != 255:
                    want[s] = ['A%d' % acn]
            scene(ids, 'AmbisonicsMonoConfig', {'substream_count_': k, 'channel_mapping_': m}, want, 'ambisonics mapped %s' % m)
        for sub in range(1, n + 1):
            for cpl in range(0, sub + 1):
                if sub + cpl > n or (n > 9 and (sub * 5 + cpl) % 7):
                    continue
                ids = ids_for(sub)
                want = [['A%d' % (2 * i), 'A%d' % (2 * i + 1)] if i < cpl else ['A%d' % (cpl + i)] for i in range(sub)]
                fl = {'output_channel_count_': n, 'substream_count_': sub, 'coupled_substream_count_': cpl, 'demixing_matrix_': [0] * ((sub + cpl) * n if n < 10 else 0)}
                scene(ids, 'AmbisonicsProjectionConfig', fl, want, 'projected ambisonics of %d + %d substreams' % (cpl, sub - cpl))
                if n < 5:
                    scene(ids + [9999], 'AmbisonicsProjectionConfig', fl, ERR, '', key='|many')
                    scene(ids[:-1], 'AmbisonicsProjectionConfig', fl, ERR, '', key='|few')
    for k in ('kAudioElementChannelBased', 'kAudioElementObjectBased'):
        scene([3], 'AmbisonicsMonoConfig', {'substream_count_': 1, 'channel_mapping_': [0]}, ERR, '', kind=k, key='|type')
    # more channels than labels exist for
    scene(ids_for(36), 'AmbisonicsMonoConfig', {'substream_count_': 36, 'channel_mapping_': list(range(36))}, ERR, '', key='|order')
    scene(ids_for(26), 'AmbisonicsProjectionConfig', {'output_channel_count_': 36, 'substream_count_': 26, 'coupled_substream_count_': 0, 'demixing_matrix_': []}, ERR, '', key='|order')
    scene(ids_for(13), 'AmbisonicsProjectionConfig', {'output_channel_count_': 36, 'substream_count_': 13, 'coupled_substream_count_': 13, 'demixing_matrix_': []}, ERR, '', key='|order')

    def objects(ids, count, want, kind='kAudioElementObjectBased', wrong=False):
        for f in fn('FinalizeObjectsConfig', 2):
            def b_(I):
                m = Cell(I.default(typ(f, 1)))

                def body(I):
                    if wrong:
                        return 'ScalableChannelLayoutConfig', scalable(I, [])
                    o = I.fresh('iamf_tools::ObjectsConfig', 'objects')
                    for x in [x['n'] for r in P.rec.values() if r['q'] == 'iamf_tools::ObjectsConfig' for x in r['fs']]:
                        if 'num' in x:
                            o.f[x] = Cell(count)
                    return 'ObjectsConfig', o
                el = element(I, TYPES[kind], ids, body)
                return None, [Cell(el), m], {'m': m}

            def o_(I, e, t):
                if want is ERR or t['out'] != 'ret':
                    return ERR
                if isinstance(t['ret'], StatusV) and t['ret'].ok is not True:
                    return []
                return verdict(I, e['m'].v, None, None, (ids, want, None, None), '%d objects' % count)
            check_fn(c, P, f, b_, o_, K=4, key='%s|%s' % (f['f'], f['n']))
    for n in (0, 1, 2, 3, 4, 255):
        w = [['ObjectChannel%d' % i for i in range(n)]] if n in (1, 2) else ERR
        objects([44], n, w)
        objects([44, 45], n, ERR)
        objects([], n, ERR)
        objects([44], n, ERR, kind='kAudioElementSceneBased')
        objects([44], n, ERR, wrong=True)

    # the element which is handed on: its labels, gains, layers and codec configuration
    gens = fn('GenerateAudioElementWithData', 2)

    def whole(kind, ids, body, want, name, codecs=(20, 21, 22), key=''):
        for f in gens:
            def b_(I):
                m = I.default(typ(f, 0))
                cc = {}
                for k in codecs:
                    o = I.fresh('iamf_tools::CodecConfigObu', 'codec%d' % k)
                    absmodels.map_put(I, m, k, o)
                return None, [Cell(m), Cell(element(I, TYPES[kind], ids, body))], {'m': m}

            def o_(I, e, t):
                if want is ERR or t['out'] != 'ret':
                    return ERR
                r = t['ret']
                if not isinstance(r, SOr) or r.st.ok is not True:
                    return []
                d = r.cell.v.f
                v = verdict(I, d['substream_id_to_labels'].v, d['label_to_output_gain'].v, d['channel_numbers_for_layers'].v, want, name)
                if isinstance(v, tuple):
                    return v
                mine = [cell for k, cell in e['m'].entries if cell is not absmodels.ABSENT and I.concrete(k) == 21]
                p = d['codec_config'].v
                if not isinstance(p, Ptr) or p.cell is None or p.cell.v is not mine[0].v.f['second'].v:
                    return ('FAIL', 'the element is not given the codec configuration it names')
                kept = [I.concrete(x.v) for x in d['obu'].v.f['audio_substream_ids_'].v.items]
                if kept != list(ids):
                    return ('FAIL', 'the element handed on has the substreams %s instead of %s' % (kept, list(ids)))
                return v
            check_fn(c, P, f, b_, o_, K=4, key='%s|%s%s' % (f['f'], f['n'], key))
    for idx, ch in enumerate(every):
        if idx % 7:
            continue
        lays, subs, gains, numbers = of(ch, idx)
        ids = ids_for(len(subs))
        body = lambda I, lays=lays: ('ScalableChannelLayoutConfig', scalable(I, lays))
        name = 'the layers ' + ' > '.join(ch)
        whole('kAudioElementChannelBased', ids, body, (ids, subs, gains, numbers), name)
        whole('kAudioElementChannelBased', ids, body, ERR, name, codecs=(20, 22), key='|codec')
        whole('kAudioElementChannelBased', ids[:-1], body, ERR, name, key='|few')
    for n in (1, 4, 16):
        ids = ids_for(n)
        body = lambda I, n=n: ('AmbisonicsConfig', ambisonics(I, 'AmbisonicsMonoConfig', {'substream_count_': n, 'channel_mapping_': Vec('uint8_t', [Cell(q) for q in range(n)])}))
        whole('kAudioElementSceneBased', ids, body, (ids, [['A%d' % i] for i in range(n)], {}, []), 'ambisonics of %d channels' % n)
        whole('kAudioElementSceneBased', ids, body, ERR, '', codecs=(), key='|codec')
    whole('kAudioElementChannelBased', [1], lambda I: ('AmbisonicsConfig', ambisonics(I, 'AmbisonicsMonoConfig', {'substream_count_': 1, 'channel_mapping_': Vec('uint8_t', [Cell(0)])})), ERR, '', key='|type')
    c.require('functions', 300)
    return c
