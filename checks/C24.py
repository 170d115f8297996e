"""Decoded samples reach the output in the right channel, at the right tick, as the right bytes."""
import check, db, ir, absx, absmodels, spec
from absval import *
from absval import T
from contract import *

RULE = ('abstract interpretation over symbolic samples and trim counts: the arranged frame holds, per requested label, the samples of that label (or of '
        'its reconstruction) without the trimmed ticks; interleaving and de-interleaving are the index map t*channels+c; a PCM sample becomes its '
        'most significant bytes in the requested order; the channel permutation of every sound system is the specified one')

# Android channel masks are in bit order; IAMF channel orders of the sound systems (ITU-R BS.2051-3, IAMF v1.1 section 7.3.1).
SWAP = [0, 1, 2, 3, 6, 7, 4, 5]
ANDROID = {5: [1, 2, 0, 10, 7, 8, 5, 6, 9, 3, 4, 11], 6: [0, 1, 2, 3, 6, 7, 12, 13, 4, 5, 8, 9, 10, 11],
           7: [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 15, 12, 14, 13, 16, 20, 17, 18, 19, 22, 21, 23, 9],
           8: SWAP, 9: SWAP + [8, 9, 10, 11], 10: SWAP + [8, 9]}
CHANNELS = [2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16]


def run():
    P = db.load()
    c = check.Check('C24', RULE, ['frames of at most 4 channels and 4 ticks (24 channels in the permutation)'])
    L = {n[1:]: v for n, v in P.enum['iamf_tools::ChannelLabel::Label']['e']}

    def fn(name, where='', np=None):
        return [f for f in P.fn.values() if f['n'] == name and f.get('b') and '_test' not in f['f'] and '/tests/' not in f['f'] and where in f['f'] and (np is None or len(f['p']) == np)]

    def typ(f, i):
        return f['p'][i][2].replace('&', '').replace('const ', '').strip()

    def smp(label, t):
        return var('%s[%d]' % (label, t), -1.0, 1.0, True)

    # -- PCM bytes
    for f in fn('WritePcmSample', 'sample_processing_utils'):
        for size in list(range(0, 41)) + [48, 64, 128, 255]:
            for big in (0, 1):
                for pos in (0, 3):
                    def b_(I, size=size, big=big, pos=pos):
                        s = var('sample', 0, 2 ** 32 - 1)
                        buf = Vec('unsigned char', [Cell(var('old%d' % i, 0, 255)) for i in range(8)])
                        p = Cell(pos)
                        return None, [Cell(s), Cell(size), Cell(big), Cell(Ptr(absx.ElemRef(I, buf, 0))), p], {'s': s, 'b': buf, 'p': p}

                    def o_(I, e, t, size=size, big=big, pos=pos):
                        if size % 8 or size > 32:
                            return ERR
                        n = size // 8
                        out = [('the write position', e['p'], pos + n)]
                        for i in range(8):
                            k = i - pos
                            if 0 <= k < n:
                                sh = 24 - 8 * k if big else 32 - size + 8 * k
                                w = op('shr', [e['s'], sh], 0, 2 ** (32 - sh) - 1) if sh else e['s']
                                w = op('and', [w, 255], 0, 255) if sh < 24 else w
                            else:
                                w = var('old%d' % i, 0, 255)
                            out.append(('byte %d of a %d bit sample' % (k, size), I.at(e['b'], i), w))
                        return out
                    check_fn(c, P, f, b_, o_, K=12, key='%s|WritePcmSample' % f['f'])

    # -- (time, channel) <-> (channel, time)
    def transform(limit):
        """x -> 3x+1, refused from `limit` values on."""
        def f(I, cells):
            I.calls = getattr(I, 'calls', 0) + 1
            if limit is not None and I.calls > limit:
                return StatusV(False, 3, 'refused')
            cells[1].v = add(scale(cells[0].v, 3), 1)
            return StatusV(True)
        return f
    SHAPES = [(1, 0), (1, 1), (1, 3), (2, 2), (3, 2), (4, 1), (2, 0), (2, 4)]
    for f in fn('ConvertInterleavedToChannelTime'):
        if 'type-parameter' in f['p'][0][2] or 'InputType' in f['p'][0][2]:
            continue
        for ch, n in SHAPES:
            for extra in (0, 1):
                for old in (0, 1):
                    for limit in (None, 0, ch * n - 1):
                        def b_(I, ch=ch, n=n, extra=extra, old=old, limit=limit):
                            k = ch * n + extra
                            I.calls = 0
                            xs = [Cell(var('in%d' % i, -1.0, 1.0, True) if 'double' in f['p'][0][2] or 'float' in f['p'][0][2] else var('in%d' % i, -2 ** 15, 2 ** 15 - 1)) for i in range(k)]
                            out = Cell(Vec('std::vector<double>', [Cell(Vec('double', [Cell(7.0) for _ in range(5)])) for _ in range(ch + 1)] if old else []))
                            return None, [Cell(View(Vec('int', xs), 0, k)), Cell(ch), out, Cell(FnRef(transform(limit), 'transform'))], {'o': out, 'x': [x.v for x in xs]}

                        def o_(I, e, t, ch=ch, n=n, extra=extra, limit=limit):
                            if (extra and ch > 1) or (limit is not None and max(limit, 0) < ch * n + extra):
                                return ERR
                            m = (ch * n + extra) // ch
                            return [('the frame of %d channels' % ch, e['o'], [[add(scale(e['x'][q * ch + k], 3), 1) for q in range(m)] for k in range(ch)])]
                        check_fn(c, P, f, b_, o_, K=8, key='%s|%s' % (f['f'], f['n']))
    for f in fn('ConvertChannelTimeToInterleaved'):
        if 'type-parameter' in f['p'][0][2] or 'InputType' in f['p'][0][2]:
            continue
        for ch, n in SHAPES + [(0, 0)]:
            for fault in ([None] + list(range(ch)) if ch > 1 else [None]):
                for limit in (None, ch * n - 1):
                    for old in (0, 1):
                        def b_(I, ch=ch, n=n, fault=fault, old=old, limit=limit):
                            I.calls = 0
                            fr = []
                            for k in range(ch):
                                m = n + 1 if k == fault else n
                                fr.append(Cell(View(Vec('int', [Cell(var('in%d.%d' % (k, q), -2 ** 31, 2 ** 31 - 1)) for q in range(m)]), 0, m)))
                            out = Cell(Vec('double', [Cell(5.0) for _ in range(ch * n + 3 if old else 0)]))
                            return None, [Cell(View(Vec('absl::Span<const int>', fr), 0, ch)), out, Cell(FnRef(transform(limit), 'transform'))], {'o': out}

                        def o_(I, e, t, ch=ch, n=n, fault=fault, limit=limit):
                            if fault is not None or (limit is not None and max(limit, 0) < ch * n):
                                return ERR
                            return [('the interleaved frame of %d channels' % ch, e['o'], [add(scale(var('in%d.%d' % (k, q), -2 ** 31, 2 ** 31 - 1), 3), 1) for q in range(n) for k in range(ch)])]
                        check_fn(c, P, f, b_, o_, K=8, key='%s|%s' % (f['f'], f['n']))

    # -- arranging
    for f in fn('ArrangeSamples'):
        spec_ = {x['n']: x['t'] for r in P.rec.values() if r['q'] == 'iamf_tools::LabeledFrame' for x in r['fs']}
        TS = typ(f, 3)
        for order, have, empty in ((['L2', 'R2'], {'L2': 4, 'R2': 4}, 4), (['R2', 'L2'], {'L2': 3, 'DemixedR2': 3}, 5), (['L7', 'Omitted', 'Centre'], {'DemixedL7': 4, 'Centre': 4, 'LFE': 2}, 4),
                                   (['Omitted', 'LFE'], {'LFE': 3}, 2), (['L2', 'R2'], {'L2': 3, 'R2': 2}, 4), (['L2', 'R2'], {'L2': 3}, 4), (['Omitted'], {'LFE': 3}, 4), (['Mono'], {'Mono': 0}, 0),
                                   ([], {}, 0), (['L2', 'R2'], {'L2': 3, 'R2': 3, 'DemixedR2': 3}, 4), (['L7', 'Omitted', 'Centre'], {'L7': 4, 'Centre': 3}, 4), (['Omitted', 'L7', 'R7'], {'L7': 3, 'R7': 4}, 5)):
            for tb in (0, 1):
                for te in (0, 1):
                    def b_(I, order=order, have=have, empty=empty, tb=tb, te=te):
                        lf = I.fresh('iamf_tools::LabeledFrame', 'frame')
                        s, e = var('trim_start', 0, 2 ** 32 - 1), var('trim_end', 0, 2 ** 32 - 1)
                        lf.f['samples_to_trim_at_start'], lf.f['samples_to_trim_at_end'] = Cell(s), Cell(e)
                        m = I.default(spec_['label_to_samples'])
                        for x, n in have.items():
                            absmodels.map_put(I, m, L[x], Vec('double', [Cell(smp(x, i)) for i in range(n)]))
                        lf.f['label_to_samples'] = Cell(m)
                        ol = Vec('int', [Cell(L[x]) for x in order])
                        ec = Vec('double', [Cell(smp('empty', i)) for i in range(empty)])
                        ts = I.fresh(TS, 'trim')
                        ts.f['trim_beginning'], ts.f['trim_end'] = Cell(tb), Cell(te)
                        out = Cell(Vec('absl::Span<const double>', [Cell(View(Vec('double', []), 0, 0)) for _ in order]))
                        nv = Cell(var('old_ticks', 0, 99))
                        return None, [Cell(lf), Cell(View(ol, 0, len(order))), Cell(View(ec, 0, empty)), Cell(ts), out, nv], {'s': s if tb else 0, 'e': e if te else 0, 'out': out, 'n': nv}

                    def o_(I, e, t, order=order, have=have, empty=empty):
                        if not order:
                            return []
                        src = []
                        for x in order:
                            if x == 'Omitted':
                                src.append(('empty', None))
                            elif x in have:
                                src.append((x, have[x]))
                            elif 'Demixed' + x in have:
                                src.append(('Demixed' + x, have['Demixed' + x]))
                            else:
                                return ERR
                        ns = {n for _, n in src if n is not None}
                        if len(ns) != 1 or empty < min(ns):
                            return ERR
                        n = ns.pop()
                        if not I.decide(I.rel('<=', add(e['s'], e['e']), n)):
                            return ERR
                        s, q = 0, 0
                        while not I.decide(I.rel('==', e['s'], s)):
                            s += 1
                        while not I.decide(I.rel('==', e['e'], q)):
                            q += 1
                        if t['out'] != 'ret':
                            return []
                        return [('the number of ticks', e['n'], n - s - q)] + [
                            ('channel %d (%s)' % (i, lab), I.at(e['out'].v, i).v, [smp(lab, k) for k in range(s, n - q)]) for i, (lab, _) in enumerate(src)]
                    check_fn(c, P, f, b_, o_, K=12, key='%s|ArrangeSamples' % f['f'])

    # -- the channel order of the output
    create = [f for f in fn('Create', 'channel_reorderer')]
    for f in fn('Reorder', 'channel_reorderer'):
        for scheme in (0, 1):
            for sysn in range(0, 14):
                for nch in sorted({CHANNELS[sysn], 0, CHANNELS[sysn] - 1}):
                    perm = ANDROID.get(sysn, list(range(CHANNELS[sysn]))) if scheme else list(range(CHANNELS[sysn]))

                    def b_(I, sysn=sysn, nch=nch, scheme=scheme):
                        r = I.call_fn(create[0], None, [Cell(sysn), Cell(scheme)])
                        r = r if isinstance(r, Cell) else Cell(r)
                        fr = Cell(Vec('absl::Span<const double>', [Cell(View(Vec('double', [Cell(smp('c%d' % i, 0)), Cell(smp('c%d' % i, 1))]), 0, 2)) for i in range(nch)]))
                        return r, [fr], {'f': fr}

                    def o_(I, e, t, nch=nch, perm=perm):
                        if nch < len(perm):
                            return None             # not the layout's frame: only that nothing undefined happens
                        return [('the reordered frame (source of output channel %d of sound system %d)' % (i, sysn), I.at(e['f'].v, i).v, [smp('c%d' % k, 0), smp('c%d' % k, 1)]) for i, k in enumerate(perm)]
                    check_fn(c, P, f, b_, o_, K=6, key='%s|Reorder' % f['f'])
    c.require('functions', 100)
    return c
