"""LPCM frames decode to exactly the samples their bytes define."""
import check, db, ir, absx, absmodels, spec
from absval import *
from absval import T
from contract import *

RULE = ('for every LPCM decoder configuration (any flag byte, sample size, sample rate), channel count and history of two frames of up to '
        'sixteen ticks or any ragged length, the configuration is accepted exactly when the format allows it, a frame is refused exactly when '
        'it is not a whole number of ticks or longer than the configured frame, and the decoded samples are the left-justified integers of '
        'the bytes divided by 2^31, channel by channel (abstract interpretation over symbolic bytes; linear terms)')

RATES = (16000, 32000, 44100, 48000, 96000)
SIZES = (16, 24, 32)
CFG = 'iamf_tools::LpcmDecoderConfig'
DEC = 'iamf_tools::LpcmDecoder'


class Bad(Exception):
    pass


def fails(I, msg):
    p = spec.feasible(I)
    if p:
        raise Bad('%s (e.g. %s)' % (msg, p))
    I.und = getattr(I, 'und', 0) + 1


def run():
    P = db.load()
    c = check.Check('C26', RULE, ['frames of at most sixteen ticks', 'histories of at most three frames'])
    rec = [r for r in P.rec.values() if r['q'] == CFG]

    def fn(q):
        return [f for f in P.fn.values() if f['q'] == q and f.get('b') and '/tests/' not in f['f']]
    create, decode, count = fn(DEC + '::Create'), fn(DEC + '::DecodeAudioFrame'), fn('iamf_tools::SubstreamChannelCount::Create')
    valid = [f for q in ('ValidDecodedSamples',) for f in fn('iamf_tools::DecoderBase::' + q)]
    if not (rec and create and decode and valid and count):
        c.notes['not found'] = [n for n, v in (('config', rec), ('Create', create), ('DecodeAudioFrame', decode), ('ValidDecodedSamples', valid), ('SubstreamChannelCount', count)) if not v]
        return c
    create, decode, count, valid = create[0], decode[0], count[0], valid[0]

    def config(I, flags=None, size=None, rate=None):
        o = I.fresh(CFG, 'config')
        o.f['sample_format_flags_bitmask_'] = Cell(var('flags', 0, 255) if flags is None else flags)
        o.f['sample_size_'] = Cell(var('sample_size', 0, 255) if size is None else size)
        o.f['sample_rate_'] = Cell(var('sample_rate', 0, 2**32 - 1) if rate is None else rate)
        return o

    def eqs(I, v, vals):
        return any(I.decide(I.rel('==', v, x)) for x in vals)

    # -- the configuration
    def b(I):
        o = config(I)
        e = {'o': o, 'roll': var('audio_roll_distance', -2**15, 2**15 - 1)}
        return o, [Cell(e['roll'])], e

    def ok_cfg(I, o):
        return eqs(I, o.f['sample_format_flags_bitmask_'].v, (0, 1)) and eqs(I, o.f['sample_size_'].v, SIZES) and eqs(I, o.f['sample_rate_'].v, RATES)

    def val(I, e, t):
        return [] if ok_cfg(I, e['o']) and I.decide(I.rel('==', e['roll'], 0)) else ERR

    def own(name):
        return fn(CFG + '::' + name)
    for f in own('Validate'):
        check_fn(c, P, f, b, val)
    for f in own('IsLittleEndian'):
        def bb(I):
            o = config(I, flags=var('flags', 0, 1))
            return o, [], {'o': o}
        check_fn(c, P, f, bb, lambda I, e, t: [('IsLittleEndian', t.get('ret'), e['o'].f['sample_format_flags_bitmask_'].v)])
    for n, field, vals in (('GetOutputSampleRate', 'sample_rate_', RATES), ('GetBitDepthToMeasureLoudness', 'sample_size_', SIZES)):
        for f in own(n):
            def bb(I):
                o = config(I)
                r = Cell(UNINIT)
                return o, [r], {'o': o, 'r': r}
            check_fn(c, P, f, bb, lambda I, e, t, field=field, vals=vals: [('the value', e['r'], e['o'].f[field].v)] if eqs(I, e['o'].f[field].v, vals) else ERR)

    # -- channel counts
    def bb(I):
        n = var('num_channels', -2**31, 2**31 - 1)
        return None, [Cell(n)], {'n': n}

    def oc(I, e, t):
        if not eqs(I, e['n'], (1, 2)):
            return ERR
        J = absx.Interp
        r = t.get('ret')
        if isinstance(r, SOr) and r.st.ok is True:
            o = r.cell.v
            nc = fn('iamf_tools::SubstreamChannelCount::num_channels')
            if isinstance(o, Obj) and nc:
                return [('the channel count', I.call_fn(nc[0], o, []), e['n'])]
        return []
    check_fn(c, P, count, bb, oc)

    # -- decoding
    def work(item):
        kind = item[0]
        I = absx.Interp(P, K=20, max_steps=400000)
        I.deadline = c.t0 + 400

        def scenario(I):
            if kind == 'create':
                o, nch = config(I), 1
                flags, size = o.f['sample_format_flags_bitmask_'].v, None
            else:
                _, flags, bps, nch, lens = item
                o = config(I, flags, bps * 8, 48000)
            maker = fn('iamf_tools::SubstreamChannelCount::Make' + ('Singular', 'Coupled')[nch - 1])
            cc = I.call_fn(maker[0], None, [])
            cc = cc.v if isinstance(cc, Cell) else cc
            spf = var('num_samples_per_frame', 0, 2**32 - 1)
            r = I.call_fn(create, None, [Cell(o), Cell(cc), Cell(spf)])
            r = r.v if isinstance(r, Cell) else r
            st = r.st
            try:
                if kind == 'create':
                    want = ok_cfg(I, o)
                    if st.ok is True and not want:
                        fails(I, 'Create accepts an invalid configuration')
                    if st.ok is False and want:
                        fails(I, 'Create refuses a valid configuration')
                    return None
                if st.ok is not True:
                    fails(I, 'Create refuses a valid configuration')
                    return None
                d = r.cell.v
                while isinstance(d, (Ptr,)):
                    d = d.cell.v
                    d = d.v if isinstance(d, Cell) else d
                if not isinstance(d, Obj):
                    I.und = getattr(I, 'und', 0) + 1
                    return None
                for k, n in enumerate(lens):
                    bs = [var('frame%d[%d]' % (k, i), 0, 255) for i in range(n)]
                    fv = View(Vec('unsigned char', [Cell(x) for x in bs]), 0, n)
                    I.events[:] = []
                    s = I.call_fn(decode, d, [Cell(fv)])
                    s = s.v if isinstance(s, Cell) else s
                    ev = events_of(I)
                    if ev:
                        fails(I, 'undefined behaviour (%s) decoding a frame of %d bytes after %s' % (ev[0][:3], n, lens[:k]))
                    what = '%d-byte frame of %d channels, %d bytes per sample%s' % (n, nch, bps, ', after %s bytes' % (lens[:k],) if k else '')
                    ticks = n // (bps * nch)
                    good = n % (bps * nch) == 0 and I.decide(I.rel('<=', ticks, spf))
                    if s.ok is True and not good:
                        fails(I, 'accepts a bad %s' % what)
                    if s.ok is False and good:
                        fails(I, 'refuses a good %s' % what)
                    if not good:
                        continue
                    got = I.call_fn(valid, d, [])
                    exp = []
                    for ch in range(nch):
                        row = []
                        for t in range(ticks):
                            x = bs[(t * nch + ch) * bps:(t * nch + ch + 1) * bps]
                            if not flags:
                                x = x[::-1]
                            v = 0
                            for i, y in enumerate(x):
                                v = add(v, scale(y, 1 << (8 * (4 - bps + i))))
                            row.append(scale(I.wrap(v, (32, True)), 2.0**-31))
                        exp.append(row)
                    dv = compare_values(I, got, exp)
                    if dv and dv[0]:
                        raise Bad('the samples of a %s: %s' % (what, dv[1]))
                    if dv:
                        I.und = getattr(I, 'und', 0) + 1
                        c.notes.setdefault('undecided', {})[dv[1][:200]] = 1
                return None
            except Bad as e:
                return str(e)
        n = 0
        for oc_, v in I.explore(scenario, 20000):
            if c.enough():
                break
            n += 1
            bad = None
            if oc_ == 'ok' and v:
                bad = v
            elif oc_ in ('abort', 'throw'):
                p = spec.feasible(I)
                if p:
                    bad = '%s: %s at %s' % (item, v, p)
            elif oc_ in ('unsupported', 'cut'):
                c.count('undecided')
                c.notes.setdefault('undecided', {})[str(v)[:100]] = 1
            c.oblige(not bad)
            if bad:
                c.violation('%s|LpcmDecoder' % decode['f'], decode['f'], decode['l'], 'LpcmDecoder: %s' % bad)
                break
        c.count('histories', n)
        c.count('undecided', getattr(I, 'und', 0))
    items = [('create',)]
    for flags in (0, 1):
        for bps in (2, 3, 4):
            for nch in (1, 2):
                tick = bps * nch
                for lens in ((tick * 3, tick), (tick, tick * 2), (0, tick), (tick, 0), (tick * 2, tick - 1, tick), (tick, tick * 3, tick * 2), (tick * 16,)) + tuple((n,) for n in range(1, 2 * tick + 2)):
                    items.append(('dec', flags, bps, nch, lens))
    c.fork(items, work)
    c.require('histories', 50)
    return c
