"""Rendering gains equal the reference matrices and are applied as matrices."""
import check, db, ir, absx, absmodels, spec
from absval import *
from absval import T
from contract import *

RULE = ('constant propagation through the gain tables: for every pair of layout names the decoded compressed matrix equals the reference matrix '
        'entry by entry (six significant digits) and has one row per input and one column per output channel, and for every other pair an error is returned; the decoder '
        'is decided for every compressed matrix of small layouts (abstract interpretation over symbolic bytes); every sound system and '
        'loudspeaker layout maps to a key whose channel counts agree; rendered samples and combined ambisonics gains are the exact linear terms '
        'of the matrix product')

# Channel counts of the layouts (ITU-R BS.2051-3 and IAMF v1.1 section 3.7).
CHANNELS = {'0+1+0': 1, '0+2+0': 2, '0+5+0': 6, '2+5+0': 8, '4+5+0': 10, '0+7+0': 8, '4+7+0': 12, '9+10+3': 24, '7.1.5.4': 17, '3.1.2': 6,
            '7.1.2': 10, '9.1.6': 16, '4+5+1': 11, '3+7+0': 12, '4+9+0': 14, 'A0': 1, 'A1': 4, 'A2': 9, 'A3': 16, 'A4': 25}
SYSTEMS = ['0+2+0', '0+5+0', '2+5+0', '4+5+0', '4+5+1', '3+7+0', '4+9+0', '9+10+3', '0+7+0', '4+7+0', '7.1.2', '3.1.2', '0+1+0', '9.1.6', '7.1.5.4']
LAYOUTS = {0: '0+1+0', 1: '0+2+0', 2: '0+5+0', 3: '2+5+0', 4: '4+5+0', 5: '0+7+0', 6: '7.1.2', 7: '4+7+0', 8: '3.1.2'}
EXPANDED = {0: '4+7+0', 1: '4+5+0', 2: '4+7+0', 3: '4+7+0', 4: '4+7+0', 5: '4+7+0', 6: '4+7+0', 7: '4+7+0', 8: '9.1.6', 9: '9.1.6', 10: '9.1.6',
            11: '9.1.6', 12: '9.1.6', 13: '9+10+3', 14: '9+10+3', 15: '9+10+3', 16: '7.1.5.4', 17: '7.1.5.4', 18: '7.1.5.4', 19: '7.1.5.4'}
CODEBOOK = [0, 0.5, 3 ** -0.5, 0.5 ** 0.5, (2 / 3) ** 0.5, (1 + 0.5 ** 0.5) / 2, 1.0, 2 / 3 ** 0.5, 0.5 ** 0.5 + 0.5, 1.5 ** 0.5]


def uncell(v):
    return v.v if isinstance(v, Cell) else v


def flat(I, v):
    v = uncell(v)
    out = []
    for i in range(I.concrete(v.n)):
        r = I.at(v, i).v
        out.append([I.at(r, j).v for j in range(I.concrete(r.n))])
    return out


def near(x, y):
    return abs(x - y) <= 6e-6 * abs(x) + 1e-9


def run():
    P = db.load()
    c = check.Check('C14', RULE, ['symbolic matrices of at most 2x2 channels and 9 bytes in the decoder'])

    def fn(name, where='', q=None):
        return [f for f in P.fn.values() if f['n'] == name and f.get('b') and '_test' not in f['f'] and '/tests/' not in f['f'] and where in f['f'] and (q is None or f['q'] == q)]

    def const(f, args, this=None, steps=20000000):
        """Value of f on constant arguments: ('ok', value, interp) or another outcome."""
        I = absx.Interp(P, K=1 << 12, max_steps=steps)
        for o, r in I.explore(lambda I: I.call_fn(f, this, [Cell(x) for x in args(I)]), 2):
            return o, uncell(r), I
        return 'cut', None, I

    # -- reference
    ref = {}
    init = fn('InitPrecomputedGains')
    if init:
        o, m, I = const(init[0], lambda I: [])
        if o == 'ok' and isinstance(m, MapV):
            for k, cell in m.entries:
                for k2, c2 in cell.v.f['second'].v.entries:
                    ref[k, k2] = flat(I, c2.v.f['second'].v)
    if not ref:
        c.notes['reference matrices'] = 'not found'
    for (a, b), w in sorted(ref.items()):
        bad = None
        if a in CHANNELS and b in CHANNELS and (len(w) != CHANNELS[a] or any(len(r) != CHANNELS[b] for r in w)):
            bad = 'the reference matrix from %s to %s is %d x %s' % (a, b, len(w), sorted({len(r) for r in w}))
        c.oblige(bad is None)
        if bad:
            c.violation('%s|InitPrecomputedGains|%s>%s' % (init[0]['f'], a, b), init[0]['f'], init[0]['l'], bad)

    # -- the public lookup, every pair of names and some that are none
    look = fn('GetGainsForLayoutPair') or fn('LookupPrecomputedGains')
    names = sorted(CHANNELS)
    extra = ['', 'A5', 'A', '0+2+1', '0+2+0 ', '4+7', 'stereo', 'a1']

    def pairs(item):
        for b in names + extra:
            a = item
            f = look[0]
            o, r, I = const(f, lambda I: [a, b])
            if o != 'ok' or not isinstance(r, SOr) or (r.st.ok is True and not isinstance(r.cell.v, Vec)):
                c.count('undecided')
                c.notes.setdefault('undecided', {})['%s: %s' % (o, str(r)[:80])] = 1
                if o in ('abort', 'throw'):
                    c.violation('%s|%s' % (f['f'], f['n']), f['f'], f['l'], 'the gains from %r to %r: %s' % (a, b, r))
                continue
            bad = None
            want = ref.get((a, b))
            c.count('layout pairs')
            ev = events_of(I)
            if ev:
                bad = 'undefined behaviour (%s)' % (ev[0][:3],)
            elif r.st.ok is True and want is None:
                if (a, b) not in ref and ref and not (a == b and a in CHANNELS):
                    bad = 'exist although no matrix is defined'
            elif r.st.ok is not True and want is not None:
                bad = 'are missing'
            elif want is not None:
                g = flat(I, r.cell.v)
                if len(g) != len(want) or any(len(x) != len(y) for x, y in zip(g, want)):
                    bad = 'are a %d x %s matrix instead of %d x %d' % (len(g), sorted({len(x) for x in g}), len(want), len(want[0]))
                else:
                    d = [(i, j, x, y) for i, (p, q) in enumerate(zip(want, g)) for j, (x, y) in enumerate(zip(p, q)) if is_num(y) and not near(x, y)]
                    if d:
                        bad = 'differ from the reference: gain of input channel %d in output channel %d is %.9g instead of %.9g' % (d[0][0], d[0][1], d[0][3], d[0][2])
                    if any(not is_num(y) for p in g for y in p):
                        c.count('undecided')
            c.oblige(bad is None)
            if bad:
                c.violation('%s|gains %s>%s' % (f['f'], a, b), f['f'], f['l'], 'the gains from %r to %r %s' % (a, b, bad))
    if look and ref:
        c.fork(names + extra, pairs)
        c.require('layout pairs', 300)

    # -- the decoder on arbitrary contents
    for f in fn('DecompressMatrix'):
        for a, b in (('0+1+0', '0+1+0'), ('0+1+0', '0+2+0'), ('0+2+0', '0+1+0'), ('0+2+0', '0+2+0'), ('A1', '0+1+0')):
            rows, cols = CHANNELS[a], CHANNELS[b]
            for nd, ns in [(n, 0) for n in range(1, rows * cols + 1)] + [(0, n) for n in range(0, rows + (7 if rows < 3 else 3))] + [(rows * cols, rows + 2)]:
                def b_(I, a=a, b=b, nd=nd, ns=ns):
                    o = I.fresh('iamf_tools::CompressedMatrix', 'm')
                    d = [var('dense%d' % i, -2.0, 2.0, True) for i in range(nd)]
                    s = [var('blob%d' % i, 0, 3 if i < CHANNELS[a] else 255) for i in range(ns)]
                    o.f['dense_data'] = Cell(Vec('float', [Cell(x) for x in d]))
                    o.f['sparse_blob'] = Cell(Vec('unsigned char', [Cell(x) for x in s]))
                    return None, [Cell(a), Cell(b), Cell(o)], {'d': d, 's': s}

                def o_(I, e, t, rows=rows, cols=cols):
                    r = t.get('ret')
                    g = r.cell.v if isinstance(r, SOr) and r.st.ok is True else None
                    if e['d']:
                        if len(e['d']) != rows * cols:
                            return None
                        w = [[e['d'][i * cols + j] for j in range(cols)] for i in range(rows)]
                        return [('the decoded dense matrix', g, w)]
                    s = e['s']
                    if not s:
                        return None
                    if len(s) < rows or (len(s) - rows) % 2:
                        return ERR
                    m = (len(s) - rows) // 2
                    w = [[0.0] * cols for _ in range(rows)]
                    k = 0
                    for i in range(rows):
                        j = 0
                        while I.decide(I.rel('<', j, s[i])):
                            if k >= m:
                                return ERR
                            col, val = s[rows + k], s[rows + m + k]
                            if not I.decide(I.rel('<', val, len(CODEBOOK))) or not I.decide(I.rel('<', col, cols)):
                                return None             # a column or gain that does not exist
                            cc = [x for x in range(cols) if I.decide(I.rel('==', col, x))][0]
                            vv = [x for x in range(len(CODEBOOK)) if I.decide(I.rel('==', val, x))][0]
                            w[i][cc] = CODEBOOK[vv]
                            k += 1
                            j += 1
                    if k != m:
                        return None
                    return [('the decoded sparse matrix', g, w)]
                check_fn(c, P, f, b_, o_, K=8, tol=1e-9, key='%s|DecompressMatrix' % f['f'], max_paths=1500)
        for a, b in (('', '0+2+0'), ('0+2+0', 'A9'), ('x', 'y')):
            def b_(I, a=a, b=b):
                o = I.fresh('iamf_tools::CompressedMatrix', 'm')
                o.f['dense_data'] = Cell(Vec('float', [Cell(1.0)]))
                o.f['sparse_blob'] = Cell(Vec('unsigned char', []))
                return None, [Cell(a), Cell(b), Cell(o)], {}
            check_fn(c, P, f, b_, lambda I, e, t: ERR, key='%s|DecompressMatrix names' % f['f'])

    # -- layouts to keys
    FIELD = {x['n']: x['t'] for r in P.rec.values() if r['q'] == 'iamf_tools::Layout' for x in r['fs']}
    FIELD.setdefault('specific_layout', 'int')
    def ss_layout(I, sysval, kind=2):
        o = I.fresh('iamf_tools::Layout', 'layout')
        o.f['layout_type'] = Cell(kind)
        s = I.fresh('iamf_tools::LoudspeakersSsConventionLayout', 'ss')
        s.f['sound_system'] = Cell(sysval)
        v = I.fresh(FIELD['specific_layout'], 'specific')
        if isinstance(v, Variant):
            want = [i for i, x in enumerate(v.alts) if x.endswith('LoudspeakersSsConventionLayout')]
            o.f['specific_layout'] = Cell(Variant(v.alts, want[0], Cell(s)))
        return o
    for f in fn('LookupOutputKeyFromPlaybackLayout'):
        for k in range(0, 17):
            def b_(I, k=k):
                return None, [Cell(ss_layout(I, k))], {}
            check_fn(c, P, f, b_, lambda I, e, t, k=k: [('the key of sound system %d' % k, t['ret'].cell.v if t['ret'].st.ok is True else None, SYSTEMS[k])] if k < 15 else ERR,
                     key='%s|LookupOutputKeyFromPlaybackLayout' % f['f'])
    for f in fn('GetNumChannelsFromLayout'):
        for k in range(0, 17):
            def b_(I, k=k):
                r = Cell(UNINIT)
                return None, [Cell(ss_layout(I, k)), r], {'r': r}
            check_fn(c, P, f, b_, lambda I, e, t, k=k: [('the channel count of sound system %d' % k, e['r'], CHANNELS[SYSTEMS[k]])] if k < 15 else ERR,
                     key='%s|GetNumChannelsFromLayout' % f['f'])
    en = {k: e for k, e in P.enum.items()}
    for f in fn('LookupInputKeyFromLoudspeakerLayout'):
        if len(f['p']) != 2:
            continue
        for lay, exp, key in [(k, None, v) for k, v in LAYOUTS.items()] + [(15, k, v) for k, v in EXPANDED.items()] + [(9, None, None), (10, None, None), (15, None, None), (15, 20, None), (15, 255, None)]:
            def b_(I, lay=lay, exp=exp):
                return None, [Cell(lay), Cell(Opt(0, None) if exp is None else Opt(1, Cell(exp)))], {}
            check_fn(c, P, f, b_, lambda I, e, t, key=key, lay=lay, exp=exp: ERR if key is None else
                     [('the key of layout %s' % (lay if exp is None else 'expanded %d' % exp), t['ret'].cell.v if t['ret'].st.ok is True else None, key)],
                     key='%s|LookupInputKeyFromLoudspeakerLayout' % f['f'])
    for f in fn('GetAmbisonicsOrder'):
        def b_(I):
            r = Cell(UNINIT)
            n = var('channel_count', 0, 255)
            return None, [Cell(n), r], {'r': r, 'n': n}

        def o_(I, e, t):
            for k in range(15):
                if I.decide(I.rel('==', e['n'], (k + 1) ** 2)):
                    return [('the order', e['r'], k)]
            return ERR
        check_fn(c, P, f, b_, o_, K=20)
    # -- rows of the matrix = labels of the layout
    for f in fn('LookupEarChannelOrderFromScalableLoudspeakerLayout'):
        for lay, exp, key in [(k, None, v) for k, v in LAYOUTS.items()] + [(15, k, v) for k, v in EXPANDED.items()]:
            def b_(I, lay=lay, exp=exp):
                return None, [Cell(lay), Cell(Opt(0, None) if exp is None else Opt(1, Cell(exp)))], {}
            check_fn(c, P, f, b_, lambda I, e, t, key=key, lay=lay, exp=exp:
                     [('the number of channel labels of layout %s' % (lay if exp is None else 'expanded %d' % exp), I.size(t['ret'].cell.v) if t['ret'].st.ok is True else None, CHANNELS[key])],
                     key='%s|%s' % (f['f'], f['n']))

    # -- the matrix product
    def frames(I, n, ticks):
        return View(Vec('absl::Span<const double>', [Cell(View(Vec('double', [Cell(var('in%d[%d]' % (i, t), -1.0, 1.0, True)) for t in range(ticks[i])]), 0, ticks[i])) for i in range(n)]), 0, n)
    for f in fn('RenderChannelLayoutToLoudspeakers'):
        for rows, cols, nin, ticks in ((1, 1, 1, (2,)), (2, 3, 2, (2, 2)), (3, 2, 3, (1, 1, 1)), (3, 2, 2, (3, 3)), (2, 2, 2, (1, 2)), (2, 2, 2, (2, 1)), (1, 2, 2, (1, 1)), (0, 0, 1, (1,)), (2, 2, 2, (0, 0))):
            for old in (0, 1):
                def b_(I, rows=rows, cols=cols, nin=nin, ticks=ticks, old=old):
                    g = Vec('std::vector<double>', [Cell(Vec('double', [Cell(2.0 ** (i - j) + i) for j in range(cols)])) for i in range(rows)])
                    out = Cell(Vec('std::vector<double>', [Cell(Vec('double', [Cell(var('old%d' % j, -1.0, 1.0, True)) for _ in range(4)])) for j in range(cols + 1)] if old else []))
                    return None, [Cell(frames(I, nin, ticks)), Cell(g), out], {'out': out}

                def o_(I, e, t, rows=rows, cols=cols, nin=nin, ticks=ticks):
                    if rows < nin or rows == 0 or len(set(ticks)) > 1:
                        return ERR
                    w = []
                    for j in range(cols):
                        row = []
                        for k in range(ticks[0]):
                            s = 0.0
                            for i in range(nin):
                                s = add(s, scale(var('in%d[%d]' % (i, k), -1.0, 1.0, True), 2.0 ** (i - j) + i))
                            row.append(s)
                        w.append(row)
                    return [('the rendered frame', e['out'], w)]
                check_fn(c, P, f, b_, o_, K=8, key='%s|RenderChannelLayoutToLoudspeakers' % f['f'], tol=1e-9)
    for f in fn('GetCombinedGains'):
        cls = 'iamf_tools::AmbisonicsProjectionConfig::'
        for sub_, coup, n, cols in ((1, 0, 1, 2), (1, 1, 1, 1), (2, 1, 4, 2), (3, 0, 4, 1)):
            M = sub_ + coup
            dm = [var('demixing%d' % i, -2**15, 2**15 - 1) for i in range(M * n)]
            models = {cls + 'GetSubstreamCount': lambda I, n_, fr, o, a, v=sub_: v, cls + 'GetCoupledSubstreamCount': lambda I, n_, fr, o, a, v=coup: v,
                      cls + 'GetOutputChannelCount': lambda I, n_, fr, o, a, v=n: v,
                      cls + 'GetDemixingMatrixView': lambda I, n_, fr, o, a, v=dm: View(Vec('short', [Cell(x) for x in v]), 0, len(v))}

            def b_(I, n=n, cols=cols):
                g = Vec('std::vector<double>', [Cell(Vec('double', [Cell(2.0 ** (i - j) + i) for j in range(cols)])) for i in range(n)])
                return None, [Cell(I.fresh('iamf_tools::AmbisonicsProjectionConfig', 'config')), Cell(g)], {}

            def o_(I, e, t, M=M, n=n, cols=cols, dm=dm):
                w = []
                for i in range(M):
                    row = []
                    for k in range(cols):
                        s = 0.0
                        for j in range(n):
                            s = add(s, scale(dm[i * n + j], (2.0 ** (j - k) + j) / 32768))
                        row.append(s)
                    w.append(row)
                r = t['ret']
                return [('the combined gains', r.cell.v if r.st.ok is True else None, w)]
            check_fn(c, P, f, b_, o_, K=12, models=models, key='%s|GetCombinedGains' % f['f'], tol=1e-9)
    c.require('functions', 50)
    return c
