"""The verification tools pass a file only if every stage passed."""
import os
import check, db, pyx, pylibs
from pyx import *

RULE = ('in the verifier, for every combination of outcomes of its stages (return codes, reports present, empty or with the failure line, mix ids found, '
        'frame counts, comparator verdicts, missing tools, unwritable report), the overall verdict, the exit status and the ledger follow from the outcomes; '
        'in the comparator, for every ordering of the measured distances and thresholds, exactly the documented anomalies are reported and decide the verdict '
        '(abstract interpretation of the Python syntax trees over opaque terms, one world per combination of facts)')
V = 'validation/iamf_verifier/iamf_verifier.py'
M = 'validation/mlsd_comparator/mlsd_comparator.py'
MAIN = 'validation/mlsd_comparator/mlsd_comparator_main.py'
LAYOUTS = ('7.1.4', '2.0', 'Binaural')
MARK = 'Result: Non-Canonical Elements Detected'
CANON = ('[Audio Element ID: 1] Status: CANONICAL (3OA)\n\nResult: All Canonical\n', '\nResult: No Opus Ambisonics Audio Elements found.\n')
NONCANON = ('[Audio Element ID: 1] Status: CUSTOM (3OA)\n  Rationale: x\n\n%s\n' % MARK,
            '[Audio Element ID: 0] Status: CANONICAL (3OA)\n[Audio Element ID: 1] Status: CUSTOM (-1OA)\n  Rationale: x\n\n%s\n' % MARK)
LOUD = 'File 1: a\nFile 2: b\nTolerance Threshold: 0.1 LUFS\n\nComparing Mix Presentation ID: 42\n  Sub-mix 0 Layout 0 Result: Within Tolerance\n    Integrated: -30.6797 vs -30.6797 (diff: 0)\n    Peak: -1 vs -1 (diff: 0)\nComparing Mix Presentation ID: 4294967295\n  Sub-mix 0 Layout 0 Result: Within Tolerance\n'


def src(path):
    return open(os.path.join(db.REPO, path)).read()


class VInterp(Interp):
    """Membership tests on the text of the external reports."""

    def contains(self, c, x, node):
        if is_text(c) and isinstance(x, str):
            for p in text_parts(c):
                if isinstance(p, str) and x in p:
                    return True
            r = False
            for p in text_parts(c):
                b = pylibs.base_text(p) if isinstance(p, Sym) else None
                while isinstance(b, Sym) and b.op in ('lower', 'casefold', 'upper'):
                    raise Unsupported('case folding of a report')
                if isinstance(b, Sym) and b.op == 'content':
                    nc, cn = [x in t for t in NONCANON], [x in t for t in CANON]
                    if not self.truth(b):
                        continue
                    f = pyx.W.decide(('noncanonical', b, None))
                    if f and all(nc) or not f and all(cn):
                        r = True
                    elif f and not any(nc) or not f and not any(cn):
                        pass
                    else:
                        r = pyx.W.decide(('contains', b, x)) or r
                elif isinstance(b, Sym):
                    r = pyx.W.decide(('contains', b, x)) or r
            return r
        return super().contains(c, x, node)


def flag(n):
    return Sym('--' + n, [], 'str')


def literal(v):
    """Literal text with opaque pieces blanked."""
    return ''.join(p if isinstance(p, str) else '\x00' for p in text_parts(v))


def lines_of(v):
    out, cur = [], []
    for p in text_parts(v):
        if isinstance(p, str):
            bits = p.split('\n')
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(cur)
                cur = [b]
        else:
            cur.append(p)
    out.append(cur)
    return [[x for x in l if x != ''] for l in out]


def args_of(cmd):
    """Options of a command, in either form, and the rest."""
    opts, rest, i = {}, [], 1
    while i < len(cmd):
        a = cmd[i]
        ps = text_parts(a)
        if isinstance(ps[0], str) and ps[0].startswith('-'):
            h = ps[0]
            if '=' in h:
                n, v = h.split('=', 1)
                opts[n.lstrip('-')] = freeze(sstr(v, *ps[1:]))
                i += 1
                continue
            if len(ps) == 1 and i + 1 < len(cmd):
                opts[h.lstrip('-')] = cmd[i + 1]
                i += 2
                continue
        rest.append(a)
        i += 1
    return opts, rest


class Bad(Exception):
    pass


def verifier(c, mp4, hoa, ids):
    text = src(V)

    def findall(I, pat, b):
        n = ids if I.truth(b) else 0
        import re
        if re.findall(pat, LOUD) != ['42', '4294967295'] or re.findall(pat, 'x') != []:
            if [m for m in re.findall(pat, LOUD)] == []:
                return []
            raise Unsupported('pattern %r' % pat)
        return [Sym('mix id', [b, i], 'str') for i in range(n)]
    libs = pylibs.libs({'ref_file': flag('ref_file'), 'test_file': flag('test_file'), 'cw_cmd': flag('cw_cmd'), 'decoder_cmd': flag('decoder_cmd'),
                        'loudness_cmd': flag('loudness_cmd'), 'gpac_cmd': flag('gpac_cmd'), 'opus_hoa_cmd': flag('opus_hoa_cmd') if hoa else None, 'report_file': flag('report_file'),
                        'findall': findall})

    def evaluate(I, a, k):
        a = a + [k[n] for n in ('ref_filepath', 'target_filepath') if n in k]
        p = tuple(freeze(x) for x in a[:2])
        pyx.W.log.append(('mlsd', p, tuple(freeze(x) for x in a[2:]), tuple(sorted((n, freeze(v)) for n, v in k.items() if n not in ('ref_filepath', 'target_filepath')))))
        o = pyx.W.choose(('mlsd verdict', p, None), 3)
        if o == 2:
            raise PyExc(Exc('ValueError', ['different']))
        pk, su = Sym('peak', [p], 'nonneg'), Sym('sustained', [p], 'nonneg')
        return (True, [], pk, su) if o == 0 else (False, [{'type': 'x'}], pk, su)
    libs['validation.mlsd_comparator.mlsd_comparator'] = Ns('mlsd_comparator', {'evaluate_audio_quality': Builtin('evaluate_audio_quality', evaluate)})
    libs['validation.mlsd_comparator'] = Ns('validation.mlsd_comparator', {'mlsd_comparator': libs['validation.mlsd_comparator.mlsd_comparator']})
    libs['validation'] = Ns('validation', {'mlsd_comparator': libs['validation.mlsd_comparator']})

    def pref(key, n):
        t = key[0]
        if t == 'pick':
            k = key[1]
            if isinstance(k[1], Sym) and k[1].kind == 'rc' and 0 in key[2] and k[2] == 0:
                return key[2].index(0)
            if k[0] == 'sgn' and 0 in key[2]:
                return key[2].index(0)
            return 0
        return {'exists': 1, 'which': 1, 'noncanonical': 0, 'nonempty': 1, 'mix ids': 1, 'endswith': int(mp4), 'cannot write': 0, 'mlsd verdict': 0}.get(t, 0)

    def free(key):
        return False
    V_ = [None]

    def one(w):
        I = VInterp(libs)
        V_[0] = I
        m = Module(I, 'iamf_verifier', V, text)
        if 'main' not in m.env.v:
            raise Unsupported('no main()')
        w.I = I
        try:
            I.call(m.env.v['main'], [['iamf_verifier']], {}, None)
            return 'exit', 0
        except PyExc as e:
            n = e.obj.cls if isinstance(e.obj.cls, str) else e.obj.cls.name
            if n == 'SystemExit':
                a = e.obj.attrs['args']
                code = a[0] if a else 0
                return 'exit', code
            return 'raise', n

    def judge(w, res):
        I = w.I
        F = w
        tf, rf = flag('test_file'), flag('ref_file')
        mp4 = I.text_method(tf, 'endswith', ['.mp4'], {}, None)
        runs = [x[1] for x in w.log if x[0] == 'run']
        by = {}
        for r in runs:
            by.setdefault(r[0], []).append(r)
        ok = lambda r: sgn(Sym('rc', [r], 'rc'), 0) == 0
        opus = hoa and I.truth(flag('opus_hoa_cmd'))
        need = ['cw_cmd', 'decoder_cmd', 'loudness_cmd'] + (['opus_hoa_cmd'] if opus else []) + (['gpac_cmd'] if mp4 else [])
        missing = [n for n in need if not w.decide(('which', flag(n), None)) and not w.decide(('exists', flag(n), None))]
        kind, val = res
        if kind == 'exit':
            code = val
            if code is None or code is True or code is False:
                code = int(bool(code))
            passed = not is_text(code) and not symbolic(code) and code == 0
        else:
            passed = False
        # --- what the stages said
        fails, passes = [], []

        def stage(name, good):
            (passes if good else fails).append(name)
        if missing:
            if passed:
                raise Bad('the verifier ends with success although %s is missing' % missing[0])
            return
        test_iamf = tf
        if mp4:
            g = by.get(flag('gpac_cmd'), [])
            if len(g) < 1:
                raise Bad('an .mp4 test file is not extracted with gpac')
            o, rest = args_of(g[0])
            if o.get('i') != tf or 'o' not in o:
                raise Bad('gpac is not given the test file and an output')
            test_iamf = o['o']
            if not ok(g[0]) or not w.decide(('exists', test_iamf, None)):
                if passed:
                    raise Bad('the verifier ends with success although the IAMF track could not be extracted from the .mp4')
                return
        if kind == 'raise' and val == 'ValueError' and any(w.facts.get(('mlsd verdict', x[1], None)) == 2 for x in w.log if x[0] == 'mlsd'):
            return
        if kind == 'raise':
            raise Bad('the verifier stops with %s although all tools are there' % val)
        cws = by.get(flag('cw_cmd'), [])
        spec = 'iamf_isobmff' if mp4 else 'iamf'
        good = [r for r in cws if args_of(r)[0].get('s') == spec and args_of(r)[1] == [tf] or list(r[1:]) == ['-s', spec, tf]]
        if not good:
            raise Bad('Compliance Warden is not run with -s %s on the test file' % spec)
        stage('Compliance Warden', ok(good[0]))
        ls = [r for r in by.get(flag('loudness_cmd'), []) if args_of(r)[0].get('file1') == rf and args_of(r)[0].get('file2') == test_iamf]
        if not ls:
            raise Bad('the loudness comparator is not run on the reference and the test bitstream')
        if args_of(ls[0])[0].get('tolerance') not in ('0.1',):
            raise Bad('the loudness tolerance is %r, documented 0.1' % (args_of(ls[0])[0].get('tolerance'),))
        stage('loudness', ok(ls[0]))
        lrep = args_of(ls[0])[0].get('report_file')
        if opus:
            os_ = [r for r in by.get(flag('opus_hoa_cmd'), []) if args_of(r)[0].get('input') == test_iamf]
            if not os_:
                raise Bad('the Opus Ambisonics verifier is not run on the test bitstream')
            orep = args_of(os_[0])[0].get('report_file')
            g = ok(os_[0])
            if g and w.decide(('exists', orep, None)):
                ct = Sym('content', [orep], 'str')
                if I.truth(Sym('stripped', [ct], 'str')) and I.truth(ct) and w.decide(('noncanonical', ct, None)):
                    g = False
            stage('Opus Ambisonics', g)
        n = 0
        if w.decide(('exists', lrep, None)):
            ct = Sym('content', [lrep], 'str')
            if I.truth(Sym('stripped', [ct], 'str')) and I.truth(ct):
                n = ids
        if n == 0:
            stage('mix presentations found', False)
        undecided_layout = False
        for i in range(n):
            mid = Sym('mix id', [ct, i], 'str')
            for lay in LAYOUTS:
                name = 'layout %s of mix %d' % (lay, i)
                outs = {}
                good = True
                for which, inp in (('reference', rf), ('test', test_iamf)):
                    rs = []
                    for r in by.get(flag('decoder_cmd'), []):
                        o, _ = args_of(r)
                        if o.get('input_filename') == inp and o.get('output_layout') == lay and o.get('mix_id') in (mid, Sym('fmt', [Sym('int', [mid], 'nonneg'), ''], 'str'), SStr([mid])):
                            rs.append(r)
                    if not rs:
                        good = False
                        outs[which] = None
                        continue
                    outs[which] = args_of(rs[0])[0].get('output_filename')
                    if not ok(rs[0]) or w.facts.get(('exists', outs[which], None)) == 0:
                        good = False
                if outs['reference'] is None and outs['test'] is None:
                    raise Bad('layout %s of mix presentation %d of %d is never decoded' % (lay, i + 1, n))
                if None in outs.values() and good is False and not any(not ok(r) for r in by.get(flag('decoder_cmd'), []) if args_of(r)[0].get('output_layout') == lay):
                    raise Bad('layout %s: only one of the two files is decoded' % lay)
                if good:
                    a, b = outs['reference'], outs['test']
                    if a == b:
                        raise Bad('layout %s: reference and test are decoded to the same file' % lay)
                    if sgn(Sym('getnframes', [a], 'nonneg'), Sym('getnframes', [b], 'nonneg')) != 0:
                        good = False
                    else:
                        ev = [x for x in w.log if x[0] == 'mlsd' and x[1] in ((a, b),)]
                        if not ev:
                            raise Bad('layout %s of mix presentation %d: the decoded files are not compared' % (lay, i + 1))
                        if ev[0][2] or ev[0][3]:
                            raise Unsupported('thresholds')
                        good = w.choose(('mlsd verdict', (a, b), None), 3) == 0
                stage(name, good)
        want = not fails
        if passed and not want:
            raise Bad('the verifier ends with success although the stage "%s" failed' % fails[0])
        if not passed and want:
            raise Bad('the verifier ends with failure although every stage passed')
        # --- the report
        pr = [x[1] for x in w.log if x[0] == 'print']
        wr = [x for x in w.log if x[0] == 'write']
        texts = [sstr(*p) for p in pr if len(p) == 1 and is_text(p[0]) and 'OVERALL RESULT' in literal(p[0])]
        if not texts:
            raise Bad('no report with an overall result is printed')
        rp = flag('report_file')
        if I.truth(rp) and not w.decide(('cannot write', rp, None)):
            body = sstr(*[x[3] for x in wr if x[1] == rp])
            if body != texts[0]:
                raise Bad('the report file does not hold the printed report')
        t = texts[0]
        ls_ = lines_of(t)
        ov = [l for l in ls_ if l and isinstance(l[0], str) and l[0].startswith('OVERALL RESULT:')]
        if len(ov) != 1 or ''.join(x for x in ov[0] if isinstance(x, str)) != 'OVERALL RESULT: ' + ('PASS' if want else 'FAIL'):
            raise Bad('the report ends with %r although %s' % (ov and ov[-1], 'every stage passed' if want else 'the stage "%s" failed' % fails[0]))
        for tag, st in (('[PASS]', passes), ('[FAIL]', fails)):
            k = sum(1 for l in ls_ if l and isinstance(l[0], str) and l[0].startswith(tag))
            if k != len(st):
                raise Bad('the report has %d %s entries although %d stages %s' % (k, tag, len(st), 'passed' if tag == '[PASS]' else 'failed'))
    explore(c, V, 'main', one, judge, pref=pref, free=free, maxdev=2 if ids < 2 else 1, limit=30000)


def explore(c, path, name, one, judge, **kw):
    n = 0
    try:
        def f(w):
            w.I = None
            r = one(w)
            judge(w, r)
            return r
        gen = pyx.worlds(lambda w: guarded(f, w), **kw)
        for w, bad in gen:
            n += 1
            if bad and bad[0] == 'bad':
                c.oblige(False)
                node = [x for x in c.trees[path].body if getattr(x, 'name', '') == name]
                c.violation('%s|%s' % (path, name), path, node[0].lineno if node else 1, '%s: %s%s' % (name, bad[1], facts(w)))
                break
            if bad and bad[0] == 'und':
                c.count('undecided worlds')
                c.notes.setdefault('undecided', {})['%s: %s' % (name, bad[1])] = 1
                c.undec = getattr(c, 'undec', 0) + 1
                if c.undec > 60:
                    break
                continue
            c.oblige(True)
    except Budget as e:
        c.notes.setdefault('undecided', {})['%s: %s' % (name, e)] = 1
    c.count('worlds of ' + name, n)


def guarded(f, w):
    try:
        f(w)
    except Bad as e:
        return ('bad', str(e))
    except Unsupported as e:
        return ('und', str(e))
    except RecursionError:
        return ('und', 'recursion')
    except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError) as e:
        return ('und', 'no rule: %s' % (repr(e)[:100],))
    return None


def facts(w):
    out = []
    for k, v in w.facts.items():
        if k[0] in ('pick',):
            continue
        p = w.pref(k, 2) if w.pref else None
        if v != p and len(out) < 4 and k[0] not in ('sgn1', 'sgn', 'mix ids'):
            out.append('%s %s = %s' % (k[0], repr(k[1])[:60], v))
    return ' [%s]' % '; '.join(out) if out else ''


# ---------------------------------------------------------------- comparator
def mlsd_libs(**kw):
    return pylibs.libs(kw)


def near(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(sorted(a)) == list(sorted(b)) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)) and not isinstance(a, bool):
        return abs(a - b) < 1e-9
    if symbolic(a) and symbolic(b):
        d = lin(add(a, b, -1))
        return all(abs(x) < 1e-9 for x in d.t.values()) and abs(d.c) < 1e-9
    return a == b and type(a) == type(b)


def spec_glitches(x, ch, thr, hop):
    return [{'type': 'Transient Glitch', 'channel': ch, 'frame_index': i, 'time_ms': i * hop, 'mlsd': v} for i, v in enumerate(x) if sgn(v, thr) > 0], (mx(x, 'max') if x else 0)


def spec_sustained(x, ch, thr, hop, ms):
    if not x:
        return [], 0
    import math
    need = max(1, math.ceil(ms / hop))
    above = [sgn(v, thr) > 0 for v in x]
    out, i = [], 0
    while i < len(x):
        if not above[i]:
            i += 1
            continue
        j = i
        while j < len(x) and above[j]:
            j += 1
        if j - i >= need:
            s = 0
            for v in x[i:j]:
                s = add(s, v)
            out.append({'type': 'Sustained Degradation', 'channel': ch, 'start_frame': i, 'end_frame': j - 1, 'start_ms': i * hop, 'end_ms': j * hop,
                        'duration_ms': (j - i) * hop, 'avg_mlsd': scale(s, Fraction(1, j - i))})
        i = j
    if len(x) >= need:
        m = mx([mx(x[i:i + need], 'min') for i in range(len(x) - need + 1)], 'max')
    else:
        m = mx(x, 'min')
    return out, m


def same_max(a, b):
    """Maxima that differ only in how they are nested."""
    return near(a, b) or norm(a) == norm(b)


def norm(v):
    if isinstance(v, Sym) and v.op in ('max', 'min'):
        s = set()
        for x in v.args:
            y = norm(x)
            if isinstance(y, tuple) and y[0] == v.op:
                s |= y[1]
            else:
                s.add(y)
        if len(s) == 1:
            return next(iter(s))
        return (v.op, frozenset(s))
    return v


def detectors(c):
    text = src(M)
    for fname in ('detect_transient_glitches', 'detect_sustained_degradations'):
        for n in range(0, 6):
            for hop, ms in ((10.0, 30.0), (10.0, 25.0), (8.0, 4.0), (10.0, 200.0)) if 'sust' in fname else ((10.0, None),):
                if n == 5 and ms == 200.0:
                    continue

                def one(w):
                    I = Interp(mlsd_libs())
                    m = Module(I, 'mlsd_comparator', M, text)
                    if fname not in m.env.v:
                        raise Unsupported('no ' + fname)
                    x = [Sym('distance', [i], 'nonneg') for i in range(n)]
                    thr = Sym('threshold', [], 'nonneg')
                    a = [Arr(x), 3, thr, hop] + ([ms] if ms else [])
                    w.x, w.thr = x, thr
                    try:
                        return 'ok', I.call(m.env.v[fname], a, {}, None)
                    except PyExc as e:
                        return 'raise', e

                def judge(w, r):
                    if r[0] != 'ok':
                        raise Bad('raises %s for %d frames' % (r[1].obj.cls, n))
                    an, m = spec_glitches(w.x, 3, w.thr, hop) if not ms else spec_sustained(w.x, 3, w.thr, hop, ms)
                    if not isinstance(r[1], tuple) or len(r[1]) != 2:
                        raise Unsupported('result shape')
                    got, gm = r[1]
                    if not near(got, an):
                        raise Bad('for distances %s the threshold, a hop of %s ms%s: reports %r, expected %r' % (
                            ' '.join('above' if sgn(v, w.thr) > 0 else 'equal to' if sgn(v, w.thr) == 0 else 'below' for v in w.x), hop,
                            ' and a minimum of %s ms' % ms if ms else '', brief(got), brief(an)))
                    if not same_max(gm, m):
                        raise Bad('the maximum of %d frames is %r, expected %r' % (n, gm, m))
                explore(c, M, fname, one, judge, limit=5000)


def brief(a):
    return [tuple(x.get(k) for k in ('frame_index', 'start_frame', 'end_frame', 'start_ms', 'end_ms', 'duration_ms', 'avg_mlsd', 'mlsd', 'channel', 'type') if k in x) if isinstance(x, dict) else x for x in a]


def evaluate(c, cfg):
    text = src(M)
    fname = 'evaluate_audio_quality'
    R, T_ = flag('reference'), flag('target')
    for nch, frames, defaults in (cfg,):
        shape = (Sym('samples', [], 'nonneg'), nch) if nch > 1 else (Sym('samples', [], 'nonneg'),)
        rate = 51200

        def wave(n, p):
            if n == 'getframerate':
                return rate if p == R or pyx.W.decide(('same rate', p, None)) else 44100
            return None

        def one(w):
            I = Interp(mlsd_libs(frames=frames, shape=shape, wave=wave))
            m = Module(I, 'mlsd_comparator', M, text)
            if fname not in m.env.v:
                raise Unsupported('no ' + fname)
            kw = {} if defaults else {'peak_threshold': Sym('peak threshold', [], 'nonneg'), 'sustained_threshold': Sym('sustained threshold', [], 'nonneg'), 'sustained_ms': 20.0}
            try:
                return 'ok', I.call(m.env.v[fname], [R, T_], kw, None)
            except PyExc as e:
                return 'raise', e.obj.cls

        def judge(w, r):
            same = {n: sgn(Sym(n, [R], 'nonneg'), Sym(n, [T_], 'nonneg')) == 0 for n in ('getnchannels', 'getnframes', 'getsampwidth')}
            same['getframerate'] = w.decide(('same rate', T_, None))
            diff = [k for k, v in same.items() if not v]
            if diff:
                if r[0] == 'ok' or not exc_is(r[1] if isinstance(r[1], str) else '', 'ValueError'):
                    raise Bad('files that differ in %s are not refused with ValueError' % diff[0][3:])
                return
            if r[0] == 'raise':
                raise Bad('raises %s for files of the same format' % (r[1],))
            hop = 512 / rate * 1000
            pk, su, ms = (0.04, 0.20, 100.0) if defaults else (Sym('peak threshold', [], 'nonneg'), Sym('sustained threshold', [], 'nonneg'), 20.0)
            an, mp, msu = [], 0, 0
            for ch in range(nch):
                x = []

                def mel(p):
                    b = Sym('wavdata', [p])
                    sgl = Sym('channel', [b, ch]) if nch > 1 else b
                    mx_ = Sym('integer maximum', [Sym('dtype', [b])], 'nonneg')
                    return Sym('mel', [Sym('div', [sgl, mx_]), rate, 2048, 512, ()])
                eps = Fraction(1e-4)
                la, lb = [scale(Sym('log10', [add(mel(p), eps)]), 10) for p in (R, T_)]
                d = sq(add(la, lb, -1))
                for f in range(frames):
                    x.append(Sym('sqrt', [Sym('mean bins', [d, f], 'nonneg')], 'nonneg'))
                g, m1 = spec_glitches(x, ch, pk, hop)
                s, m2 = spec_sustained(x, ch, su, hop, ms)
                an += g + s
                mp, msu = mx([mp, m1], 'max'), mx([msu, m2], 'max')
            ok, got, gp, gs = r[1]
            okv = w.I0.truth(ok)
            if okv != (not an):
                raise Bad('the verdict is %s although %d anomalies exist (%d channels, %d frames)' % ('pass' if okv else 'fail', len(an), nch, frames))
            key = lambda d: repr((d.get('channel'), d.get('type'), d.get('frame_index', d.get('start_frame'))))
            if not near(sorted(got, key=key), sorted(an, key=key)):
                raise Bad('reports %r, expected %r (%d channels, %d frames)' % (brief(got), brief(an), nch, frames))
            if not same_max(gp, mp) or not same_max(gs, msu):
                raise Bad('the reported maxima are %r and %r, expected %r and %r' % (gp, gs, mp, msu))

        def judge0(w, r):
            w.I0 = Interp({})
            judge(w, r)
        explore(c, M, fname, one, judge0, limit=20000, pref=lambda k, n: 1 if k[0] == 'same rate' else k[2].index(0) if k[0] == 'pick' and k[1][0] == 'sgn' and 0 in k[2] else 0)


def comparator_main(c):
    text = src(MAIN)
    R, T_ = flag('ref_wav'), flag('test_wav')
    fl = {'ref_wav': R, 'test_wav': T_, 'peak_threshold': Sym('--peak', [], 'nonneg'), 'sustained_threshold': Sym('--sust', [], 'nonneg'), 'sustained_ms': Sym('--ms', [], 'nonneg'), 'report_file': flag('report_file')}

    def evaluate(I, a, k):
        b = dict(zip(('ref_filepath', 'target_filepath', 'peak_threshold', 'sustained_threshold', 'sustained_ms'), a))
        b.update(k)
        pyx.W.log.append(('mlsd', b))
        o = pyx.W.choose(('mlsd verdict', None, None), 5)
        if o == 4:
            raise PyExc(Exc('ValueError', [Sym('reason', [], 'str')]))
        gl = lambda ch, i: {'type': 'Transient Glitch', 'channel': ch, 'frame_index': i, 'time_ms': i * 10.0, 'mlsd': Sym('g', [ch, i], 'nonneg')}
        su = lambda ch: {'type': 'Sustained Degradation', 'channel': ch, 'start_frame': 0, 'end_frame': 1, 'start_ms': 0.0, 'end_ms': 20.0, 'duration_ms': 20.0, 'avg_mlsd': Sym('s', [ch], 'nonneg')}
        an = [[], [gl(0, 3)], [su(1)], [gl(1, 1), su(1), gl(0, 1), gl(0, 2)]][o]
        return (not an, an, Sym('max peak', [], 'nonneg'), Sym('max sustained', [], 'nonneg'))
    libs = pylibs.libs(fl)
    libs['validation.mlsd_comparator.mlsd_comparator'] = Ns('mlsd_comparator', {'evaluate_audio_quality': Builtin('evaluate_audio_quality', evaluate)})
    libs['validation.mlsd_comparator'] = Ns('validation.mlsd_comparator', {'mlsd_comparator': libs['validation.mlsd_comparator.mlsd_comparator']})
    libs['validation'] = Ns('validation', {'mlsd_comparator': libs['validation.mlsd_comparator']})

    def one(w):
        I = VInterp(libs)
        m = Module(I, 'mlsd_comparator_main', MAIN, text)
        w.I0 = I
        if 'main' not in m.env.v:
            raise Unsupported('no main()')
        try:
            I.call(m.env.v['main'], [['mlsd']], {}, None)
            return 'exit', 0
        except PyExc as e:
            return 'raise', e.obj.cls

    def judge(w, r):
        I = w.I0
        if not I.truth(R) or not I.truth(T_):
            if r[0] != 'raise':
                raise Bad('runs without a reference or test file')
            return
        ev = [x[1] for x in w.log if x[0] == 'mlsd']
        want = {'ref_filepath': R, 'target_filepath': T_, 'peak_threshold': fl['peak_threshold'], 'sustained_threshold': fl['sustained_threshold'], 'sustained_ms': fl['sustained_ms']}
        if len(ev) != 1 or ev[0] != want:
            raise Bad('the files are compared with %r instead of the thresholds given' % (ev,))
        if r[0] == 'raise':
            if r[1] == 'SystemExit':
                pass
            else:
                raise Bad('stops with %s' % (r[1],))
        rp = flag('report_file')
        if not I.truth(rp) or w.decide(('cannot write', rp, None)):
            return
        t = sstr(*[x[3] for x in w.log if x[0] == 'write' and x[1] == rp])
        o = w.facts[('mlsd verdict', None, None)]
        res = 'ERROR' if o == 4 else 'PASS' if o == 0 else 'FAIL'
        l = [''.join(x for x in l if isinstance(x, str)) for l in lines_of(t)]
        k = [x for x in l if x.startswith('Result:')]
        if k != ['Result: ' + res]:
            raise Bad('the report says %r, expected "Result: %s"' % (k, res))
        an = sum(1 for x in l if x.startswith('- '))
        if o < 4 and an != (0, 1, 1, 3)[o]:
            raise Bad('the report lists %d groups of anomalies, expected %d' % (an, (0, 1, 1, 3)[o]))
    explore(c, MAIN, 'main', one, judge, limit=2000, pref=lambda k, n: 1 if k[0] == 'nonempty' else 0)


def run():
    import ast
    c = check.Check('C22', RULE, ['failures of at most two stages or facts at a time in the verifier', 'up to five frames per channel; mel spectra are opaque'])
    c.trees = {}
    for p in (V, M, MAIN):
        try:
            c.trees[p] = ast.parse(src(p))
        except OSError:
            c.notes.setdefault('not found', []).append(p)
    items = []
    if M in c.trees:
        items += [(evaluate, x) for x in ((2, 2, False), (1, 2, False), (2, 1, False), (3, 1, False), (1, 1, True))] + [(detectors,)]
    if V in c.trees:
        items += [(verifier, m, o, i) for i in (2, 1, 0) for m in (False, True) for o in (False, True)]
    if MAIN in c.trees:
        items.append((comparator_main,))
    c.fork(items, lambda t: t[0](c, *t[1:]))
    return c
