"""Obligations 'this function computes that' decided on the abstract partitions of the function."""
import absx, spec
from absval import *
from absval import T
from absx import strip_targs

ERR = 'error'


def err():
    return ERR


def loc(f):
    return f['f'], f['l']


def short(f):
    return f['q'].replace('iamf_tools::', '')


def events_of(I):
    return [e for e in I.events if e[0] in ('oob', 'div0', 'fp-ub', 'null', 'sovf', 'uaf')]


def check_fn(c, P, f, build, oracle, K=3, key=None, what='', models=None, max_paths=4000, ub=True, tol=0.0, abort_ok=False, max_steps=400000):
    """build(I) -> (this, [cells], env); oracle(I, env) -> ERR | list of (name, got() , expected term or callable) | ...

    One obligation per partition of the function's input space."""
    I = absx.Interp(P, K=K, models=models, max_steps=max_steps)
    I.deadline = c.t0 + 300
    file, line = loc(f)
    key = key or '%s|%s' % (file, short(f))
    n = und = 0
    why = {}

    def run(I):
        this, cells, env = build(I)
        t = {'env': env, 'exp': None}
        try:
            r = I.call_fn(f, this, cells)
            t['ret'] = r.v if isinstance(r, Cell) else r
            t['out'] = 'ret'
        except absx.Abort as e:
            t['out'], t['why'] = 'abort', str(e)
        except absx.Throw as e:
            t['out'], t['why'] = 'throw', str(e)
        t['ev'] = events_of(I)
        t['exp'] = oracle(I, env, t)
        return t

    for o, t in I.explore(run, max_paths):
        if c.enough():
            break
        n += 1
        if o in ('cut', 'unsupported'):
            und += 1
            why[str(t)[:120]] = why.get(str(t)[:120], 0) + 1
            continue
        if o != 'ok':
            und += 1
            continue
        bad = None          # message
        if ub and t['ev']:
            p = spec.feasible(I)
            if p:
                bad = 'undefined behaviour (%s) at %s' % (', '.join(str(x) for x in t['ev'][0][:3]), p)
            else:
                und += 1
        if not bad and t['out'] != 'ret':
            if not abort_ok and t['exp'] != 'abort':
                p = spec.feasible(I)
                if p:
                    bad = '%s (%s) at %s' % ('terminates the process' if t['out'] == 'abort' else 'throws', t['why'], p)
                else:
                    und += 1
        elif not bad:
            r = t['ret']
            st = r.st if isinstance(r, SOr) else r if isinstance(r, StatusV) else None
            isok = True if st is None else st.ok
            if isinstance(isok, (B, T)):
                isok = None
            want_err = t['exp'] == ERR
            if t['exp'] is None:
                pass                        # nothing demanded here
            elif isinstance(t['exp'], tuple) and t['exp'][0] == 'FAIL':
                bad = t['exp'][1]
            elif isok is None:
                und += 1
            elif want_err and isok:
                p = spec.feasible(I)
                if p:
                    bad = 'accepts an input it must reject: %s' % p
                else:
                    und += 1
            elif not want_err and not isok:
                p = spec.feasible(I)
                if p:
                    bad = 'rejects a valid input: %s' % p
                else:
                    und += 1
            elif not want_err:
                for item in t['exp']:
                    name, got, want = item[:3]
                    alt = item[3] if len(item) > 3 else ()
                    d = compare_values(I, got, want, tol, alt)
                    if d is None:
                        continue
                    if d[0]:
                        bad = '%s is %s' % (name, d[1])
                        break
                    und += 1
                    why['undecided: ' + d[1][:100]] = why.get('undecided: ' + d[1][:100], 0) + 1
        c.oblige(bad is None)
        if bad:
            c.violation(key, file, line, '%s: %s' % (short(f), bad))
            break
    c.count('partitions', n)
    c.count('functions')
    if und:
        c.count('undecided', und)
        d = c.notes.setdefault('undecided', {}).setdefault(short(f), {})
        for k, v in (why or {'other': und}).items():
            d[k] = d.get(k, 0) + v
    return n, und


def compare_values(I, got, want, tol=0.0, alt=()):
    """None equal; (True, text) different; (False, why) undecided."""
    if isinstance(got, Cell):
        got = got.v
    if isinstance(want, Cell):
        want = want.v
    if isinstance(got, bool):
        got = int(got)
    if isinstance(want, bool):
        want = int(want)
    if got is UNINIT:
        p = spec.feasible(I)
        return (True, 'not set at %s' % p) if p else (False, 'not set')
    if isinstance(got, B) or isinstance(want, B):
        if isinstance(got, B):
            got = 1 if I.decide(got) else 0
        if isinstance(want, B):
            want = 1 if I.decide(want) else 0
    if isinstance(got, (Vec, View)) and isinstance(want, (list, tuple)):
        n = I.concrete(I.size(got))
        d = compare_values(I, n, len(want))
        if d:
            return (d[0], 'of size ' + d[1])
        for i, w in enumerate(want):
            d = compare_values(I, I.at(got, i), w, tol)
            if d:
                return (d[0], 'element %d: %s' % (i, d[1]))
        return None
    if (is_num(got) or isinstance(got, T)) and (is_num(want) or isinstance(want, T)):
        return spec.differs(I, got, want, tol, alt)
    if isinstance(got, str) and isinstance(want, str):
        if got == want:
            return None
        p = spec.feasible(I)
        return (True, '%r instead of %r at %s' % (got, want, p)) if p else (False, 'string')
    if got is None and want is None:
        return None
    return (False, 'incomparable %r and %r' % (got, want))
