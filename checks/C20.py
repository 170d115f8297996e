"""The JSON form of a probe report is well-formed and complete."""
import itertools, re
import check, db, ir, absx, absmodels, spec, jsonv
from absval import *
from absval import T
from absx import split_t, bare
from contract import *

RULE = ('for every combination of present and absent parts of a probe report, every list length up to 3 and every value of its leaves, '
        'ProbeReportToJson builds a single well-formed JSON object with unique keys that holds exactly the present fields, each under its '
        'own name with its own value, every string escaped: the text is derived as a sequence of literal segments and symbolic pieces by '
        'abstract interpretation and parsed against the record declarations of the report')

# lists that are left out of the object when empty
OMIT_EMPTY = {'scalable_layers', 'anchored_loudness_elements'}
# fields that are not part of the JSON form
NOT_PRINTED = {'temporal_units', 'is_stream_info'}
# fields of a FLAC metadata block that only exist for STREAMINFO
COND = {'FlacMetaBlockReport': ('is_stream_info', {'block_type', 'block_type_raw'})}
PAIR = {'annotations': ('language', 'label')}


class Model:
    """Builds report values of a given shape and the JSON tree they must produce."""
    def __init__(self, P):
        self.P = P
        self.I = absx.Interp(P)

    def fields(self, t):
        r = self.I.rec(t)
        return [(f['n'], bare(f['t'])) for f in r['fs']] if r else None

    def kind(self, t):
        h, a = split_t(t)
        if h == 'std::optional':
            return 'opt', bare(a[0])
        if h == 'std::vector':
            return 'vec', bare(a[0])
        if h == 'std::pair':
            return 'pair', [bare(x) for x in a]
        if h in ('std::basic_string', 'std::__cxx11::basic_string') or t == 'std::string':
            return 'str', None
        if t == 'bool':
            return 'bool', None
        if self.I.intty(t):
            return 'int', None
        if self.I.isflt(t):
            return 'flt', None
        if self.fields(t) is not None:
            return 'rec', t
        return '?', t

    def minimal(self, t):
        k, a = self.kind(t)
        if k == 'opt':
            return None
        if k == 'vec':
            return []
        if k == 'bool':
            return False
        if k == 'rec':
            return {n: self.minimal(ft) for n, ft in self.fields(t)}
        return '*'

    def maximal(self, t):
        k, a = self.kind(t)
        if k == 'opt':
            return ('some', self.maximal(a))
        if k == 'vec':
            return [self.maximal(a)] * 2
        if k == 'bool':
            return True
        if k == 'rec':
            return {n: self.maximal(ft) for n, ft in self.fields(t)}
        return '*'

    def shapes(self, t):
        """Shapes of t that together cover every combination of neighbouring choices."""
        k, a = self.kind(t)
        if k == 'opt':
            return [None] + [('some', s) for s in self.shapes(a)]
        if k == 'vec':
            m = self.minimal(a)
            return [[], [m], [m, m], [m, m, m]] + [[s] for s in self.shapes(a)[1:]] + [[self.maximal(a), m], [m, self.maximal(a)]]
        if k == 'bool':
            return [False, True]
        if k != 'rec':
            return ['*']
        fs = self.fields(t)
        mn, mx = self.minimal(t), self.maximal(t)
        out = [mn, mx]
        # every subset of the optional parts and flags
        opts = [(n, ft) for n, ft in fs if self.kind(ft)[0] in ('opt', 'bool')]
        # values that come in pairs (x and x_q7_8) are present together
        names = {n for n, _ in opts}
        groups = []
        for n, ft in opts:
            if n.endswith('_q7_8') and n[:-5] in names:
                continue
            g = [(n, ft)]
            if n + '_q7_8' in names:
                g.append((n + '_q7_8', dict(opts)[n + '_q7_8']))
            groups.append(g)
        combos = itertools.product([0, 1], repeat=len(groups)) if len(groups) <= 8 else self.pairwise(len(groups))
        for bits in combos:
            for base in (mn, mx):
                s = dict(base)
                for g, b in zip(groups, bits):
                    for n, ft in g:
                        if self.kind(ft)[0] == 'bool':
                            s[n] = bool(b)
                        else:
                            s[n] = ('some', self.minimal(self.kind(ft)[1])) if b else None
                out.append(s)
        for n, ft in fs:
            if self.kind(ft)[0] in ('vec', 'rec', 'opt'):
                if any(n == x for g in groups for x, _ in g[1:]) or any(len(g) > 1 and g[0][0] == n for g in groups):
                    continue
                for s in self.shapes(ft):
                    for base in (mn, mx):
                        out.append(dict(base, **{n: s}))
        return uniq(out)

    def pairwise(self, n):
        out = {tuple([0] * n), tuple([1] * n)}
        for i in range(n):
            for v in (0, 1):
                b = [1 - v] * n
                b[i] = v
                out.add(tuple(b))
                for j in range(i):
                    c = list(b)
                    c[j] = v
                    out.add(tuple(c))
        return sorted(out)

    # value and expected JSON
    def build(self, t, shape, name, leaves):
        """(value, expected) for a value of type t."""
        k, a = self.kind(t)
        I = self.I
        if k == 'opt':
            if shape is None:
                return Opt(0), None
            v, e = self.build(a, shape[1], name, leaves)
            return Opt(1, Cell(v)), ('some', e)
        if k == 'vec':
            vs = [self.build(a, s, '%s[%d]' % (name, i), leaves) for i, s in enumerate(shape)]
            return Vec(a, [Cell(v) for v, _ in vs]), [e for _, e in vs]
        if k == 'bool':
            return (1 if shape else 0), bool(shape)
        if k == 'int':
            v = I.fresh(t, name)
            return v, ('num', v)
        if k == 'flt':
            v = var(name, -1e6, 1e6, True, single=t == 'float')
            return v, ('num', v)
        if k == 'str':
            s = leaves(name)
            return s, ('str', s)
        if k == 'pair':
            o = Obj('std::pair')
            f, ef = self.build(a[0], '*', name + '.first', leaves)
            s, es = self.build(a[1], '*', name + '.second', leaves)
            o.f['first'], o.f['second'] = Cell(f), Cell(s)
            return o, ('pair', ef, es)
        if k == 'rec':
            o = Obj(I.rec(t)['k'])
            e = {}
            cond = COND.get(t.split('::')[-1])
            for n, ft in self.fields(t):
                v, x = self.build(ft, shape[n], name + '.' + n, leaves)
                o.f[n] = Cell(v)
                if n in NOT_PRINTED:
                    continue
                if cond and not shape[cond[0]] and n not in cond[1]:
                    continue
                kk = self.kind(ft)[0]
                if kk == 'opt':
                    if x is not None:
                        e[n] = x[1]
                elif kk == 'vec' and not x and n in OMIT_EMPTY:
                    pass
                elif kk == 'vec' and n in PAIR:
                    e[n] = [{PAIR[n][0]: y[1], PAIR[n][1]: y[2]} for y in x]
                else:
                    e[n] = x
            return o, e
        return I.fresh(t, name), None


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        k = repr(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def match(I, got, want, path):
    """None or a description of the difference."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s is not an object' % (path or 'the document')
        for k in want:
            if k not in got:
                return 'key "%s" is missing from %s' % (k, path or 'the document')
        for k in got:
            if k not in want:
                return 'unexpected key "%s" in %s' % (k, path or 'the document')
        for k in want:
            r = match(I, got[k], want[k], path + '.' + k if path else k)
            if r:
                return r
        return None
    if isinstance(want, list):
        if not isinstance(got, list):
            return '%s is not a list' % path
        if len(got) != len(want):
            return '%s has %d elements instead of %d' % (path, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            r = match(I, g, w, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(want, bool):
        return None if got is want else '%s is %r instead of %s' % (path, got, str(want).lower())
    if want is None:
        return None
    if want[0] == 'num':
        if not isinstance(got, jsonv.Num):
            return '%s is not a number' % path
        g = got.v
        if isinstance(g, tuple):
            if want[1].isf and g[0] == 'int' and isinstance(g[1], T) and not g[1].isf:
                return '%s is printed as an integer' % path
            g = g[1]
        d = compare_values(I, g, want[1])
        if d and d[0]:
            return '%s holds another value: %s' % (path, d[1])
        if d:
            I.und = getattr(I, 'und', 0) + 1
        return None
    if want[0] == 'str':
        if not isinstance(got, jsonv.Str):
            return '%s is not a string' % path
        w = want[1]
        w = w.p if isinstance(w, SStr) else [w]
        g, w = flat(I, got.p), flat(I, w)
        if len(g) != len(w):
            return '%s is a string of %d characters instead of %d' % (path, len(g), len(w))
        for x, y in zip(g, w):
            d = compare_values(I, x, y)
            if d and d[0]:
                return '%s has a wrong character: %s' % (path, d[1])
        return None
    return None


def charset(I, t, byte=True):
    """Bytes (or values) the character term can be on the current partition."""
    at = spec.atoms(t, set())
    if len(at) != 1:
        return I.facts.sets(t)
    v, = at
    conds = [(b, x) for b, x in I.trail if isinstance(b, B) and spec.atoms(b.base, set()) == {v}]
    out = []
    for q in range(256):
        try:
            if all(spec.cond_holds(b, x, {v: q}) for b, x in conds):
                y = spec.teval(t, {v: q}) & (255 if byte else -1)
                out.append((y, y))
        except spec.NoEval:
            raise jsonv.Undecided('character')
    return out


def flat(I, p):
    out = []
    for x in p:
        if isinstance(x, str):
            out.extend(ord(c) for c in x)
        elif x[0] == 'chr':
            out.append(I.wrap(x[1], (8, False)))
        else:
            out.append(0 if False else op('piece', (repr(x),), -INF, INF))
    return out


def run():
    P = db.load()
    c = check.Check('C20', RULE, ['numbers of a report are finite', 'strings of a report are UTF-8',
                                  'x and x_q7_8 are present together', 'nested parts vary together with minimal and with full neighbours'])
    fs = [f for f in P.fn.values() if f['n'] == 'ProbeReportToJson' and f.get('b')]
    if not fs:
        c.notes['not found'] = 'ProbeReportToJson'
        return c
    f = fs[0]
    M = Model(P)
    I = M.I
    root = bare(f['p'][0][2].replace('const ', '').replace('&', '').strip())
    shapes = M.shapes(root)
    bad = {}

    def once(shape, leaves, what):
        v, want = M.build(root, shape, 'report', leaves)

        def go(I):
            r = I.call_fn(f, None, [Cell(I.copy(v))])
            return r.v if isinstance(r, Cell) else r
        I.unmodelled = {}
        I.und = 0
        for oc, r in I.explore(go, 400):
            c.count(what)
            msg = None
            if oc in ('cut', 'unsupported'):
                c.count('undecided')
                c.notes.setdefault('undecided', {})[str(r)[:100]] = 1
                continue
            if oc != 'ok':
                msg = 'terminates the process: %s' % r
            else:
                try:
                    doc = jsonv.Parser(r, lambda t, byte=True: charset(I, t, byte)).document() if not isinstance(r, Unk) else None
                    msg = match(I, doc, want, '')
                except jsonv.Malformed as e:
                    msg = 'the text is not JSON: %s' % e
                except jsonv.Undecided as e:
                    c.count('undecided')
                    continue
                if not msg and isinstance(r, (str, SStr)):
                    last = r if isinstance(r, str) else r.p[-1]
                    if not (isinstance(last, str) and last.endswith('}\n')):
                        msg = 'the text does not end with a newline'
            c.oblige(msg is None)
            if msg and not spec.unknown_trail(I):
                key = '%s|%s' % (f['f'], re.sub(r'\[\d+\]', '[]', msg)[:90])
                c.violation(key, f['f'], f['l'], 'ProbeReportToJson: ' + msg)
                if len(c.violations) > 12:
                    return
        if I.und:
            c.count('undecided', I.und)
        if I.unmodelled:
            c.notes.setdefault('unmodelled', {}).update(I.unmodelled)

    names = {}

    def plain(name):
        s = names.setdefault(name, 's%d' % len(names))
        return s
    strs = set()
    mx = M.maximal(root)
    M.build(root, mx, 'report', lambda n: strs.add(re.sub(r'\[\d+\]', '[]', n)) or 'x')

    def work(x):
        if len(c.violations) > 12:
            return
        if x[0] == 'shape':
            once(x[1], plain, 'report shapes')
            return
        # one unknown character in each string, two in the first
        i, target = x[1]
        k = 2 if i == 0 else 1

        def hostile(name, k=k):
            if re.sub(r'\[\d+\]', '[]', name) == target and name.replace('[0]', '').find('[') < 0:
                return SStr(['a'] + [('chr', var('%s.char%d' % (name, j), 0, 255)) for j in range(k)] + ['b'])
            return plain(name)
        once(mx, hostile, 'string escapes')
        c.count('strings')
    c.fork([('string', x) for x in enumerate(sorted(strs))] + [('shape', s) for s in shapes], work)
    return c
