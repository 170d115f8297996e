"""Program database: the resolved, type-checked program of /repo as exported by tool/xport.cc.

Every check calls load(); it (re)builds the exporter if needed, parses every non-test translation unit
whose content (or included repository header) changed, and returns a Program.  Results are cached under
/verif/build keyed by content, so the cache can only ever answer for byte-identical input.
"""
import concurrent.futures, glob, hashlib, json, os, pickle, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import protogen

LIBS = ['/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM.so.18.1']
NOT_PRODUCT = re.compile(r'(^|/)(tests?|testdata|testing|benchmarks?|fuzz)(/|$)|_test\.cc$|_tests?\.cc$|_benchmark\.cc$|_fuzz\w*\.cc$|test_util\w*\.cc$')


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (not a verdict on the property)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def units():
    out = []
    for top in ('iamf', 'validation'):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.cc'):
                    rel = os.path.relpath(os.path.join(dp, f), REPO)
                    if not NOT_PRODUCT.search(rel):
                        out.append(rel)
    return sorted(out)


def build_tool():
    src = os.path.join(VERIF, 'tool', 'xport.cc')
    h = sha(read(src))[:16]
    exe = os.path.join(BUILD, 'xport-' + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        fl = [x for x in fl if not x.startswith('-std=')]
        tmp = exe + '.tmp%d' % os.getpid()
        r = subprocess.run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-w'] + fl + [src, '-o', tmp] + LIBS,
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot build xport:\n' + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe, h


def stubs_hash():
    h = []
    for dp, dn, fn in os.walk(os.path.join(VERIF, 'stubs')):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(dp, f)
            h.append(os.path.relpath(p, VERIF)); h.append(read(p))
    return sha(*h)


def flags(pb):
    s = os.path.join(VERIF, 'stubs')
    return ['-std=c++20', '-w', '-ferror-limit=0', '-include', s + '/prelude.h', '-I' + pb + '/gen', '-I' + s,
            '-I' + REPO, '-I' + REPO + '/iamf/include', '-I' + REPO + '/iamf/include/iamf_tools',
            '-I/usr/include/eigen3', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


# ---- conversion of the raw JSON: type indices become strings -------------------------------------
EXPR = {'int', 'flt', 'str', 'this', 'fref', 'bref', 'ref', 'mem', 'call', 'ctor', 'un', 'bin', 'asg', 'cond', 'idx', 'init',
        'dinit', 'zero', 'cast', 'lambda', 'new', 'delete', 'throw', 'raw', 'cst'}


def _conv(n, T):
    if type(n) is not list:
        return
    if n and type(n[0]) is str and len(n) > 1 and type(n[1]) is int:
        op = n[0]
        if op in EXPR and len(n) > 2 and type(n[2]) is int:
            n[2] = T[n[2]] if n[2] >= 0 else ''
            if op == 'cast' and type(n[5]) is int:
                n[5] = T[n[5]]
            elif op == 'asg' and len(n) > 6 and type(n[6]) is int:
                n[6] = T[n[6]]
            elif op == 'lambda':
                for c in n[4]:
                    if len(c) > 3:
                        _conv(c[3], T)
                return
        elif op == 'decl':
            for v in n[2]:
                _var(v, T)
            return
        elif op == 'rfor':
            _var(n[2], T)
            _conv(n[3], T); _conv(n[4], T); _conv(n[5], T)
            return
        elif op == 'if':
            _conv(n[2], T)
            if n[3]:
                _var(n[3], T)
            for x in n[4:]:
                _conv(x, T)
            return
        elif op == 'while':
            if n[2]:
                _var(n[2], T)
            _conv(n[3], T); _conv(n[4], T)
            return
        elif op == 'switch':
            _conv(n[2], T)
            if n[3]:
                _var(n[3], T)
            _conv(n[4], T); _conv(n[5], T)
            if type(n[6]) is int:
                n[6] = T[n[6]] if n[6] >= 0 else ''
            return
        for x in n[2:]:
            if type(x) is list:
                _conv(x, T)
        return
    for x in n:
        if type(x) is list:
            _conv(x, T)


def _var(v, T):
    v[2] = T[v[2]] if v[2] >= 0 else ''
    if v[3]:
        _conv(v[3], T)


def convert(d):
    T = d['types']
    for f in d['functions']:
        f['r'] = T[f['r']]
        f['tu'] = d['tu_rel']
        for p in f['p']:
            p[2] = T[p[2]]
        _conv(f.get('b'), T)
        for i in f.get('i', ()):
            _conv(i[1], T)
    for r in d['records']:
        for x in r['fs']:
            x['t'] = T[x['t']]
            if 'init' in x:
                _conv(x['init'], T)
        for m in r['ms']:
            m['r'] = T[m['r']]
    for e in d['enums']:
        e['u'] = T[e['u']]
    for g in d['globals']:
        g['t'] = T[g['t']]
        g['tu'] = d['tu_rel']
        if 'i' in g:
            _conv(g['i'], T)
    del d['types']
    return d


def _one(args):
    tu, exe, pb, base, cache = args
    """Returns (tu, key, error)."""
    idx = os.path.join(cache, tu.replace('/', '__') + '.idx')
    deps = None
    if os.path.exists(idx):
        with open(idx) as f:
            deps = json.load(f)
    def key_of(deps):
        parts = [base, tu]
        for d in deps:
            p = os.path.join(REPO, d)
            if not os.path.exists(p):
                return None
            parts.append(d); parts.append(read(p))
        return sha(*parts)[:32]
    if deps is not None:
        k = key_of(deps)
        if k and os.path.exists(os.path.join(cache, k + '.pkl')):
            return tu, k, None, False
    tmp = os.path.join(cache, tu.replace('/', '__') + '.%d.json' % os.getpid())
    r = subprocess.run([exe, REPO, tmp, os.path.join(REPO, tu), '--'] + flags(pb), capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        if os.path.exists(tmp):
            os.unlink(tmp)
        errs = [l for l in r.stderr.splitlines() if 'error:' in l][:3]
        return tu, None, '%s does not parse: %s' % (tu, ' | '.join(errs) or r.stderr[-400:]), True
    with open(tmp) as f:
        d = json.load(f)
    os.unlink(tmp)
    d['tu_rel'] = tu
    d = convert(d)
    deps = d['deps']
    k = key_of(deps)
    with open(os.path.join(cache, k + '.pkl.tmp%d' % os.getpid()), 'wb') as f:
        pickle.dump(d, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.rename(os.path.join(cache, k + '.pkl.tmp%d' % os.getpid()), os.path.join(cache, k + '.pkl'))
    with open(idx + '.tmp%d' % os.getpid(), 'w') as f:
        json.dump(deps, f)
    os.rename(idx + '.tmp%d' % os.getpid(), idx)
    return tu, k, None, True


class Program:
    def __init__(self):
        self.fn = {}       # key -> function dict
        self.rec = {}
        self.enum = {}
        self.glob = {}
        self.units = []
        self.reparsed = 0
        self.by_q = {}     # qualified name -> [function]
        self.overriders = {}  # key -> set of keys overriding (transitively)

    def index(self):
        for f in self.fn.values():
            self.by_q.setdefault(f['q'], []).append(f)
        direct = {}
        for r in self.rec.values():
            for m in r['ms']:
                for o in m.get('ov', ()):
                    direct.setdefault(o, set()).add(m['k'])
        for f in self.fn.values():
            for o in f.get('ov', ()):
                direct.setdefault(o, set()).add(f['k'])
        for k in direct:
            seen, todo = set(), list(direct[k])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo.extend(direct.get(x, ()))
            self.overriders[k] = seen
        self.rec_by_q = {}
        for r in self.rec.values():
            self.rec_by_q.setdefault(r['q'], []).append(r)

    def q(self, name, nparams=None):
        """The unique function with this qualified name (suffix match on namespaces)."""
        c = self.by_q.get(name) or self.by_q.get('iamf_tools::' + name)
        if not c:
            c = [f for q, fs in self.by_q.items() if q.endswith('::' + name) for f in fs]
        if nparams is not None:
            c = [f for f in c if len(f['p']) == nparams]
        return c or []


def load(tus=None, quiet=False):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    exe, th = build_tool()
    pb = os.path.join(BUILD, 'pb')
    protogen.generate(REPO, pb)
    base = sha(th, stubs_hash(), read(os.path.join(pb, 'stamp')), read(__file__), ' '.join(flags(pb)))
    us = units() if tus is None else tus
    jobs = [(u, exe, pb, base, cache) for u in us]
    P = Program()
    keys, errs = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        for tu, k, e, fresh in ex.map(_one, jobs):
            P.reparsed += fresh
            if e:
                errs.append(e)
            else:
                keys.append((tu, k))
    if errs:
        raise AnalysisBroken('%d translation units do not parse: %s' % (len(errs), errs[:5]))
    allk = sha(base, *[k for _, k in keys])[:32]
    mp = os.path.join(cache, 'prog-' + allk + '.pkl')
    import gc
    gc.disable()
    if tus is None and os.path.exists(mp):
        with open(mp, 'rb') as f:
            P.fn, P.rec, P.enum, P.glob = pickle.load(f)
    else:
        for tu, k in keys:
            with open(os.path.join(cache, k + '.pkl'), 'rb') as f:
                d = pickle.load(f)
            for f_ in d['functions']:
                o = P.fn.get(f_['k'])
                if o is None or (not o.get('b') and f_.get('b')):
                    P.fn[f_['k']] = f_
            for r in d['records']:
                P.rec.setdefault(r['k'], r)
            for e in d['enums']:
                P.enum.setdefault(e['k'], e)
            for g in d['globals']:
                o = P.glob.get(g['k'])
                if o is None or ('i' not in o and 'i' in g):
                    P.glob[g['k']] = g
        if tus is None:
            with open(mp + '.tmp%d' % os.getpid(), 'wb') as f:
                pickle.dump((P.fn, P.rec, P.enum, P.glob), f, protocol=pickle.HIGHEST_PROTOCOL)
            os.rename(mp + '.tmp%d' % os.getpid(), mp)
    gc.enable()
    P.units = [u for u, _ in keys]
    P.index()
    P.load_s = time.time() - t0
    return P


if __name__ == '__main__':
    P = load()
    print(len(P.units), 'units', len(P.fn), 'functions', len(P.rec), 'records', P.reparsed, 'parsed', round(P.load_s, 1), 's')
