"""Rules for the library functions the Python tools use (see pyx.py)."""
import math, os, re
from fractions import Fraction
import pyx
from pyx import *


def B(name):
    def d(f):
        return Builtin(name, f)
    return d


def text_obj(op, *args):
    return Sym(op, args, 'str')


def base_text(v):
    while isinstance(v, Sym) and v.op == 'stripped':
        v = v.args[0]
    return v


def libs(flag_values, texts=None, listener=None):
    """flag_values: flag name -> abstract value (missing: the declared default).
    texts: function(content term, needle) -> bool or None for membership tests on external text."""
    L = {}

    def ns(name, **t):
        L[name] = Ns(name, {k: Builtin(k, v) if callable(v) and not isinstance(v, (Builtin, type)) else v for k, v in t.items()})

    # ---- os
    def exists(I, a, k):
        return pyx.W.decide(('exists', freeze(a[0]), None))

    def join(I, a, k):
        if all(isinstance(x, str) for x in a):
            return os.path.join(*a)
        return sstr(*[y for i, x in enumerate(a) for y in ((['/'] if i else []) + [x])])

    def basename(I, a, k):
        if isinstance(a[0], str):
            return os.path.basename(a[0])
        if isinstance(a[0], SStr) and isinstance(a[0].parts[-1], str) and '/' in a[0].parts[-1]:
            return a[0].parts[-1].rsplit('/', 1)[1]
        return text_obj('basename', freeze(a[0]))

    def splitext(I, a, k):
        if isinstance(a[0], str):
            return os.path.splitext(a[0])
        return (text_obj('stem', freeze(a[0])), text_obj('ext', freeze(a[0])))
    ns('os.path', exists=exists, isfile=exists, join=join, basename=basename, abspath=lambda I, a, k: a[0] if not isinstance(a[0], str) else text_obj('abspath', a[0]),
       splitext=splitext, dirname=lambda I, a, k: text_obj('dirname', freeze(a[0])), getsize=lambda I, a, k: Sym('getsize', [freeze(a[0])], 'nonneg'))
    ns('os', path=L['os.path'], linesep='\n', sep='/', remove=lambda I, a, k: None, makedirs=lambda I, a, k: None, environ=None)
    # ---- processes
    PIPE, STDOUT, DEVNULL = Sym('PIPE'), Sym('STDOUT'), Sym('DEVNULL')

    def run(I, a, k):
        cmd = tuple(freeze(x) for x in flat(a[0] if a else k['args']))
        for x in cmd:
            if not is_text(x):
                raise PyExc(Exc('TypeError', ['command argument is not a string']))
        pyx.W.log.append(('run', cmd))
        rc = Sym('rc', [cmd], 'rc')
        if I.truth(k.get('check', False)) and sgn(rc, 0) != 0:
            raise PyExc(Exc('CalledProcessError', [rc, cmd]))
        out = text_obj('stdout', cmd) if k.get('stdout') == PIPE or k.get('capture_output') else None
        err = text_obj('stderr', cmd) if k.get('stderr') == PIPE or k.get('capture_output') else None

        def check_returncode(I, a, k):
            if sgn(rc, 0) != 0:
                raise PyExc(Exc('CalledProcessError', [rc, cmd]))
        return Obj('CompletedProcess', {'returncode': rc, 'stdout': out, 'stderr': err, 'args': a[0] if a else None, 'check_returncode': Builtin('check_returncode', check_returncode)})
    ns('subprocess', run=run, PIPE=PIPE, STDOUT=STDOUT, DEVNULL=DEVNULL, CompletedProcess=Builtin('CompletedProcess', None),
       call=lambda I, a, k: run(I, a, k).attrs['returncode'])
    ns('shutil', which=lambda I, a, k: sstr('/', text_obj('which', freeze(a[0]))) if pyx.W.decide(('which', freeze(a[0]), None)) else None,
       rmtree=lambda I, a, k: None)
    pyx.DOMAIN['rc'] = (None, None)

    def sysexit(I, a, k):
        raise PyExc(Exc('SystemExit', a))
    ns('sys', exit=sysexit, argv=[], stdout=Obj('stream', {'write': Builtin('write', lambda I, a, k: pyx.W.log.append(('print', (freeze(a[0]),))))}),
       stderr=Obj('stream', {'write': Builtin('write', lambda I, a, k: None)}))
    # ---- files

    def tmp():
        n = pyx.W.__dict__.setdefault('tmpn', [0])
        n[0] += 1
        return text_obj('tempdir', n[0])

    def tempdir(I, a, k):
        p = tmp()
        return Obj('TemporaryDirectory', {'name': p, '__enter__': lambda: p, 'cleanup': Builtin('cleanup', lambda I, a, k: None)})
    ns('tempfile', TemporaryDirectory=tempdir, mkdtemp=lambda I, a, k: tmp())

    def open_(I, a, k):
        path = freeze(a[0])
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if 'w' in mode or 'a' in mode:
            if pyx.W.decide(('cannot write', path, None)):
                raise PyExc(Exc('OSError', ['cannot open']))

            def write(I, a, k):
                pyx.W.log.append(('write', path, mode, freeze(a[0])))

            def writelines(I, a, k):
                for x in flat(a[0]):
                    write(I, [x], {})
            o = Obj('file', {'write': Builtin('write', write), 'writelines': Builtin('writelines', writelines), 'close': Builtin('close', lambda I, a, k: None),
                             'flush': Builtin('flush', lambda I, a, k: None)})
            pyx.W.log.append(('openw', path, mode))
        else:
            if not pyx.W.decide(('exists', path, None)):
                raise PyExc(Exc('FileNotFoundError', [path]))
            c = text_obj('content', path)
            o = Obj('file', {'read': Builtin('read', lambda I, a, k: c), 'close': Builtin('close', lambda I, a, k: None)})
        o.attrs['__enter__'] = lambda: o
        return o
    BUILTINS['open'] = Builtin('open', open_)
    # ---- wave

    def wopen(I, a, k):
        p = freeze(a[0])
        t = {n: Builtin(n, lambda I, a, k, n=n: Sym(n, [p], 'nonneg')) for n in ('getnframes', 'getframerate', 'getnchannels', 'getsampwidth')}
        over = flag_values.get('wave')
        if over:
            for n in t:
                v = over(n, p)
                if v is not None:
                    t[n] = Builtin(n, lambda I, a, k, v=v: v)
        t['getparams'] = Builtin('getparams', lambda I, a, k: Obj('params', {'nframes': t['getnframes'].f(I, [], {}), 'framerate': t['getframerate'].f(I, [], {}),
                                                                             'nchannels': t['getnchannels'].f(I, [], {}), 'sampwidth': t['getsampwidth'].f(I, [], {})}))
        t['close'] = Builtin('close', lambda I, a, k: None)
        o = Obj('Wave_read', t)
        o.attrs['__enter__'] = lambda: o
        return o
    ns('wave', open=wopen)
    # ---- absl

    def define(I, a, k):
        n = a[0]
        v = flag_values[n] if n in flag_values else a[1]
        if isinstance(v, tuple) and v and v[0] == 'default':
            v = a[1]
        return Obj('FlagHolder', {'value': v, 'default': a[1], 'name': n})
    ns('absl.flags', mark_flag_as_required=lambda I, a, k: None, mark_flags_as_required=lambda I, a, k: None,
       **{'DEFINE_' + t: define for t in ('string', 'float', 'integer', 'bool', 'boolean', 'enum', 'list')})
    ns('absl.logging', **{t: (lambda I, a, k: None) for t in ('info', 'warning', 'error', 'debug', 'exception', 'log')})
    ns('absl.app', run=lambda I, a, k: None)
    ns('absl', flags=L['absl.flags'], logging=L['absl.logging'], app=L['absl.app'])
    # ---- misc

    def field(I, a, k):
        return Obj('dataclass.field', {'factory': k['default_factory']})
    ns('dataclasses', dataclass=lambda I, a, k: None, field=field, replace=lambda I, a, k: Obj(a[0].cls, dict(a[0].attrs, **k)))

    def defaultdict(I, a, k):
        d = DefaultDict()
        d.factory = a[0]
        return d

    def counter(I, a, k):
        d = {}
        for x in flat(a[0]):
            d[x] = d.get(x, 0) + 1
        return d
    ns('collections', defaultdict=defaultdict, Counter=counter, OrderedDict=lambda I, a, k: {})
    ns('itertools', product=lambda I, a, k: [t for t in __import__('itertools').product(*[flat(x) for x in a])], chain=lambda I, a, k: [y for x in a for y in flat(x)],
       groupby=lambda I, a, k: groupby(I, a, k), pairwise=lambda I, a, k: list(zip(flat(a[0]), flat(a[0])[1:])))
    L['itertools'].table['chain'] = Builtin('chain', lambda I, a, k: [y for x in a for y in flat(x)])
    ns('functools', lru_cache=lambda I, a, k: None, partial=lambda I, a, k: Builtin('partial', lambda I2, a2, k2: I2.call(a[0], a[1:] + a2, dict(k, **k2), None)))
    ns('math', ceil=lambda I, a, k: ceil_(a[0]), floor=lambda I, a, k: floor_(a[0]), inf=float('inf'),
       fabs=lambda I, a, k: I.call(BUILTINS['abs'], a, {}, None), isclose=lambda I, a, k: _unsup('isclose'))
    ns('typing', Any=None, Optional=None, Sequence=None)
    ns('pathlib')
    ns('textwrap')

    # ---- re
    def findall(I, pat, s):
        if isinstance(s, str):
            return re.findall(pat, s)
        b = base_text(s)
        if isinstance(b, SStr):
            syms = [p for p in b.parts if isinstance(p, Sym)]
            if len(syms) != 1:
                raise Unsupported('findall')
            b = base_text(syms[0])
        f = flag_values.get('findall')
        if not f:
            raise Unsupported('findall on opaque text')
        return f(I, pat, b)

    def rx(I, a, k):
        p = a[0]
        return Obj('pattern', {'findall': Builtin('findall', lambda I, a2, k2: findall(I, p, a2[0])), 'finditer': Builtin('finditer', lambda I, a2, k2: finditer(I, p, a2[0]))})

    def finditer(I, p, s):
        out = []
        for m in findall(I, p, s):
            out.append(Obj('match', {'group': Builtin('group', lambda I, a, k, m=m: m), '__getitem__': lambda i, m=m: m}))
        return out
    ns('re', findall=lambda I, a, k: findall(I, a[0], a[1]), compile=rx, finditer=lambda I, a, k: finditer(I, a[0], a[1]), MULTILINE=8, M=8,
       escape=lambda I, a, k: re.escape(a[0]))
    # ---- numpy

    def elt(v, f):
        if isinstance(v, ND):
            return ND(f(v.term), v.shape)
        if isinstance(v, Arr):
            return Arr([f(x) for x in v.e])
        if isinstance(v, (list, tuple)):
            return Arr([f(x) for x in v])
        return f(v)

    def fn1(name, conc, kind=None):
        def g(x):
            if symbolic(x):
                return Sym(name, [x], kind)
            return conc(x)
        return lambda I, a, k: elt(a[0], g)

    def arr(I, v):
        if isinstance(v, Arr):
            return v.e
        if isinstance(v, (list, tuple, range)):
            return list(v)
        raise Unsupported('array expected')

    def axis0(v, a, k):
        ax = a[1] if len(a) > 1 else k.get('axis')
        return ax

    def mean(I, a, k):
        v = a[0]
        if isinstance(v, ND):
            ax = axis0(v, a, k)
            if len(v.shape) == 2 and ax in (0, -2):
                return Arr([Sym('mean bins', [v.term, f], 'nonneg' if isinstance(v.term, Sym) and v.term.op == 'sq' or isinstance(v.term, Lin) and sqpos(v.term) else None) for f in range(v.shape[1])])
            if len(v.shape) == 2 and ax in (1, -1):
                return Arr([Sym('mean frames', [v.term, f]) for f in range(v.shape[0])])
            return Sym('mean all', [v.term])
        e = arr(I, v)
        if not e:
            raise Unsupported('mean of nothing')
        s = 0
        for x in e:
            s = add(s, x)
        return scale(s, Fraction(1, len(e))) if symbolic(s) else s / len(e)

    def sqpos(l):
        return l.c >= 0 and all(isinstance(t, Sym) and t.op == 'sq' and f > 0 for t, f in l.t.items())

    def where(I, a, k):
        if len(a) == 3:
            return Arr([x if I.truth(c) else y for c, x, y in zip(arr(I, a[0]), spread(a[1], len(arr(I, a[0]))), spread(a[2], len(arr(I, a[0]))))])
        return (Arr([i for i, c in enumerate(arr(I, a[0])) if I.truth(c)]),)

    def spread(v, n):
        return v.e if isinstance(v, Arr) else [v] * n

    def red(op):
        def f(I, a, k):
            e = arr(I, a[0])
            if not e:
                raise PyExc(Exc('ValueError', ['zero-size array']))
            return mx(e, op)
        return f

    def sum_(I, a, k):
        r = 0
        for x in arr(I, a[0]):
            if isinstance(x, bool):
                x = int(x)
            r = add(r, x)
        return r

    def diff(I, a, k):
        e = [int(x) if isinstance(x, bool) else x for x in arr(I, a[0])]
        return Arr([add(y, x, -1) for x, y in zip(e, e[1:])])

    def concat(I, a, k):
        return Arr([y for x in flat(a[0]) for y in (x.e if isinstance(x, Arr) else flat(x))])

    def arg(op):
        def f(I, a, k):
            e = arr(I, a[0])
            b = 0
            for i in range(1, len(e)):
                s = sgn(int(e[i]) if isinstance(e[i], bool) else e[i], int(e[b]) if isinstance(e[b], bool) else e[b])
                if s > 0 if op == 'max' else s < 0:
                    b = i
            return b
        return f

    def col(t, i):
        if isinstance(t, Lin):
            return unlin(Lin({col(k, i): v for k, v in t.t.items()}, t.c))
        if isinstance(t, Sym):
            if t.op in ('div', 'mul', 'sq', 'log10', 'sqrt'):
                return Sym(t.op, [col(x, i) for x in t.args], t.kind)
            if t.op == 'wavdata':
                return Sym('channel', [t, i])
            return t
        return t

    def getitem(o, k):
        if isinstance(k, tuple) and len(k) == 2 and len(o.shape) == 2 and isinstance(k[0], slice) and k[0] == slice(None, None, None) and isinstance(k[1], int):
            if not -o.shape[1] <= k[1] < o.shape[1]:
                raise PyExc(Exc('IndexError', []))
            return ND(col(o.term, k[1] % o.shape[1]), o.shape[:1])
        if isinstance(k, int) and len(o.shape) == 2 and isinstance(o.shape[0], int):
            return ND(Sym('row', [o.term, k]), o.shape[1:])
        raise Unsupported('array index')

    def getattr_(o, name):
        if name == 'shape':
            return o.shape
        if name == 'ndim':
            return len(o.shape)
        if name == 'dtype':
            t = o.term
            return Sym('dtype', [t if isinstance(t, Sym) else freeze(t)])
        if name == 'T':
            return ND(Sym('row view', [o.term]), o.shape[::-1]) if not isinstance(o.term, Sym) or o.term.op != 'wavdata' else Rows(o)
        if name == 'astype':
            return Builtin('astype', lambda I, a, k: o)
        if name in ('mean',):
            return Builtin('mean', lambda I, a, k: mean(I, [o] + a, k))
        raise Unsupported('array attribute ' + name)

    class Rows(ND):
        def __init__(self, o):
            super().__init__(o.term, o.shape[::-1])
            raise Unsupported('transpose')

    def iinfo(I, a, k):
        return Obj('iinfo', {'max': Sym('integer maximum', [a[0]], 'nonneg'), 'min': Sym('integer minimum', [a[0]])})

    def reshape(I, a, k):
        raise Unsupported('reshape')

    def asarray(I, a, k):
        v = a[0]
        if isinstance(v, (ND, Arr)):
            return v
        return Arr(flat(v))
    ns('numpy', ceil=lambda I, a, k: elt(a[0], ceil_), floor=lambda I, a, k: elt(a[0], floor_), where=where, max=red('max'), amax=red('max'), min=red('min'), amin=red('min'),
       mean=mean, average=mean, sum=sum_, diff=diff, concatenate=concat, argmax=arg('max'), argmin=arg('min'), any=lambda I, a, k: any([I.truth(x) for x in arr(I, a[0])]),
       all=lambda I, a, k: all([I.truth(x) for x in arr(I, a[0])]), nonzero=where, flatnonzero=lambda I, a, k: where(I, a, k)[0], count_nonzero=lambda I, a, k: sum([1 for x in arr(I, a[0]) if I.truth(x)]),
       log10=fn1('log10', math.log10), sqrt=fn1('sqrt', math.sqrt, 'nonneg'), abs=lambda I, a, k: elt(a[0], lambda x: I.call(BUILTINS['abs'], [x], {}, None)),
       square=lambda I, a, k: elt(a[0], sq), squeeze=lambda I, a, k: a[0], array=asarray, asarray=asarray, iinfo=iinfo, ndarray=None, reshape=reshape,
       maximum=lambda I, a, k: mx(a, 'max') if not isinstance(a[0], (Arr, ND)) else _unsup('maximum'), atleast_2d=reshape, newaxis=None, float64=BUILTINS['float'], pad=reshape,
       append=lambda I, a, k: Arr(arr(I, a[0]) + (a[1].e if isinstance(a[1], Arr) else [a[1]])), zeros=lambda I, a, k: Arr([0] * a[0]), isnan=lambda I, a, k: elt(a[0], lambda x: False),
       arange=lambda I, a, k: Arr(range(*a)), insert=reshape, power=lambda I, a, k: I.binop(__import__('ast').Pow(), a[0], a[1], None))
    t = L['numpy'].table
    t['__getitem__'], t['__getattr__'] = getitem, getattr_
    ns('numpy.typing', NDArray=None)

    def melspec(I, a, k):
        y = k.get('y', a[0] if a else None)
        if not isinstance(y, ND) or len(y.shape) != 1:
            if isinstance(y, ND):
                return ND(Sym('mel of a matrix', [freeze(y.term)]), (2, flag_values['frames']))
            raise Unsupported('melspectrogram input')
        return ND(Sym('mel', [y.term if symbolic(y.term) else freeze(y.term), freeze(k.get('sr')), freeze(k.get('n_fft', 2048)), freeze(k.get('hop_length', 512)),
                              tuple(sorted((n, freeze(v)) for n, v in k.items() if n not in ('y', 'sr', 'n_fft', 'hop_length')))]), (2, flag_values['frames']))
    ns('librosa.feature', melspectrogram=melspec)
    ns('librosa', feature=L['librosa.feature'])

    def wread(I, a, k):
        p = freeze(a[0])
        r = flag_values['wave']('getframerate', p) if flag_values.get('wave') else None
        return (r if r is not None else Sym('getframerate', [p], 'nonneg'), ND(Sym('wavdata', [p]), flag_values['shape']))
    ns('scipy.io.wavfile', read=wread)
    ns('scipy.io', wavfile=L['scipy.io.wavfile'])
    ns('scipy', io=L['scipy.io'])
    return L


def _unsup(w):
    raise Unsupported(w)


def ceil_(v):
    if symbolic(v):
        return Sym('ceil', [v])
    return math.ceil(v)


def floor_(v):
    if symbolic(v):
        return Sym('floor', [v])
    return math.floor(v)


def groupby(I, a, k):
    key = a[1] if len(a) > 1 else k.get('key')
    out = []
    for x in flat(a[0]):
        kv = I.call(key, [x], {}, None) if key is not None else x
        if out and I.equal(out[-1][0], kv):
            out[-1][1].append(x)
        else:
            out.append((kv, [x]))
    return out
