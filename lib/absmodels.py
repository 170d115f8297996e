"""Models of the standard library and Abseil used by absx.Interp (by qualified name without template arguments)."""
import math
import ir
import absx
from absval import *
from absx import MODELS, CTORS, split_t, bare, Unsupported, Abort, Throw, Clo, ElemRef


def M(*names):
    def d(f):
        for x in names:
            MODELS[x] = f
        return f
    return d


def K(*names):
    def d(f):
        for x in names:
            CTORS[x] = f
        return f
    return d


def obj(I, o, fr):
    v = I.ev(o, fr)
    if isinstance(v, Ptr):
        v = v.cell.v
    return v


# ---- status -----------------------------------------------------------------------------------------
CODES = dict(Cancelled=1, Unknown=2, InvalidArgument=3, DeadlineExceeded=4, NotFound=5, AlreadyExists=6, PermissionDenied=7,
             ResourceExhausted=8, FailedPrecondition=9, Aborted=10, OutOfRange=11, Unimplemented=12, Internal=13,
             Unavailable=14, DataLoss=15, Unauthenticated=16)


def _err(code, name):
    def f(I, n, fr, o, a):
        return StatusV(False, code, (I.stack[-1]['q'] if I.stack else '', n[1]))
    MODELS['absl::%sError' % name] = f


for _n, _c in CODES.items():
    _err(_c, _n)


@M('absl::OkStatus')
def _(I, n, fr, o, a):
    return StatusV(True)


@K('absl::Status::Status')
def _(I, n, fr, t, a):
    if not a:
        return StatusV(True)
    v = I.ev(a[0], fr)
    if isinstance(v, StatusV):
        return v
    v = I.concrete(v)
    if is_num(v):
        return StatusV(v == 0, v, ('Status', n[1]))
    if isinstance(v, T):
        return StatusV(I.decide(compare('==', v, 0)), 2, ('Status', n[1]))
    return StatusV(False, 2, ('Status', n[1]))


def sov(I, o, fr):
    v = obj(I, o, fr)
    if isinstance(v, Unk):
        raise Unsupported('unknown status')
    return v


@M('absl::Status::ok', 'absl::StatusOr::ok', 'absl::internal_statusor::StatusOrData::ok')
def _(I, n, fr, o, a):
    v = sov(I, o, fr)
    return v.ok if isinstance(v, StatusV) else v.st.ok


@M('absl::StatusOr::status')
def _(I, n, fr, o, a):
    return sov(I, o, fr).st


@M('absl_model::AsStatus')
def _(I, n, fr, o, a):
    v = I.ev(a[0], fr)
    return v if isinstance(v, StatusV) else v.st


@M('absl::Status::code', 'absl::Status::raw_code')
def _(I, n, fr, o, a):
    v = sov(I, o, fr)
    return 0 if v.ok else v.code


@M('absl::Status::message', 'absl::Status::ToString')
def _(I, n, fr, o, a):
    I.ev(o, fr)
    return SStr([('sym', 'message')])


@M('absl::Status::Update')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    v = I.ev(a[0], fr)
    if c.v.ok:
        c.v = v
    return None


@M('absl::Status::IgnoreError', 'absl::StatusOr::IgnoreError')
def _(I, n, fr, o, a):
    I.ev(o, fr)


@K('absl::StatusOr::StatusOr')
def _(I, n, fr, t, a):
    if not a:
        return SOr(StatusV(False, 2, 'default'), None)
    if a[0][0] == 'ctor' or True:
        v = I.ev(a[0], fr)
    if isinstance(v, StatusV):
        return SOr(v, None)
    if isinstance(v, SOr):
        return v
    v = I.move_from(a[0], v, fr) if not (a[0][0] == 'ctor') else v
    return SOr(StatusV(True), Cell(v))


@M('absl::StatusOr::operator*', 'absl::StatusOr::value')
def _(I, n, fr, o, a):
    v = sov(I, o, fr)
    if not isinstance(v, SOr):
        raise Unsupported('StatusOr')
    if not v.st.ok:
        I.event('badoptional', n[1])
        raise Abort('value of a failed StatusOr at line %d' % n[1])
    return v.cell


@M('absl::StatusOr::operator->')
def _(I, n, fr, o, a):
    v = sov(I, o, fr)
    if not v.st.ok:
        I.event('badoptional', n[1])
        raise Abort('value of a failed StatusOr at line %d' % n[1])
    return Ptr(v.cell)


for _n, _c in CODES.items():
    def _mk(code):
        def f(I, n, fr, o, a):
            v = I.ev(a[0], fr)
            return (not v.ok) and v.code == code
        return f
    MODELS['absl::Is' + _n] = _mk(_c)


# ---- logging, formatting ----------------------------------------------------------------------------
@M('absl_model::Voidify::operator&&', 'absl_model::LogStream::operator<<', 'absl_model::FatalStream::operator<<',
   'absl_model::LogInfo', 'absl_model::LogWarning', 'absl_model::LogError')
def _(I, n, fr, o, a):
    for x in ir.walk(n):
        if x[0] == 'call' and x[3] and x[3][2] & 8:
            raise Abort('%s at line %d' % (x[3][1].split('::')[-1], n[1]))
    return Unk(n[2], 'log')


@K('absl_model::Voidify::Voidify')
def _(I, n, fr, t, a):
    return Unk(t, 'log')


@M('absl_model::VlogIsOn', 'absl_model::LogCondition')
def _(I, n, fr, o, a):
    return False


def piece(I, v, t):
    """One argument of StrCat."""
    if isinstance(v, B):
        v = 1 if I.decide(v) else 0
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (str, SStr)):
        return v
    t = bare(t)
    if isinstance(v, int):
        return str(v) if I.intty(t) else SStr([('num', v)])
    if isinstance(v, float):
        return SStr([('flt', v)])
    if isinstance(v, T):
        return SStr([('flt' if v.isf or I.isflt(t) else 'int', v)])
    return SStr([('unk', repr(v))])


@M('absl::StrCat')
def _(I, n, fr, o, a):
    return scat(*[strpiece(I, x, fr) for x in a if x])


def strpiece(I, x, fr):
    """x is an AlphaNum (constructed from something) or a string."""
    if is_alnum(x):
        return alnum(I, x, fr)
    v = I.ev(x, fr)
    return v if isinstance(v, (str, SStr)) else piece(I, v, ir.typ(x))


def is_alnum(x):
    return x[0] == 'ctor' and x[3][1].startswith('absl::AlphaNum')


def alnum(I, x, fr):
    y = x[4][0]
    v = I.ev(y, fr)
    if isinstance(v, (Unk,)):
        return SStr([('unk', v.name)])
    return piece(I, v, ir.typ(y))


@K('absl::AlphaNum::AlphaNum')
def _(I, n, fr, t, a):
    return alnum(I, n, fr)


@M('absl::StrAppend')
def _(I, n, fr, o, a):
    p = I.ev(a[0], fr)
    c = p.cell
    c.v = scat(c.v, *[strpiece(I, x, fr) for x in a[1:] if x])


@M('absl::StrJoin')
def _(I, n, fr, o, a):
    c = I.ev(a[0], fr)
    sep = I.ev(a[1], fr)
    cnt = I.concrete(I.size(c))
    if not is_num(cnt) or len(a) > 2:
        return SStr([('sym', I.name('join'))])
    out = []
    for i in range(cnt):
        if i:
            out.append(sep)
        v = I.at(c, i).v
        out.append(v if isinstance(v, (str, SStr)) else piece(I, v, getattr(c, 'et', '')))
    return scat(*out)


@M('absl::StrAppendFormat')
def _(I, n, fr, o, a):
    p = I.ev(a[0], fr)
    vals = [I.ev(x, fr) for x in a[1:]]
    p.cell.v = scat(p.cell.v, SStr([('fmt', tuple(v if isinstance(v, (str, int, float, T)) else repr(v) for v in vals))]))


@K('absl::str_format_internal::FormatSpecTemplate::FormatSpecTemplate', 'absl::str_format_internal::FormatSpecImpl::FormatSpecImpl')
def _(I, n, fr, t, a):
    return I.ev(a[0], fr)


# ---- strings ----------------------------------------------------------------------------------------
@K('std::basic_string::basic_string', 'std::basic_string_view::basic_string_view')
def _(I, n, fr, t, a):
    a = [x for x in a if x and not (x[0] == 'ctor' and x[3][1].endswith('allocator::allocator'))]
    if not a:
        return ''
    vs = [I.ev(x, fr) for x in a]
    vs = [v.cell.v if isinstance(v, StrBuf) else v for v in vs]
    if len(vs) == 1 and isinstance(vs[0], (str, SStr)):
        return vs[0]
    if len(vs) == 2 and isinstance(vs[0], SStr) and I.same(I.size(vs[0]), vs[1]) is True:
        return vs[0]
    if len(vs) == 2 and isinstance(vs[0], str) and is_num(vs[1]):
        return vs[0][:vs[1]]
    if len(vs) == 2 and is_num(vs[0]) and is_num(vs[1]):
        return chr(vs[1] & 255) * vs[0]
    if len(vs) == 2 and isinstance(vs[0], (It, Ptr)):
        r = string_of_range(I, vs[0], vs[1])
        if r is not None:
            return r
    if len(vs) == 1 and isinstance(vs[0], It) and isinstance(vs[0].c, Vec) and hasattr(vs[0].c.make, 'st'):
        I.event('oob', 'no terminator in the buffer', n[1])
    if len(vs) == 2 and isinstance(vs[0], T) and is_num(vs[1]):
        return SStr([('rep', vs[1], vs[0])])
    return SStr([('sym', I.name('string'))])


def string_of_range(I, b, e):
    """String of the characters [b, e) or of e characters from b."""
    if isinstance(b, Ptr):
        if not isinstance(b.cell, ElemRef):
            return None
        b = It(b.cell.vec, b.cell.i)
    if isinstance(e, Ptr):
        if not isinstance(e.cell, ElemRef):
            return None
        e = It(e.cell.vec, e.cell.i)
    n = I.concrete(sub(e.i, b.i) if isinstance(e, It) else e)
    if b.rev:
        return None
    c, off = b.c, b.i
    if isinstance(c, View):
        c, off = c.vec, add(c.off, off)
    if is_num(n) and 0 <= n <= 64:
        out = []
        for k in range(int(n)):
            v = I.at(c, add(off, k)).v
            if v is UNINIT:
                return None
            v = I.concrete(v)
            out.append(chr(v & 255) if is_num(v) else SStr([('chr', v)]))
        return scat(*out) if out else ''
    mk_ = getattr(c, 'make', None)
    if hasattr(mk_, 'st') and not [x for x in c.items if x is not None] and not c.symidx:
        return SStr([('file', add(mk_.pos, off), n, mk_.st)])
    return None


@M('std::basic_string::data')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    if isinstance(c, Cell) and isinstance(c.v, (str, SStr)) and not n[3][0].endswith('const'):
        return StrBuf(c)
    return c


@M('std::basic_string::resize')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    if isinstance(c.v, Ptr):
        c = c.v.cell
    k = I.concrete(I.num(I.ev(a[0], fr)))
    fill = I.concrete(I.ev(a[1], fr)) if len(a) > 1 and a[1] is not None else 0
    old = I.concrete(I.size(c.v))
    if isinstance(c.v, str) and is_num(k) and is_num(fill):
        c.v = c.v[:k] if k <= old else c.v + chr(fill & 255) * (k - old)
    elif is_num(k) and is_num(old) and k == old:
        pass
    elif is_num(k) and is_num(old) and is_num(fill) and all(isinstance(x, str) or x[0] == 'chr' for x in c.v.p):
        ch = [y for x in c.v.p for y in (list(x) if isinstance(x, str) else [SStr([x])])]
        c.v = scat(*(ch[:k] + [chr(fill & 255)] * (k - old))) if k else ''
    elif is_num(fill) and (c.v == '' or is_num(k) is False and is_num(old) and old == 0):
        c.v = SStr([('rep', fill, k)])
    else:
        c.v = SStr([('sym', I.name('resized'))])


@M('std::basic_string::operator basic_string_view', 'std::basic_string::c_str', 'std::basic_string_view::data',
   'std::basic_string::str', 'std::basic_string_view::operator basic_string')
def _(I, n, fr, o, a):
    return I.lv(o, fr)


@M('std::basic_string::push_back')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    v = I.concrete(I.ev(a[0], fr))
    c.v = scat(c.v, chr(v & 255) if is_num(v) else SStr([('chr', v)]))


@M('std::basic_string::append', 'std::basic_string::operator+=')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    vs = [I.ev(x, fr) for x in a if x]
    if len(vs) == 1 and isinstance(vs[0], (str, SStr)):
        c.v = scat(c.v, vs[0])
    elif len(vs) == 1:
        v = I.concrete(vs[0])
        c.v = scat(c.v, chr(v & 255) if is_num(v) else SStr([('chr', v)]))
    elif len(vs) == 2 and is_num(vs[0]) and is_num(vs[1]):
        c.v = scat(c.v, chr(vs[1]) * vs[0])
    else:
        c.v = scat(c.v, SStr([('sym', I.name('append'))]))
    return c


@M('std::operator+')
def _(I, n, fr, o, a):
    vs = [I.ev(x, fr) for x in a]
    if any(isinstance(v, (str, SStr)) for v in vs):
        out = []
        for v in vs:
            if isinstance(v, (str, SStr)):
                out.append(v)
            elif is_num(v):
                out.append(chr(v & 255))
            else:
                out.append(SStr([('chr', v)]))
        return scat(*out)
    if any(isinstance(v, It) for v in vs):
        return I.ptr_arith('+', vs[0], vs[1])
    raise Unsupported('operator+')


@M('std::to_string')
def _(I, n, fr, o, a):
    return piece(I, I.ev(a[0], fr), ir.typ(a[0]))


@M('std::basic_string::size', 'std::basic_string::length', 'std::basic_string_view::size', 'std::basic_string_view::length',
   'std::vector::size', 'absl::Span::size', 'absl::Span::length', 'std::array::size', 'absl::container_internal::raw_hash_set::size', 'std::map::size', 'std::set::size', 'std::initializer_list::size', 'std::list::size', 'std::deque::size')
def _(I, n, fr, o, a):
    return I.size(obj(I, o, fr))


@M('std::size', 'std::ssize')
def _(I, n, fr, o, a):
    return I.size(I.ev(a[0], fr))


@M('std::basic_string::empty', 'std::basic_string_view::empty', 'std::vector::empty', 'absl::Span::empty', 'std::array::empty',
   'absl::container_internal::raw_hash_set::empty', 'std::map::empty', 'std::set::empty', 'std::list::empty')
def _(I, n, fr, o, a):
    return I.rel('==', I.size(obj(I, o, fr)), 0)


@M('std::basic_string::reserve', 'std::vector::reserve', 'absl::container_internal::raw_hash_set::reserve', 'std::vector::shrink_to_fit', 'std::basic_string::shrink_to_fit')
def _(I, n, fr, o, a):
    for x in a:
        I.ev(x, fr)


@M('std::basic_string::clear')
def _(I, n, fr, o, a):
    I.lv(o, fr).v = ''


@M('std::basic_string::operator=', 'std::basic_string_view::operator=')
def _(I, n, fr, o, a):
    v = I.ev(a[0], fr)
    c = I.lv(o, fr)
    c.v = v
    return c


# ---- containers -------------------------------------------------------------------------------------
def make_vec(I, n, fr, t, a):
    h, ta = split_t(t)
    et = ta[0]
    a = [x for x in a if x and not (x[0] == 'ctor' and 'allocator' in x[3][1])]
    if not a:
        return Vec(et)
    vs = [I.ev(x, fr) for x in a]
    v0 = vs[0]
    if len(vs) == 1 and isinstance(v0, Vec):
        return Vec(et, [Cell(I.copy(I.at(v0, i).v)) for i in range(v0.n)] if is_num(v0.n) else None, v0.n, v0.make) if is_num(v0.n) else I.copy(v0)
    if is_num(v0) or (isinstance(v0, T)):
        if len(vs) > 1:
            val = vs[1]
            return Vec(et, [], v0, lambda i: I.copy(val))
        return Vec(et, [], v0, lambda i: I.default(et))
    if len(vs) == 2 and isinstance(v0, Vec):
        v0 = I.decay(v0)
    if len(vs) == 2 and (isinstance(v0, It) or isinstance(v0, Ptr)):
        return copy_range(I, et, v0, vs[1])
    raise Unsupported('vector constructor')


def copy_range(I, et, b, e):
    if isinstance(b, It):
        c, i, j, rev = b.c, b.i, e.i, b.rev
    elif isinstance(b, Ptr) and isinstance(b.cell, ElemRef):
        c, i, j, rev = b.cell.vec, b.cell.i, e.cell.i, False
    else:
        raise Unsupported('range')
    n = I.concrete(sub(j, i) if not rev else sub(i, j))
    if is_num(n):
        n = max(0, int(n))
        return Vec(et, [Cell(I.copy(I.at(c, add(i, k) if not rev else sub(i, k + 1)).v)) for k in range(n)])
    if rev:
        return Vec(et, [], n, lambda k: I.copy(I.at(c, sub(i, add(k, 1))).v))
    if isinstance(c, (str, SStr)):
        return Vec(et, [], n, lambda k: op('chr', (repr(c), k), -128, 127))
    # snapshot lazily: the source is not expected to change afterwards
    def mk(k):
        return I.copy(I.at(c, add(i, k)).v)
    src = c.vec if isinstance(c, View) and c.off == 0 else c
    if isinstance(src, Vec) and i == 0 and not any(x is not None for x in src.items):
        for nm in ('tokid', 'toks'):
            if hasattr(src.make, nm):
                setattr(mk, nm, getattr(src.make, nm))
    return Vec(et, [], n, mk)


K('std::vector::vector', 'std::list::list', 'std::deque::deque')(make_vec)


@K('std::array::array')
def _(I, n, fr, t, a):
    return I.default(t)


@K('std::initializer_list::initializer_list')
def _(I, n, fr, t, a):
    return I.default('std::vector<%s>' % split_t(t)[1][0]) if not a else I.ev(a[0], fr)


@K('std::allocator::allocator', 'absl::hash_internal::Hash::Hash', 'std::equal_to::equal_to', 'std::less::less', 'std::less_equal::less_equal', 'std::greater::greater', 'std::greater_equal::greater_equal',
   'std::plus::plus', 'std::nullopt_t::nullopt_t', 'std::in_place_t::in_place_t', 'absl::hash_internal::MixingHashState::MixingHashState', 'absl::container_internal::StringHash::StringHash', 'absl::container_internal::StringEq::StringEq', 'absl::container_internal::StringHashEq::Eq::Eq')
def _(I, n, fr, t, a):
    return Obj(split_t(t)[0])


@K('std::monostate::monostate')
def _(I, n, fr, t, a):
    return Obj('std::monostate')


@K('absl::Span::Span')
def _(I, n, fr, t, a):
    if not a:
        return View(Vec(split_t(t)[1][0]), 0, 0)
    vs = [I.ev(x, fr) for x in a]
    return view(I, vs)


def view(I, vs):
    v0 = vs[0]
    if isinstance(v0, StrBuf):
        v0 = v0.cell.v
    if isinstance(v0, View):
        return View(v0.vec, v0.off, v0.n) if len(vs) == 1 else View(v0.vec, v0.off, vs[1])
    if isinstance(v0, Vec):
        return View(v0, 0, v0.n if len(vs) == 1 else vs[1])
    if isinstance(v0, Ptr):
        if isinstance(v0.cell, ElemRef):
            return View(v0.cell.vec, v0.cell.i, vs[1])
        if len(vs) == 2:
            return View(Vec('', [v0.cell]), 0, vs[1])
    if isinstance(v0, (str, SStr)):
        n = I.size(v0)
        if isinstance(v0, str):
            b = v0.encode('utf-8', 'surrogateescape')
            return View(Vec('char', [Cell(x) for x in b]), 0, n)
        return View(Vec('char', [], n, lambda i: op('chr', (repr(v0.p), i), -128, 127)), 0, n if len(vs) == 1 else vs[1])
    if v0 is None:
        return View(Vec(''), 0, 0)
    raise Unsupported('span of %r' % (v0,))


@M('absl::MakeSpan', 'absl::MakeConstSpan')
def _(I, n, fr, o, a):
    return view(I, [I.ev(x, fr) for x in a])


@M('absl::Span::subspan', 'absl::Span::first', 'absl::Span::last')
def _(I, n, fr, o, a):
    v = view(I, [obj(I, o, fr)])
    vs = [I.num(I.ev(x, fr)) for x in a if x]
    nm = n[3][1].split('::')[-1]
    if nm == 'first':
        vs = [0, vs[0]]
    elif nm == 'last':
        vs = [sub(v.n, vs[0]), vs[0]]
    pos = vs[0]
    if I.decide(I.rel('>', pos, v.n)):
        I.event('oob', pos, v.n)
        raise Abort('subspan past the end')
    rest = sub(v.n, pos)
    ln = rest
    if len(vs) > 1:
        ln = rest if I.decide(I.rel('<=', rest, vs[1])) else vs[1]
    return View(v.vec, add(v.off, pos), ln)


@M('std::vector::operator[]', 'absl::Span::operator[]', 'std::array::operator[]', 'std::basic_string::operator[]', 'std::vector::at',
   'std::array::at', 'std::basic_string_view::operator[]', 'absl::Span::at', 'std::basic_string::at', 'std::deque::operator[]')
def _(I, n, fr, o, a):
    c = obj(I, o, fr)
    i = I.num(I.ev(a[0], fr))
    return I.at(c, i)


@M('std::vector::front', 'absl::Span::front', 'std::array::front', 'std::basic_string::front', 'std::list::front')
def _(I, n, fr, o, a):
    return I.at(obj(I, o, fr), 0)


@M('std::vector::back', 'absl::Span::back', 'std::array::back', 'std::basic_string::back', 'std::list::back')
def _(I, n, fr, o, a):
    c = obj(I, o, fr)
    return I.at(c, sub(I.size(c), 1))


def norm_vec(I, v):
    """Give the vector a concrete length if it has exactly one."""
    n = I.concrete(v.n)
    if is_num(n):
        v.n = int(n)
        return True
    return False


def vec_of(I, o, fr):
    v = obj(I, o, fr)
    if isinstance(v, View):
        raise Unsupported('growing a span')
    if not isinstance(v, Vec):
        raise Unsupported('vector expected, got %r' % (v,))
    return v


@M('std::vector::push_back', 'std::vector::emplace_back', 'std::list::push_back', 'std::deque::push_back', 'std::list::emplace_back')
def _(I, n, fr, o, a):
    v = vec_of(I, o, fr)
    if n[3][1].endswith('emplace_back') and (len(a) != 1):
        x = emplace(I, v.et, a, fr)
    else:
        x = I.ev(a[0], fr)
        if n[3][1].endswith('emplace_back') and I.rec(v.et) and not isinstance(x, Obj):
            x = emplace(I, v.et, a, fr)
        else:
            x = I.move_from(a[0], x, fr)
            x = coerce(I, x, v.et)
    c = Cell(x)
    if norm_vec(I, v):
        while len(v.items) < v.n:
            v.items.append(None)
        v.items.append(c)
        v.n += 1
    else:
        if v.symidx is None:
            v.symidx = {}
        v.symidx[v.n] = c
        v.n = add(v.n, 1)
    return c


def coerce(I, x, et):
    et = bare(et)
    if isinstance(x, B) or isinstance(x, bool):
        return x
    if I.intty(et) and (isinstance(x, float) or (isinstance(x, T) and x.isf)):
        return I.convert(x, et)
    if I.isflt(et) and is_num(x):
        return I.fcast(float(x), et)
    h = split_t(et)[0]
    if h == 'std::optional' and not isinstance(x, (Opt, Unk)):
        return Opt(1, Cell(x))
    return x


def emplace(I, et, a, fr):
    """Construct an et from argument nodes a."""
    et = bare(et)
    r = I.rec(et)
    vals = [I.lv(x, fr) for x in a if x]
    return construct(I, et, vals)


def construct(I, et, cells):
    et = bare(et)
    r = I.rec(et)
    if r:
        if len(cells) == 1 and isinstance(cells[0].v, Obj) and cells[0].v.cls == r['k']:
            return I.copy(cells[0].v)
        for f in I.methods(r['k'], None):
            if 'ctor ' in f['a'] and 'dtor' not in f['a'] and 'copyctor' not in f['a'] and 'movector' not in f['a'] and len(f['p']) == len(cells) and (f.get('b') is not None) and I.fits(f, cells):
                o = Obj(r['k'])
                I.run_ctor(f, o, [c if p[2].rstrip().endswith('&') else Cell(I.copy(c.v)) for p, c in zip(f['p'], cells)])
                return o
        if not cells:
            return I.construct_default(r)
        # parenthesised aggregate initialisation
        o = Obj(r['k'])
        for f, c in zip(r['fs'], cells):
            o.f[f['n']] = Cell(I.copy(c.v))
        I.init_fields(o, r, o.f)
        return o
    if not cells:
        return I.default(et)
    h, ta = split_t(et)
    vs = [c.v for c in cells]
    if h == 'std::pair' and len(vs) == 2:
        return pair(I.copy(vs[0]), I.copy(vs[1]))
    if h == 'std::vector':
        if len(vs) == 2 and isinstance(vs[0], (It, Ptr)):
            return copy_range(I, ta[0], vs[0], vs[1])
        if is_num(vs[0]) or isinstance(vs[0], T):
            val = vs[1] if len(vs) > 1 else None
            return Vec(ta[0], [], vs[0], (lambda i: I.copy(val)) if len(vs) > 1 else (lambda i: I.default(ta[0])))
    if len(vs) == 1:
        return I.convert(I.copy(vs[0]), et) if (I.intty(et) or I.isflt(et)) else I.copy(vs[0])
    if h in ('std::basic_string', 'std::__cxx11::basic_string'):
        return SStr([('sym', I.name('string'))])
    raise Unsupported('construct ' + et)


def pair(a, b):
    o = Obj('std::pair')
    o.f['first'], o.f['second'] = Cell(a), Cell(b)
    return o


@M('std::list::push_front', 'std::list::emplace_front', 'std::deque::push_front', 'std::deque::emplace_front')
def _(I, n, fr, o, a):
    v = vec_of(I, o, fr)
    if n[3][1].endswith('emplace_front') and len(a) != 1:
        x = emplace(I, v.et, a, fr)
    else:
        x = coerce(I, I.move_from(a[0], I.ev(a[0], fr), fr), v.et)
    if not norm_vec(I, v):
        raise Unsupported('push_front on a list of unknown length')
    for i in range(v.n):
        I.at(v, i)
    v.items.insert(0, Cell(x))
    v.n += 1
    return v.items[0]


@M('std::list::pop_front', 'std::deque::pop_front')
def _(I, n, fr, o, a):
    v = vec_of(I, o, fr)
    if not norm_vec(I, v) or v.n < 1:
        raise Unsupported('pop_front on a list of unknown length')
    for i in range(v.n):
        I.at(v, i)
    del v.items[0]
    v.n -= 1


@M('std::list::splice')
def _(I, n, fr, o, a):
    v, w = vec_of(I, o, fr), obj(I, a[1], fr)
    a = [x for x in a if x]
    pos = I.concrete(I.ev(a[0], fr).i)
    if not isinstance(w, Vec) or not norm_vec(I, v) or not norm_vec(I, w):
        raise Unsupported('splice')
    for u in (v, w):
        for i in range(u.n):
            I.at(u, i)
    i, j = 0, w.n
    if len(a) > 2:
        i = I.concrete(I.ev(a[2], fr).i)
        j = I.concrete(I.ev(a[3], fr).i) if len(a) > 3 else i + 1
    if w is v or not (is_num(pos) and is_num(i) and is_num(j)):
        raise Unsupported('splice')
    moved = w.items[i:j]
    del w.items[i:j]
    w.n = len(w.items)
    v.items[pos:pos] = moved
    v.n = len(v.items)


@M('std::vector::pop_back', 'std::list::pop_back')
def _(I, n, fr, o, a):
    v = vec_of(I, o, fr)
    if norm_vec(I, v) and v.n > 0:
        v.n -= 1
        if len(v.items) > v.n:
            v.items.pop()
    else:
        v.n = sub(v.n, 1)


@M('std::vector::clear', 'std::list::clear', 'absl::container_internal::raw_hash_set::clear', 'std::map::clear', 'std::set::clear', 'absl::flat_hash_map::clear', 'absl::flat_hash_set::clear')
def _(I, n, fr, o, a):
    v = obj(I, o, fr)
    if isinstance(v, MapV):
        v.entries, v.sym, v.n = [], None, None
    else:
        v.items, v.n, v.make, v.symidx = [], 0, None, None


@M('std::vector::resize')
def _(I, n, fr, o, a):
    v = vec_of(I, o, fr)
    new = I.concrete(I.num(I.ev(a[0], fr)))
    val = I.ev(a[1], fr) if len(a) > 1 else None
    et = v.et
    old = I.concrete(v.n)
    omake = v.make
    fill = (lambda i: I.copy(val)) if len(a) > 1 else (lambda i: I.default(et))
    I.event('resize', et, new, n[1])
    if is_num(old):
        old = int(old)
        keep = v.items[:]
        if is_num(new):
            new = int(new)
            while len(v.items) < min(old, new):
                v.items.append(None)
            for i in range(len(v.items)):
                if v.items[i] is None and i < old and omake is not None:
                    v.items[i] = Cell(omake(i))
            del v.items[new:]
            v.make = fill
        else:
            for i in range(len(v.items)):
                if v.items[i] is None and omake is not None:
                    v.items[i] = Cell(omake(i))
            v.make = fill
        v.n = new
        return
    # unknown old length: elements below it keep their (lazy) value
    if is_num(new) and new == 0:
        v.items, v.n, v.make, v.symidx = [], 0, fill, None
        return
    same = I.rel('==', old, new)
    if same is True:
        return
    cells = v.items

    def mk_(i, old=old):
        return omake(i) if (omake and I.decide(I.rel('<', i, old))) else fill(i)
    v.make = mk_
    v.n = new
    if is_num(new):
        del v.items[int(new):]


@M('std::vector::assign')
def _(I, n, fr, o, a):
    v = vec_of(I, o, fr)
    vs = [I.ev(x, fr) for x in a]
    if len(vs) == 1:
        w = vs[0]
        v.items, v.n, v.make, v.symidx = [Cell(I.copy(I.at(w, i).v)) for i in range(w.n)], w.n, None, None
    elif isinstance(vs[0], (It, Ptr, Vec)):
        w = copy_range(I, v.et, I.decay(vs[0]), vs[1])
        v.items, v.n, v.make, v.symidx = w.items, w.n, w.make, None
    else:
        val = vs[1]
        v.items, v.n, v.make, v.symidx = [], I.concrete(vs[0]), (lambda i: I.copy(val)), None


@M('std::vector::insert', 'std::list::insert')
def _(I, n, fr, o, a):
    v = vec_of(I, o, fr)
    pos = I.ev(a[0], fr)
    vs = [I.ev(x, fr) for x in a[1:] if x]
    if len(vs) == 2 and isinstance(vs[0], (It, Ptr)):
        w = copy_range(I, v.et, vs[0], vs[1])
    elif len(vs) == 2:
        k = I.concrete(vs[0])
        if not is_num(k):
            raise Unsupported('vector::insert')
        w = Vec(v.et, [Cell(I.copy(vs[1])) for _ in range(k)])
    elif isinstance(vs[0], Vec) and not split_t(bare(v.et))[0] == 'std::vector':
        w = vs[0]
    else:
        w = Vec(v.et, [Cell(I.copy(vs[0]))])
    at_ = I.concrete(pos.i)
    I.event('insert', v.et, w.n, n[1])
    if norm_vec(I, v) and is_num(at_) and is_num(I.concrete(w.n)):
        for i in range(v.n):
            I.at(v, i)
        ins = [I.at(w, i) for i in range(int(I.concrete(w.n)))]
        v.items[at_:at_] = [Cell(I.copy(c.v)) for c in ins]
        v.n = len(v.items)
        return It(v, at_)
    if is_num(v.n) and v.n == 0:
        v.items, v.n, v.make = [], w.n, (lambda i: I.copy(I.at(w, i).v))
        return It(v, 0)
    if is_num(at_) is False and I.rel('==', at_, v.n) is True or (is_num(v.n) and at_ == v.n):
        old, om, items = v.n, v.make, v.items
        v.n = add(v.n, w.n)
        if is_num(old):
            for i in range(old):
                I.at(v, i)
            v.make = lambda i: I.copy(I.at(w, i - old).v)
            return It(v, old)
    raise Unsupported('vector::insert')


@M('std::vector::erase')
def _(I, n, fr, o, a):
    v = vec_of(I, o, fr)
    vs = [I.ev(x, fr) for x in a]
    i = I.concrete(vs[0].i)
    j = I.concrete(vs[1].i) if len(vs) > 1 else (i + 1 if is_num(i) else None)
    if norm_vec(I, v) and is_num(i) and is_num(j):
        for k in range(v.n):
            I.at(v, k)
        del v.items[i:j]
        v.n = len(v.items)
        v.make = None
        return It(v, i)
    if is_num(i) and i == 0 and j is not None:
        om, items = v.make, v.items
        nn = sub(v.n, j)
        v.n, v.items, v.symidx = nn, [], None
        v.make = (lambda k: om(add(k, j)) if om else I.default(v.et))
        return It(v, 0)
    raise Unsupported('vector::erase')


@M('std::vector::data', 'absl::Span::data', 'std::array::data')
def _(I, n, fr, o, a):
    c = obj(I, o, fr)
    if isinstance(c, View):
        return Ptr(ElemRef(I, c.vec, c.off))
    return Ptr(ElemRef(I, c, 0))


@M('std::vector::capacity')
def _(I, n, fr, o, a):
    v = obj(I, o, fr)
    if is_num(v.n) and not getattr(v, 'grown', False):
        return v.n              # as created
    return var(I.name('capacity'), 0, (1 << 62), unk=True)


def rng_it(I, c, end, rev):
    n = I.size(c)
    if rev:
        return It(c, 0 if end else n, True)
    return It(c, n if end else 0)


for _c in ('std::vector', 'absl::Span', 'std::array', 'std::basic_string', 'std::basic_string_view', 'std::initializer_list', 'std::list', 'std::deque'):
    for _nm, _e, _r in (('begin', 0, 0), ('end', 1, 0), ('cbegin', 0, 0), ('cend', 1, 0), ('rbegin', 0, 1), ('rend', 1, 1), ('crbegin', 0, 1), ('crend', 1, 1)):
        def _mk2(e, r):
            def f(I, n, fr, o, a):
                return rng_it(I, obj(I, o, fr), e, r)
            return f
        MODELS['%s::%s' % (_c, _nm)] = _mk2(_e, _r)


@M('std::begin', 'std::end', 'std::cbegin', 'std::cend')
def _(I, n, fr, o, a):
    return rng_it(I, I.ev(a[0], fr), n[3][1].endswith('end'), False)


@K('__gnu_cxx::__normal_iterator::__normal_iterator', 'std::reverse_iterator::reverse_iterator', 'absl::container_internal::raw_hash_set::iterator::iterator', 'absl::container_internal::raw_hash_set::const_iterator::const_iterator', 'std::_Rb_tree_const_iterator::_Rb_tree_const_iterator', 'std::_List_const_iterator::_List_const_iterator')
def _(I, n, fr, t, a):
    return I.ev(a[0], fr) if a else It(Vec(''), 0)


def itdelta(it):
    return -1 if it.rev else 1


@M('__gnu_cxx::__normal_iterator::operator*', 'std::reverse_iterator::operator*', 'std::_Rb_tree_const_iterator::operator*', 'std::_Rb_tree_iterator::operator*', 'std::_List_iterator::operator*', 'std::_List_const_iterator::operator*',
   'absl::container_internal::raw_hash_set::iterator::operator*', 'absl::container_internal::raw_hash_set::const_iterator::operator*')
def _(I, n, fr, o, a):
    v = I.ev(o, fr)
    return it_deref(I, v, n)


def it_deref(I, v, n):
    if isinstance(v, It):
        return I.at(v.c, v.i if not v.rev else sub(v.i, 1))
    if isinstance(v, MIt):
        if v.e is None:
            I.event('enditer', n[1])
            raise Abort('dereference of end() at line %d' % n[1])
        return v.e if isinstance(v.e, Cell) else Cell(v.e)
    return I.deref(v, n)


@M('__gnu_cxx::__normal_iterator::operator->', 'std::reverse_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->', 'std::_Rb_tree_iterator::operator->',
   'absl::container_internal::raw_hash_set::iterator::operator->', 'absl::container_internal::raw_hash_set::const_iterator::operator->', 'std::_List_const_iterator::operator->', 'std::_List_iterator::operator->')
def _(I, n, fr, o, a):
    return Ptr(it_deref(I, I.ev(o, fr), n))


@M('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--', 'std::reverse_iterator::operator++', 'std::_List_iterator::operator++', 'std::_List_const_iterator::operator++', 'std::reverse_iterator::operator--', 'std::_List_iterator::operator--', 'std::_List_const_iterator::operator--')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    old = c.v
    d = 1 if n[3][1].endswith('++') else -1
    c.v = It(old.c, add(old.i, d * itdelta(old)), old.rev)
    return old if a else c


@M('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-', '__gnu_cxx::operator+', '__gnu_cxx::operator-', 'std::operator-')
def _(I, n, fr, o, a):
    vs = ([I.ev(o, fr)] if o is not None else []) + [I.num(I.ev(x, fr)) if False else I.ev(x, fr) for x in a]
    return I.ptr_arith(n[3][1][-1], vs[0], vs[1])


@M('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    c.v = I.ptr_arith(n[3][1][-2], c.v, I.ev(a[0], fr))
    return c


def cmp_model(sym):
    def f(I, n, fr, o, a):
        vs = ([I.ev(o, fr)] if o is not None else []) + [I.ev(x, fr) for x in a]
        x, y = vs[0], vs[1]
        if isinstance(x, Ptr) and not isinstance(y, Ptr) and y is not None:
            x = x.cell.v
        if isinstance(y, Obj) and y.cls == 'std::nullopt_t' and isinstance(x, Opt):
            r = I.rel('==', x.has, 0)
            return r if sym == '==' else ((not r) if isinstance(r, bool) else ~r)
        if isinstance(x, Opt) and not isinstance(y, Opt):
            if not I.decide(x.has):
                return sym == '!='
            x = x.cell.v
        elif isinstance(y, Opt) and not isinstance(x, Opt):
            if not I.decide(y.has):
                return sym == '!='
            y = y.cell.v
        return I.rel(sym, x, y)
    return f


for _s in ('==', '!=', '<', '>', '<=', '>='):
    for _ns in ('std::operator', '__gnu_cxx::operator', 'absl::container_internal::operator', 'absl::operator', 'std::rel_ops::operator', 'std::__detail::operator'):
        MODELS[_ns + _s] = cmp_model(_s)


@M('std::distance')
def _(I, n, fr, o, a):
    x, y = [I.ev(v, fr) for v in a]
    return I.ptr_arith('-', y, x)


@M('std::next', 'std::prev')
def _(I, n, fr, o, a):
    x = I.ev(a[0], fr)
    k = I.ev(a[1], fr) if len(a) > 1 and a[1] else 1
    return I.ptr_arith('+' if n[3][1].endswith('next') else '-', x, k)


@M('std::advance')
def _(I, n, fr, o, a):
    c = I.lv(a[0], fr)
    c.v = I.ptr_arith('+', c.v, I.ev(a[1], fr))


# ---- maps and sets ----------------------------------------------------------------------------------
MAPS = ('absl::container_internal::raw_hash_set', 'absl::container_internal::raw_hash_map', 'absl::flat_hash_map', 'absl::flat_hash_set', 'std::map', 'std::set', 'std::unordered_map', 'std::unordered_set',
        'absl::container_internal::btree_container', 'absl::container_internal::btree_map_container', 'absl::container_internal::btree_set_container', 'absl::btree_map', 'absl::btree_set')


def mkmap(I, n, fr, t, a):
    a = [x for x in a if x]
    m = I.default(t)
    if not isinstance(m, MapV):
        raise Unsupported('map type ' + t)
    a = [x for x in a if not (x[0] == 'ctor' and x[3] and ('Hash' in x[3][1] or 'equal_to' in x[3][1] or 'allocator' in x[3][1] or 'Eq' in x[3][1] or 'less' in x[3][1]))]
    if not a:
        return m
    vs = [I.ev(x, fr) for x in a]
    if len(vs) >= 2 and isinstance(vs[0], It):
        src = copy_range(I, '', vs[0], vs[1])
    elif isinstance(vs[0], Vec):
        src = vs[0]
    elif isinstance(vs[0], MapV):
        return I.copy(vs[0])
    elif is_num(vs[0]):
        return m
    else:
        raise Unsupported('map constructor')
    cnt = I.concrete(src.n)
    if not is_num(cnt):
        raise Unsupported('map from a range of unknown length')
    for i in range(cnt):
        v = I.at(src, i).v
        if m.isset:
            map_put(I, m, v, None)
        else:
            map_put(I, m, v.f['first'].v, v.f['second'].v)
    return m


for _m in ('absl::node_hash_map::node_hash_map', 'absl::node_hash_map::raw_hash_map', 'absl::flat_hash_map::flat_hash_map', 'absl::flat_hash_set::flat_hash_set', 'std::map::map', 'std::set::set', 'absl::flat_hash_map::raw_hash_set',
           'absl::flat_hash_set::raw_hash_set', 'std::unordered_map::unordered_map', 'std::unordered_set::unordered_set', 'absl::btree_map::btree_map',
           'absl::btree_set::btree_set', 'absl::btree_map::btree_container', 'absl::flat_hash_map::raw_hash_map', 'absl::container_internal::raw_hash_map::raw_hash_map', 'absl::container_internal::raw_hash_set::raw_hash_set'):
    K(_m)(mkmap)


def map_key(I, m, k):
    """A number as the key type of the container stores it."""
    return I.convert(k, m.kt) if m.kt and (is_num(k) or isinstance(k, T)) and I.intty(m.kt) else k


def map_find(I, m, k):
    """Entry (key, cell) or None."""
    k = map_key(I, m, k)
    for e in m.entries:
        s = I.same(e[0], k)
        if s is None:
            s = I.choose('key')
        if I.decide(s):
            return e if e[1] is not ABSENT else None
    if m.sym is not None:
        nm = '%s{%s}' % (m.sym, show(k) if isinstance(k, (T, int, float)) else repr(k))
        if I.decide(B('eq', var(nm + '.in', 0, 1), 1)):
            e = (k, Cell(k) if m.isset else Cell(pair(k, I.fresh(m.vt, nm))))
            m.entries.append(e)
            return e
        m.entries.append((k, ABSENT))
    return None


ABSENT = Cell('absent')


def map_put(I, m, k, v, overwrite=False):
    """(entry, inserted)"""
    k = map_key(I, m, k)
    if not m.isset and m.vt and (is_num(v) or isinstance(v, T)) and I.intty(m.vt):
        v = I.convert(v, m.vt)
    e = map_find(I, m, k)
    if e is not None:
        if overwrite:
            e[1].v.f['second'].v = v
        return e, False
    m.entries = [x for x in m.entries if not (x[1] is ABSENT and x[0] is k)]
    e = (k, Cell(k) if m.isset else Cell(pair(k, v)))
    if m.sym is not None:
        m.n = add(I.map_size(m), 1)
        m.entries.insert(0, e)
    else:
        m.entries.append(e)
    return e, True


def mapobj(I, o, fr):
    m = obj(I, o, fr)
    if not isinstance(m, MapV):
        raise Unsupported('map expected, got %r' % (m,))
    return m


def mm(*names):
    return M(*['%s::%s' % (c, x) for c in MAPS for x in names])


@mm('find')
def _(I, n, fr, o, a):
    m = mapobj(I, o, fr)
    e = map_find(I, m, I.ev(a[0], fr))
    return MIt(m, e[1] if e else None)


@mm('end', 'cend')
def _(I, n, fr, o, a):
    return MIt(mapobj(I, o, fr), None)


@mm('begin', 'cbegin')
def _(I, n, fr, o, a):
    m = mapobj(I, o, fr)
    if m.sym is not None:
        if I.decide(I.rel('==', I.map_size(m), 0)):
            return MIt(m, None)
        e = (Unk(m.kt, m.sym + '.first'), Cell(I.fresh(m.kt, m.sym + '.firstkey')) if m.isset else Cell(pair(I.fresh(m.kt, m.sym + '.firstkey'), I.fresh(m.vt, m.sym + '.firstval'))))
        return MIt(m, e[1], 0)
    if not m.entries:
        return MIt(m, None)
    es = m.entries
    if m.ordered:
        es = sorted(es, key=lambda e: I.sortkey(e[0]))
    elif len(es) > 1:
        if I.hash_order is None:
            raise Unsupported('begin() of an unordered map')
        if I.hash_order:
            es = es[::-1]
    return MIt(m, es[0][1], 0)


@mm('contains')
def _(I, n, fr, o, a):
    return map_find(I, mapobj(I, o, fr), I.ev(a[0], fr)) is not None


@mm('count')
def _(I, n, fr, o, a):
    return 1 if map_find(I, mapobj(I, o, fr), I.ev(a[0], fr)) is not None else 0


@mm('at')
def _(I, n, fr, o, a):
    m = mapobj(I, o, fr)
    e = map_find(I, m, I.ev(a[0], fr))
    if e is None:
        I.event('enditer', n[1])
        raise Abort('at() of an absent key at line %d' % n[1])
    return e[1].v.f['second']


@mm('operator[]')
def _(I, n, fr, o, a):
    m = mapobj(I, o, fr)
    k = I.ev(a[0], fr)
    e = map_find(I, m, k)
    if e is None:
        e, _ = map_put(I, m, k, I.default(m.vt))
    return e[1].v.f['second']


@mm('insert', 'emplace', 'try_emplace')
def _(I, n, fr, o, a):
    m = mapobj(I, o, fr)
    vs = [I.ev(x, fr) for x in a if x]
    nm = n[3][1].split('::')[-1]
    if len(vs) == 2 and isinstance(vs[0], (It,)):
        src = copy_range(I, '', vs[0], vs[1])
        for i in range(src.n):
            v = I.at(src, i).v
            map_put(I, m, v if m.isset else v.f['first'].v, None if m.isset else v.f['second'].v)
        return None
    if len(vs) == 2 and isinstance(vs[0], MIt):
        for k, c in vs[0].m.entries:
            map_put(I, m, k, None if m.isset else I.copy(c.v.f['second'].v))
        return None
    if m.isset:
        e, ins = map_put(I, m, I.copy(vs[0]), None)
    elif nm == 'insert' and len(vs) == 1:
        v = vs[0]
        if isinstance(v, Vec):
            for i in range(v.n):
                x = I.at(v, i).v
                map_put(I, m, x.f['first'].v, x.f['second'].v)
            return None
        e, ins = map_put(I, m, v.f['first'].v, I.copy(v.f['second'].v))
    else:
        k = vs[0]
        rest = a[1:]
        if len(vs) == 2:
            v = I.move_from(a[1], vs[1], fr)
            if I.rec(m.vt) and not isinstance(v, Obj):
                v = construct(I, m.vt, [Cell(vs[1])])
        else:
            v = construct(I, m.vt, [Cell(x) for x in vs[1:]])
        e, ins = map_put(I, m, I.copy(k), v)
    return pair(MIt(m, e[1]), 1 if ins else 0)


@mm('insert_or_assign')
def _(I, n, fr, o, a):
    m = mapobj(I, o, fr)
    k, v = I.ev(a[0], fr), I.ev(a[1], fr)
    e, ins = map_put(I, m, I.copy(k), I.copy(v), True)
    return pair(MIt(m, e[1]), 1 if ins else 0)


@mm('erase')
def _(I, n, fr, o, a):
    m = mapobj(I, o, fr)
    k = I.ev(a[0], fr)
    if isinstance(k, MIt):
        m.entries = [e for e in m.entries if e[1] is not k.e]
        return MIt(m, None)
    e = map_find(I, m, k)
    if e is not None:
        m.entries = [x for x in m.entries if x is not e]
        if m.sym is not None:
            m.entries.append((k, ABSENT))
            m.n = sub(I.map_size(m), 1)
        return 1
    return 0


# ---- optional, variant, pair, tuple, pointers ---------------------------------------------------------
@K('std::optional::optional')
def _(I, n, fr, t, a):
    if not a:
        return Opt(0)
    v = I.ev(a[0], fr)
    if isinstance(v, Obj) and v.cls == 'std::nullopt_t':
        return Opt(0)
    if isinstance(v, Opt):
        return v
    if len(a) > 1:
        raise Unsupported('optional in_place')
    et = split_t(t)[1][0]
    return Opt(1, Cell(coerce(I, I.move_from(a[0], v, fr), et)))


@M('std::make_optional')
def _(I, n, fr, o, a):
    return Opt(1, Cell(I.copy(I.ev(a[0], fr))))


@M('std::optional::has_value', 'std::optional::operator bool')
def _(I, n, fr, o, a):
    v = obj(I, o, fr)
    if isinstance(v, Opt):
        return v.has if not is_num(v.has) else v.has != 0
    return Unk('bool', I.name('opt'))


def opt_cell(I, v, n):
    if isinstance(v, Unk):
        return Cell(Unk(None, v.name + '*'))
    if not isinstance(v, Opt):
        raise Unsupported('optional expected, got %r' % (v,))
    if not I.decide(v.has):
        I.event('badoptional', n[1])
        raise Abort('value of an empty optional at line %d' % n[1])
    return v.cell


@M('std::optional::operator*', 'std::optional::value')
def _(I, n, fr, o, a):
    return opt_cell(I, obj(I, o, fr), n)


@M('std::optional::operator->')
def _(I, n, fr, o, a):
    return Ptr(opt_cell(I, obj(I, o, fr), n))


@M('std::optional::value_or')
def _(I, n, fr, o, a):
    v = obj(I, o, fr)
    d = I.ev(a[0], fr)
    if isinstance(v, Unk):
        return I.fresh(n[2], I.name('value_or'), unk=True)
    return v.cell.v if I.decide(v.has) else d


@M('std::optional::reset')
def _(I, n, fr, o, a):
    I.lv(o, fr).v = Opt(0)


@M('std::optional::emplace')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    et = split_t(bare(ir.typ(o)))[1][0]
    c.v = Opt(1, Cell(emplace(I, et, a, fr)))
    return c.v.cell


@M('std::optional::operator=')
def _(I, n, fr, o, a):
    v = I.ev(a[0], fr)
    c = I.lv(o, fr)
    if isinstance(v, Obj) and v.cls == 'std::nullopt_t':
        c.v = Opt(0)
    elif isinstance(v, Opt):
        c.v = I.copy(v)
    else:
        c.v = Opt(1, Cell(I.move_from(a[0], v, fr)))
    return c


def alts_of(t):
    return split_t(bare(t))[1]


@K('std::variant::variant')
def _(I, n, fr, t, a):
    al = alts_of(t)
    if not a:
        return Variant(al, 0, Cell(I.default(al[0])))
    v = I.ev(a[0], fr)
    if isinstance(v, Variant):
        return v
    i = pick_alt(I, al, v, ir.typ(a[0]))
    return Variant(al, i, Cell(I.move_from(a[0], v, fr)))


def pick_alt(I, al, v, t):
    t = bare(t)
    for i, x in enumerate(al):
        if bare(x) == t:
            return i
    if isinstance(v, Obj):
        for i, x in enumerate(al):
            r = I.rec(x)
            if (r and r['k'] == v.cls) or bare(x) == v.cls:
                return i
    for i, x in enumerate(al):
        h = split_t(bare(x))[0]
        if isinstance(v, (str, SStr)) and 'basic_string' in h:
            return i
        if isinstance(v, Vec) and h == 'std::vector':
            return i
        if (is_num(v) or isinstance(v, T)) and (I.intty(x) or I.isflt(x)):
            return i
    raise Unsupported('variant alternative for %s' % t)


@M('std::variant::operator=')
def _(I, n, fr, o, a):
    v = I.ev(a[0], fr)
    c = I.lv(o, fr)
    if isinstance(v, Variant):
        c.v = I.copy(v)
        return c
    al = c.v.alts if isinstance(c.v, Variant) else alts_of(ir.typ(o))
    c.v = Variant(al, pick_alt(I, al, v, ir.typ(a[0])), Cell(I.move_from(a[0], v, fr)))
    return c


@M('std::variant::emplace')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    al = c.v.alts
    t = bare(n[2])
    i = None
    for j, x in enumerate(al):
        if bare(x) == t or (I.rec(x) and I.rec(t) and I.rec(x)['k'] == I.rec(t)['k']):
            i = j
    if i is None:
        raise Unsupported('variant emplace')
    c.v = Variant(al, i, Cell(emplace(I, al[i], a, fr)))
    return c.v.cell


@M('std::variant::index')
def _(I, n, fr, o, a):
    return obj(I, o, fr).idx


def targ_of(n):
    """First template argument of a call like std::holds_alternative<T>(..) from its key."""
    k = n[3][0]
    i = k.find('<')
    h, a = split_t(k[:k.rfind('(')] if False else k)
    return a[0] if a else None


@M('std::holds_alternative')
def _(I, n, fr, o, a):
    v = I.ev(a[0], fr)
    if not isinstance(v, Variant):
        raise Unsupported('variant expected')
    t = bare(targ_of(n))
    for i, x in enumerate(v.alts):
        if bare(x) == t:
            r = I.rel('==', v.idx, i)
            if I.decide(r):
                I.alt_of(v)
                return True
            return False
    raise Unsupported('holds_alternative')


@M('std::get', 'std::get_if')
def _(I, n, fr, o, a):
    v = I.ev(a[0], fr)
    isif = n[3][1].endswith('get_if')
    if isinstance(v, Ptr):
        v = v.cell.v
    t = targ_of(n)
    if isinstance(v, Variant):
        if t.rstrip('UL').isdigit():
            want = int(t.rstrip('UL'))
        else:
            want = None
            for i, x in enumerate(v.alts):
                if bare(x) == bare(t):
                    want = i
            if want is None:
                raise Unsupported('std::get')
        if I.decide(I.rel('==', v.idx, want)):
            I.alt_of(v)
            return Ptr(v.cell) if isif else v.cell
        if isif:
            return None
        I.event('badvariant', n[1])
        raise Abort('std::get of another alternative at line %d' % n[1])
    if isinstance(v, Obj) and t is not None and t.rstrip('UL').isdigit():
        return I.bind_elem(v, int(t.rstrip('UL')))
    if isinstance(v, (Vec, View)) and t.rstrip('UL').isdigit():
        return I.at(v, int(t.rstrip('UL')))
    raise Unsupported('std::get on %r' % (v,))


@M('std::visit', 'absl::visit')
def _(I, n, fr, o, a):
    f = I.ev(a[0], fr)
    v = I.ev(a[1], fr)
    if len(a) != 2 or not isinstance(v, Variant):
        raise Unsupported('visit')
    I.alt_of(v)
    return I.invoke(f, [v.cell], n)


@K('std::pair::pair')
def _(I, n, fr, t, a):
    if not a:
        return I.default(t)
    if len(a) == 1:
        v = I.ev(a[0], fr)
        return I.copy(v)
    ta = split_t(t)[1]
    vs = [I.move_from(x, I.ev(x, fr), fr) for x in a]
    return pair(coerce(I, vs[0], ta[0]) if ta else vs[0], coerce(I, vs[1], ta[1]) if ta else vs[1])


@M('std::make_pair')
def _(I, n, fr, o, a):
    vs = [I.copy(I.ev(x, fr)) for x in a]
    return pair(*vs)


@M('std::make_tuple', 'std::tie', 'std::forward_as_tuple')
def _(I, n, fr, o, a):
    t = Obj('std::tuple')
    for i, x in enumerate(a):
        t.f[str(i)] = I.lv(x, fr)
    return t


@K('std::tuple::tuple')
def _(I, n, fr, t, a):
    x = Obj('std::tuple')
    ta = split_t(t)[1]
    for i, y in enumerate(ta):
        x.f[str(i)] = Cell(I.copy(I.ev(a[i], fr))) if i < len(a) else Cell(I.default(y))
    return x


@K('std::unique_ptr::unique_ptr', 'std::shared_ptr::shared_ptr')
def _(I, n, fr, t, a):
    if not a:
        return None
    v = I.ev(a[0], fr)
    if n[5] & 2 or (a[0][0] == 'call' and a[0][3] and a[0][3][1] == 'std::move'):
        return I.move_from(a[0], v, fr)
    return v


@M('std::make_unique', 'std::make_shared')
def _(I, n, fr, o, a):
    t = split_t(bare(n[2]))[1][0]
    import re
    if t.endswith('[]'):
        et = t[:-2]
        k = I.ev(a[0], fr)
        return Ptr(ElemRef(I, Vec(et, [], k, lambda i: I.default(et)), 0))
    return Ptr(Cell(emplace(I, t, a, fr)))


@M('absl::WrapUnique')
def _(I, n, fr, o, a):
    return I.ev(a[0], fr)


@M('std::unique_ptr::operator->', 'std::unique_ptr::get', 'std::shared_ptr::operator->', 'std::shared_ptr::get')
def _(I, n, fr, o, a):
    return I.ev(o, fr)


@M('std::unique_ptr::operator*', 'std::shared_ptr::operator*')
def _(I, n, fr, o, a):
    return I.deref(I.ev(o, fr), n)


@M('std::unique_ptr::operator bool', 'std::shared_ptr::operator bool')
def _(I, n, fr, o, a):
    v = I.ev(o, fr)
    if isinstance(v, Unk):
        return v
    return v is not None


@M('std::unique_ptr::operator=', 'std::shared_ptr::operator=')
def _(I, n, fr, o, a):
    v = I.ev(a[0], fr)
    v = I.move_from(a[0], v, fr)
    c = I.lv(o, fr)
    c.v = v
    return c


@M('std::unique_ptr::reset', 'std::shared_ptr::reset')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    c.v = I.ev(a[0], fr) if a and a[0] else None


@M('std::unique_ptr::release')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    v = c.v
    c.v = None
    return v


@M('std::unique_ptr::operator[]')
def _(I, n, fr, o, a):
    return I.at(I.ev(o, fr), I.num(I.ev(a[0], fr)))


# ---- functions --------------------------------------------------------------------------------------
@K('absl::AnyInvocable::AnyInvocable', 'std::function::function', 'absl::FunctionRef::FunctionRef', 'absl::AnyInvocable::Impl', 'std::reference_wrapper::reference_wrapper')
def _(I, n, fr, t, a):
    if not a:
        return None
    return I.ev(a[0], fr)


@M('absl::internal_any_invocable::Impl::operator()', 'std::function::operator()', 'absl::FunctionRef::operator()', 'std::invoke')
def _(I, n, fr, o, a):
    fv = I.ev(o, fr) if o is not None else I.ev(a[0], fr)
    return I.invoke(fv, [I.lv(x, fr) for x in (a if o is not None else a[1:])], n)


@M('std::function::operator bool', 'absl::internal_any_invocable::CoreImpl::HasValue')
def _(I, n, fr, o, a):
    v = I.ev(o, fr)
    return v is not None


for _nm, _o in (('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>='), ('equal_to', '=='), ('not_equal_to', '!=')):
    def _mk3(s):
        def f(I, n, fr, o, a):
            x, y = [I.ev(v, fr) for v in a]
            return I.rel(s, x, y)
        return f
    MODELS['std::%s::operator()' % _nm] = _mk3(_o)


# ---- utilities --------------------------------------------------------------------------------------
@M('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::reference_wrapper::get', 'std::reference_wrapper::operator const type &', 'std::move_if_noexcept', 'std::addressof')
def _(I, n, fr, o, a):
    if n[3][1] == 'std::addressof':
        return Ptr(I.lv(a[0], fr))
    if len(a) == 3:
        return m_copy(I, n, fr, o, a)
    return I.lv(a[0], fr) if a else I.lv(o, fr)


@M('std::__addressof')
def _(I, n, fr, o, a):
    return Ptr(I.lv(a[0], fr))


@M('std::swap')
def _(I, n, fr, o, a):
    x, y = I.lv(a[0], fr), I.lv(a[1], fr)
    x.v, y.v = y.v, x.v


@M('std::exchange')
def _(I, n, fr, o, a):
    c = I.lv(a[0], fr)
    v = c.v
    c.v = I.ev(a[1], fr)
    return v


def m_assign(I, n, fr, o, a):
    """Copy or move assignment of a class object without a user-provided operator."""
    v = I.ev(a[0], fr)
    c = I.lv(o, fr)
    if isinstance(v, Ptr) and split_t(bare(n[2]))[0] in ('std::unique_ptr', 'std::shared_ptr'):
        c.v = I.move_from(a[0], v, fr)
        return c
    old = c.v
    new = I.copy(v)
    if isinstance(old, Obj) and isinstance(new, Obj):
        old.f, old.sym, old.cls, old.refs = new.f, new.sym, new.cls if new.cls == old.cls or not old.f else old.cls, new.refs
    elif isinstance(old, Vec) and isinstance(new, Vec):
        old.items, old.n, old.make, old.symidx = new.items, new.n, new.make, new.symidx
    elif isinstance(old, MapV) and isinstance(new, MapV):
        old.entries, old.sym, old.n = new.entries, new.sym, new.n
    else:
        c.v = new
    return c


@M('absl::Status::operator=', 'absl::StatusOr::operator=', 'std::vector::operator=', 'std::pair::operator=', 'absl::Span::operator=', 'std::array::operator=', 'std::map::operator=', 'absl::flat_hash_map::operator=', 'absl::node_hash_map::operator=', 'absl::flat_hash_set::operator=', 'std::tuple::operator=', '__gnu_cxx::__normal_iterator::operator=')
def _(I, n, fr, o, a):
    v = I.ev(a[0], fr)
    if isinstance(v, StatusV) or isinstance(v, SOr):
        c = I.lv(o, fr)
        if isinstance(c.v, SOr) and isinstance(v, StatusV):
            v = SOr(v, None)
        c.v = v
        return c
    if n[3][1].startswith('absl::StatusOr'):
        c = I.lv(o, fr)
        c.v = SOr(StatusV(True), Cell(I.move_from(a[0], v, fr)))
        return c
    c = I.lv(o, fr)
    if isinstance(c.v, Obj) and c.v.cls == 'std::tuple' and isinstance(v, Obj):
        for k, x in c.v.f.items():
            x.v = v.f[k].v if k in v.f else v.f[('first', 'second')[int(k)]].v
        return c
    new = I.move_from(a[0], v, fr) if isinstance(v, (Vec,)) else I.copy(v)
    if isinstance(c.v, Vec) and isinstance(new, Vec):
        c.v.items, c.v.n, c.v.make, c.v.symidx = new.items, new.n, new.make, new.symidx
    elif isinstance(c.v, Obj) and isinstance(new, Obj):
        c.v.f, c.v.sym = new.f, new.sym
    else:
        c.v = new
    return c


@M('absl::NoDestructor::operator->', 'absl::NoDestructor::operator*', 'absl::NoDestructor::get')
def _(I, n, fr, o, a):
    v = I.ev(o, fr)
    if isinstance(v, Ptr):
        v = v.cell.v
    return Ptr(Cell(v)) if not n[3][1].endswith('operator*') else Cell(v)


@K('absl::NoDestructor::NoDestructor')
def _(I, n, fr, t, a):
    et = split_t(t)[1][0]
    if not a:
        return I.default(et)
    if len(a) == 1:
        return I.ev(a[0], fr)
    return emplace(I, et, a, fr)


@M('std::to_array')
def _(I, n, fr, o, a):
    return I.copy(I.ev(a[0], fr))


@M('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::numeric_limits::infinity', 'std::numeric_limits::epsilon', 'std::numeric_limits::quiet_NaN')
def _(I, n, fr, o, a):
    bs = I.intty(n[2])
    w = n[3][1].split('::')[-1]
    if bs:
        return I.rngty(bs)[1 if w == 'max' else 0]
    f = bare(n[2]) == 'float'
    return {'max': 3.4028234663852886e38 if f else 1.7976931348623157e308, 'lowest': -3.4028234663852886e38 if f else -1.7976931348623157e308,
            'min': 1.1754943508222875e-38 if f else 2.2250738585072014e-308, 'infinity': INF, 'epsilon': 1.1920928955078125e-07 if f else 2.220446049250313e-16, 'quiet_NaN': math.nan}[w]


@M('std::min', 'std::max')
def _(I, n, fr, o, a):
    if len(a) == 1:
        c = I.ev(a[0], fr)
        cells = [I.at(c, i) for i in range(c.n)]
    else:
        cells = [I.lv(a[0], fr), I.lv(a[1], fr)]
        if len(a) > 2 and a[2]:
            raise Unsupported('min with comparator')
    mx = n[3][1].endswith('max')
    r = cells[0]
    for c in cells[1:]:
        x, y = (r.v, c.v) if mx else (c.v, r.v)
        if I.decide(I.rel('<', x, y)):
            r = c
    return r


@M('std::clamp')
def _(I, n, fr, o, a):
    v, lo, hi = [I.lv(x, fr) for x in a[:3]]
    if I.decide(I.rel('<', v.v, lo.v)):
        return lo
    if I.decide(I.rel('<', hi.v, v.v)):
        return hi
    return v


@M('std::abs', 'abs', 'fabs', 'std::fabs', 'std::labs')
def _(I, n, fr, o, a):
    v = I.num(I.ev(a[0], fr))
    if is_num(v):
        return abs(v)
    return v if I.decide(I.rel('>=', v, 0)) else neg(v)


@M('std::isnan', 'isnan', '__builtin_isnan')
def _(I, n, fr, o, a):
    v = I.num(I.ev(a[0], fr), 'double')
    if is_num(v):
        return v != v
    out = False
    for x in parts(v)[0]:
        if x.isf and x.nan and I.decide(B('nan', x, 0)):
            out = True
    return out


@M('std::isinf', 'isinf', '__builtin_isinf')
def _(I, n, fr, o, a):
    v = I.num(I.ev(a[0], fr), 'double')
    if is_num(v):
        return abs(v) == INF
    if I.decide(I.rel('==', v, INF)):
        return True
    return I.decide(I.rel('==', v, -INF))


@M('std::isfinite', 'isfinite')
def _(I, n, fr, o, a):
    v = I.num(I.ev(a[0], fr), 'double')
    if is_num(v):
        return v == v and abs(v) != INF
    for x in parts(v)[0]:
        if x.isf and x.nan and I.decide(B('nan', x, 0)):
            return False
    return not (I.decide(I.rel('==', v, INF)) or I.decide(I.rel('==', v, -INF)))


def _mathfn(names, f, isint=False):
    def g(I, n, fr, o, a):
        vs = [I.num(I.ev(x, fr), 'double') for x in a]
        if all(is_num(v) for v in vs):
            try:
                r = f(*vs)
                return I.fcast(float(r), n[2])
            except (ValueError, OverflowError):
                return math.nan
        lo, hi = -INF, INF
        if names[0] == 'sqrt':
            lo = 0
        if names[0] in ('sin', 'cos'):
            lo, hi = -1.0, 1.0
        if names[0] in ('floor', 'ceil', 'round', 'trunc') and len(vs) == 1:
            l, h = I.facts.rng(vs[0])
            lo, hi = (f(l) if abs(l) < INF else l), (f(h) if abs(h) < INF else h)
        return op('f_' + names[0], vs, lo, hi, True)
    for x in names:
        MODELS[x] = g
        MODELS['std::' + x] = g


_mathfn(['sqrt', 'sqrtf'], math.sqrt)
_mathfn(['floor', 'floorf'], math.floor)
_mathfn(['ceil', 'ceilf'], math.ceil)
_mathfn(['round', 'lround', 'llround'], lambda x: math.floor(x + 0.5) if x >= 0 else math.ceil(x - 0.5))
_mathfn(['trunc'], math.trunc)
_mathfn(['pow', 'powf'], math.pow)
_mathfn(['exp'], math.exp)
_mathfn(['log'], math.log)
_mathfn(['log10'], math.log10)
_mathfn(['log2'], math.log2)
_mathfn(['sin'], math.sin)
_mathfn(['cos'], math.cos)
_mathfn(['tan'], math.tan)
_mathfn(['atan2'], math.atan2)
_mathfn(['fmod'], math.fmod)
_mathfn(['hypot'], math.hypot)


def m_copy(I, n, fr, o, a):
    b, e, d = [I.ev(x, fr) for x in a]
    src = copy_range(I, '', b, e)
    cnt = I.concrete(src.n)
    if isinstance(d, Obj) and d.cls == 'back_inserter':
        v = d.f['c'].v
        if is_num(cnt) and norm_vec(I, v):
            for i in range(v.n):
                I.at(v, i)
            for i in range(cnt):
                v.items.append(Cell(I.at(src, i).v))
            v.n += cnt
            return d
        raise Unsupported('copy')
    if is_num(cnt):
        for i in range(cnt):
            if isinstance(d, It):
                I.at(d.c, add(d.i, i)).v = I.at(src, i).v
            elif isinstance(d, Ptr):
                I.at(d, i).v = I.at(src, i).v
            else:
                raise Unsupported('copy')
        return I.ptr_arith('+', d, cnt)
    if isinstance(d, It) and is_num(I.concrete(d.i)) and I.concrete(d.i) == 0 and isinstance(d.c, (Vec, View)):
        v = d.c if isinstance(d.c, Vec) else d.c.vec
        if isinstance(d.c, View) and not (is_num(d.c.off) and d.c.off == 0):
            raise Unsupported('copy')
        r = I.rel('==', v.n, cnt)
        if r is True or I.decide(r):
            v.items, v.make, v.symidx = [], src.make, None
            return It(v, cnt)
    raise Unsupported('copy of unknown length')


M('std::copy')(m_copy)


@M('std::back_inserter')
def _(I, n, fr, o, a):
    x = Obj('back_inserter')
    x.f['c'] = I.lv(a[0], fr)
    return x


def span_of_range(I, b, e):
    return copy_cells(I, b, e)


def copy_cells(I, b, e):
    b = I.decay(b)
    if isinstance(b, It):
        c, i, n = b.c, b.i, I.concrete(sub(e.i, b.i) if not b.rev else sub(b.i, e.i))
        if not is_num(n):
            return None
        return [I.at(c, add(i, k) if not b.rev else sub(i, k + 1)) for k in range(n)]
    if isinstance(b, Ptr) and isinstance(b.cell, ElemRef):
        n = I.concrete(sub(e.cell.i, b.cell.i))
        return [I.at(b.cell.vec, add(b.cell.i, k)) for k in range(n)] if is_num(n) else None
    return None


def sym_cells(I, n, b, e, what):
    """Cells of a range; of unknown length: iterate up to K undecided steps."""
    cs = copy_cells(I, b, e)
    if cs is not None:
        for c in cs:
            yield c
        return
    if not isinstance(b, It):
        raise Unsupported(what)
    ln = sub(e.i, b.i) if not b.rev else sub(b.i, e.i)
    k = 0
    while True:
        if not I.decide(I.rel('<', k, ln)):
            return
        if k >= I.K:
            from absx import Cut
            raise Cut('loop ' + what)
        yield I.at(b.c, add(b.i, k) if not b.rev else sub(b.i, k + 1))
        k += 1


@M('std::fill', 'std::fill_n')
def _(I, n, fr, o, a):
    b, e, v = [I.ev(x, fr) for x in a]
    if n[3][1].endswith('fill_n'):
        e = I.ptr_arith('+', b, e)
    cs = copy_cells(I, b, e)
    if cs is None:
        if isinstance(b, It) and isinstance(b.c, Vec) and is_num(b.i) and b.i == 0:
            b.c.items, b.c.make, b.c.symidx = [], (lambda i: I.copy(v)), None
            return None
        raise Unsupported('fill')
    for c in cs:
        c.v = I.copy(v)


@M('std::array::fill')
def _(I, n, fr, o, a):
    c = obj(I, o, fr)
    v = I.ev(a[0], fr)
    c.items, c.make, c.symidx = [], (lambda i: I.copy(v)), None


@M('std::find', 'std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::for_each', 'std::count_if', 'std::count', 'std::find_if_not')
def _(I, n, fr, o, a):
    b, e, p = [I.ev(x, fr) for x in a[:3]]
    w = n[3][1].split('::')[-1]
    if isinstance(b, MIt):
        raise Unsupported(w + ' on a map')
    k = 0
    cnt = 0
    for c in sym_cells(I, n, b, e, w):
        if w == 'for_each':
            I.invoke(p, [c], n)
        else:
            r = I.rel('==', c.v, p) if w in ('find', 'count') else I.invoke(p, [c], n)
            hit = I.decide(I.truthy(r) if not isinstance(r, Cell) else r.v)
            if w == 'find_if_not':
                hit = not hit
            if hit:
                cnt += 1
                if w.startswith('find'):
                    return I.ptr_arith('+', b, k)
                if w == 'any_of':
                    return True
                if w == 'none_of':
                    return False
            elif w == 'all_of':
                return False
        k += 1
    if w.startswith('find'):
        return e
    if w.startswith('count'):
        return cnt
    return w != 'any_of' if w != 'for_each' else p


@M('absl::c_find', 'absl::c_find_if', 'absl::c_any_of', 'absl::c_all_of', 'absl::c_none_of', 'absl::c_linear_search', 'absl::c_for_each')
def _(I, n, fr, o, a):
    c = I.ev(a[0], fr)
    p = I.ev(a[1], fr)
    w = n[3][1].split('::')[-1][2:]
    if isinstance(c, MapV):
        raise Unsupported(w + ' on a map')
    b, e = rng_it(I, c, 0, 0), rng_it(I, c, 1, 0)
    k = 0
    for x in sym_cells(I, n, b, e, w):
        r = I.rel('==', x.v, p) if w in ('find', 'linear_search') else I.invoke(p, [x], n)
        if w != 'for_each':
            hit = I.decide(I.truthy(r.v if isinstance(r, Cell) else r))
            if hit and w in ('find', 'find_if'):
                return It(c, k)
            if hit and w in ('any_of', 'linear_search'):
                return True
            if hit and w == 'none_of':
                return False
            if not hit and w == 'all_of':
                return False
        k += 1
    if w in ('find', 'find_if'):
        return e
    return w in ('all_of', 'none_of')


@M('std::equal')
def _(I, n, fr, o, a):
    vs = [I.ev(x, fr) for x in a]
    x = copy_cells(I, vs[0], vs[1])
    if x is None:
        raise Unsupported('equal')
    if len(vs) > 3:
        y = copy_cells(I, vs[2], vs[3])
        if y is None:
            raise Unsupported('equal')
        if len(x) != len(y):
            return False
    else:
        y = [I.at(vs[2].c, add(vs[2].i, k)) for k in range(len(x))]
    for p, q in zip(x, y):
        if not I.decide(I.rel('==', p.v, q.v)):
            return False
    return True


@M('std::accumulate')
def _(I, n, fr, o, a):
    b, e, v = [I.ev(x, fr) for x in a[:3]]
    f = I.ev(a[3], fr) if len(a) > 3 else None
    for c in sym_cells(I, n, b, e, 'accumulate'):
        v = I.arith('+', v, c.v, n[2]) if f is None else I.invoke(f, [Cell(v), c], n)
        if isinstance(v, Cell):
            v = v.v
    return v


@M('std::transform')
def _(I, n, fr, o, a):
    vs = [I.ev(x, fr) for x in a]
    src = copy_cells(I, vs[0], vs[1])
    if src is None or len(vs) != 4:
        raise Unsupported('transform')
    d, f = vs[2], vs[3]
    for i, c in enumerate(src):
        r = I.invoke(f, [c], n)
        r = r.v if isinstance(r, Cell) else r
        if isinstance(d, Obj) and d.cls == 'back_inserter':
            v = d.f['c'].v
            norm_vec(I, v)
            v.items.append(Cell(r))
            v.n += 1
        else:
            I.at(d.c, add(d.i, i)).v = r
    return d


@M('std::iota')
def _(I, n, fr, o, a):
    b, e, v = [I.ev(x, fr) for x in a]
    cs = copy_cells(I, b, e)
    if cs is None:
        if isinstance(b, It) and isinstance(b.c, Vec) and b.i == 0:
            b.c.items, b.c.make = [], (lambda i: add(v, i))
            return None
        raise Unsupported('iota')
    for i, c in enumerate(cs):
        c.v = add(v, i)


@M('std::reverse')
def _(I, n, fr, o, a):
    b, e = [I.ev(x, fr) for x in a]
    cs = copy_cells(I, b, e)
    if cs is None:
        raise Unsupported('reverse')
    vals = [c.v for c in cs][::-1]
    for c, v in zip(cs, vals):
        c.v = v


def sort_cells(I, n, fr, cs, cmp):
    """Sorts the values of cells (stably) by a comparison, which may fork on undecided orders."""
    if cs is None:
        raise Unsupported('sort')
    if cmp is None:
        if not all(is_num(c.v) or isinstance(c.v, str) for c in cs):
            raise Unsupported('sort')
        vals = sorted(c.v for c in cs)
    else:
        vals = []
        for c in cs:
            k = len(vals)
            while k:
                r = I.invoke(cmp, [Cell(c.v), Cell(vals[k - 1])], n)
                if not I.decide(I.truthy(r.v if isinstance(r, Cell) else r)):
                    break
                k -= 1
            vals.insert(k, c.v)
    for c, v in zip(cs, vals):
        c.v = v


@M('std::sort', 'std::stable_sort')
def _(I, n, fr, o, a):
    b, e = I.ev(a[0], fr), I.ev(a[1], fr)
    sort_cells(I, n, fr, copy_cells(I, b, e), I.ev(a[2], fr) if len(a) > 2 else None)


@M('absl::c_sort', 'absl::c_stable_sort')
def _(I, n, fr, o, a):
    c = I.ev(a[0], fr)
    if not isinstance(c, (Vec, View)):
        raise Unsupported('sort')
    sort_cells(I, n, fr, copy_cells(I, rng_it(I, c, 0, 0), rng_it(I, c, 1, 0)), I.ev(a[1], fr) if len(a) > 1 else None)


@M('std::memcmp', 'memcmp')
def _(I, n, fr, o, a):
    p, q, k = [I.ev(x, fr) for x in a]
    k = I.concrete(k)
    if not is_num(k):
        raise Unsupported('memcmp')
    for i in range(k):
        x, y = I.at(p, i).v, I.at(q, i).v
        if not I.decide(I.rel('==', x, y)):
            return 1
    return 0


@M('std::memcpy', 'memcpy', 'std::memmove', 'memmove')
def _(I, n, fr, o, a):
    d, s, k = [I.ev(x, fr) for x in a]
    k = I.concrete(k)
    if not is_num(k) or not isinstance(d, Ptr) or not isinstance(d.cell, ElemRef):
        raise Unsupported('memcpy')
    vals = [I.at(s, i).v for i in range(k)]
    for i in range(k):
        I.at(d, i).v = vals[i]
    return d


@M('std::memset', 'memset')
def _(I, n, fr, o, a):
    raise Unsupported('memset')


@M('std::lower_bound', 'std::upper_bound')
def _(I, n, fr, o, a):
    b, e, v = [I.ev(x, fr) for x in a[:3]]
    f = I.ev(a[3], fr) if len(a) > 3 else None
    cs = copy_cells(I, b, e)
    if cs is None:
        raise Unsupported('lower_bound')
    lower = 'lower' in n[3][1]
    for i, c in enumerate(cs):
        if f is not None and not (isinstance(f, Obj) and f.cls.startswith('std::')):
            r = I.invoke(f, [c, Cell(v)] if lower else [Cell(v), c], n)
            r = r.v if isinstance(r, Cell) else r
            stop = not I.decide(I.truthy(r)) if lower else I.decide(I.truthy(r))
        else:
            le = isinstance(f, Obj) and f.cls == 'std::less_equal'
            r = I.rel('<=' if le else '<', c.v, v) if lower else I.rel('<', v, c.v)
            stop = not I.decide(r) if lower else I.decide(r)
        if stop:
            return I.ptr_arith('+', b, i)
    return e


@M('std::_Bit_reference::operator=')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    v = I.ev(a[0], fr)
    c.v = v
    return c


@M('std::_Bit_reference::operator bool')
def _(I, n, fr, o, a):
    return I.lv(o, fr)


@M('std::bitset::operator[]')
def _(I, n, fr, o, a):
    raise Unsupported('bitset')


@M('std::basic_string_view::substr', 'std::basic_string::substr')
def _(I, n, fr, o, a):
    v = obj(I, o, fr)
    vs = [I.concrete(I.ev(x, fr)) for x in a if x]
    if isinstance(v, str) and all(is_num(x) for x in vs):
        if vs and vs[0] > len(v):
            raise Throw('out_of_range')
        vs = vs or [0]
        return v[vs[0]:vs[0] + vs[1]] if len(vs) > 1 else v[vs[0]:]
    raise Unsupported('substr')


@M('absl::StripPrefix', 'absl::StripSuffix')
def _(I, n, fr, o, a):
    v, w = I.ev(a[0], fr), I.ev(a[1], fr)
    if isinstance(v, str) and isinstance(w, str):
        return v.removeprefix(w) if n[3][1].endswith('Prefix') else v.removesuffix(w)
    raise Unsupported('strip')


NPOS = (1 << 64) - 1


@M('std::basic_string::find', 'std::basic_string_view::find', 'std::basic_string::rfind', 'std::basic_string::find_last_of', 'std::basic_string_view::rfind',
   'std::basic_string::find_first_of', 'std::basic_string_view::find_first_of', 'std::basic_string_view::find_last_of')
def _(I, n, fr, o, a):
    v = obj(I, o, fr)
    ws = [I.concrete(I.ev(x, fr)) for x in a if x]
    w = ws[0]
    if is_num(w):
        w = chr(int(w) & 255)
    nm = n[3][1].split('::')[-1]
    if isinstance(v, str) and isinstance(w, str) and all(is_num(x) for x in ws[1:]):
        if nm in ('find', 'find_first_of'):
            st = int(ws[1]) if len(ws) > 1 else 0
            r = v.find(w, st) if nm == 'find' else min([k for k in range(st, len(v)) if v[k] in w], default=-1)
        else:
            st = min(int(ws[1]), len(v)) if len(ws) > 1 else len(v)
            r = v.rfind(w, 0, st + len(w)) if nm == 'rfind' else max([k for k in range(0, min(st + 1, len(v))) if v[k] in w], default=-1)
        return r if r >= 0 else NPOS
    raise Unsupported(nm)


@M('absl::StartsWith', 'absl::EndsWith', 'absl::StrContains', 'std::basic_string::starts_with', 'std::basic_string_view::starts_with',
   'std::basic_string::ends_with', 'std::basic_string_view::ends_with', 'std::basic_string::contains')
def _(I, n, fr, o, a):
    nm = n[3][1].split('::')[-1].lower().replace('_', '')
    v, w = (I.ev(a[0], fr), I.ev(a[1], fr)) if n[3][1].startswith('absl') else (obj(I, o, fr), I.concrete(I.ev(a[0], fr)))
    if is_num(w):
        w = chr(int(w) & 255)
    if isinstance(v, str) and isinstance(w, str):
        return v.startswith(w) if nm == 'startswith' else v.endswith(w) if nm == 'endswith' else w in v
    return B('eq', var('%s(%r,%r)' % (nm, v, w), 0, 1), 1)


@M('absl::Span::remove_prefix', 'absl::Span::remove_suffix')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    v, k = view(I, [c.v]), I.num(I.ev(a[0], fr))
    if I.decide(I.rel('>', k, v.n)):
        I.event('oob', k, v.n)
        raise Abort('remove_prefix past the end')
    c.v = View(v.vec, add(v.off, k) if n[3][1].endswith('prefix') else v.off, sub(v.n, k))


@M('std::basic_string_view::remove_prefix', 'std::basic_string_view::remove_suffix', 'std::basic_string::pop_back')
def _(I, n, fr, o, a):
    c = I.lv(o, fr)
    k = I.concrete(I.ev(a[0], fr)) if a else 1
    if not isinstance(c.v, str) or not is_num(k):
        raise Unsupported('remove_prefix')
    if k > len(c.v):
        I.event('oob', k, len(c.v))
        raise Abort('remove_prefix past the end')
    c.v = c.v[int(k):] if n[3][1].endswith('prefix') else c.v[:len(c.v) - int(k)]


@M('std::copy_n', 'std::generate_n')
def _(I, n, fr, o, a):
    b, k, d = [I.ev(x, fr) for x in a[:3]]
    nm = n[3][1].split('::')[-1]
    if nm == 'generate_n':
        cs = None
    else:
        cs = copy_cells(I, b, I.ptr_arith('+', b, k))
    k = I.concrete(k)
    if (cs is None and nm == 'copy_n') or not is_num(k):
        raise Unsupported(nm)
    out = b if nm == 'generate_n' else d
    for i in range(int(k)):
        v = I.invoke(d, [], n) if cs is None else I.copy(cs[i].v)
        v = v.v if isinstance(v, Cell) else v
        if isinstance(out, (It, Ptr)):
            deref_at(I, out, i).v = v
        else:
            raise Unsupported('output iterator')
    return I.ptr_arith('+', out, int(k))


def deref_at(I, it, i):
    p = I.ptr_arith('+', it, i) if i else it
    if isinstance(p, It):
        return I.at(p.c, p.i)
    return p.cell


@M('std::max_element', 'std::min_element', 'absl::c_max_element', 'absl::c_min_element')
def _(I, n, fr, o, a):
    vs = [I.ev(x, fr) for x in a if x]
    nm = n[3][1].split('::')[-1]
    if nm.startswith('c_'):
        if len(vs) > 1 or not isinstance(vs[0], Vec):
            raise Unsupported(nm)
        b, cs = It(vs[0], 0), [I.at(vs[0], i) for i in range(I.concrete(vs[0].n))]
        cmp = None
    else:
        b, cs, cmp = vs[0], copy_cells(I, vs[0], vs[1]), vs[2] if len(vs) > 2 else None
    if cs is None:
        raise Unsupported(nm)
    best = 0
    for i in range(1, len(cs)):
        x, y = (cs[best], cs[i]) if 'max' in nm else (cs[i], cs[best])
        if cmp is not None:
            r = I.invoke(cmp, [x, y], n)
            r = I.truthy(r.v if isinstance(r, Cell) else r)
        else:
            r = I.rel('<', x.v, y.v)
        if I.decide(r):
            best = i
    return I.ptr_arith('+', b, best if cs else 0)


@M('std::inner_product')
def _(I, n, fr, o, a):
    vs = [I.ev(x, fr) for x in a]
    cs = copy_cells(I, vs[0], vs[1])
    if cs is None or len(vs) > 4:
        raise Unsupported('inner_product')
    s = vs[3]
    for i, c in enumerate(cs):
        s = I.arith('+', s, I.arith('*', c.v, deref_at(I, vs[2], i).v, ir.typ(n)), ir.typ(n))
    return s


@M('absl::c_count_if', 'absl::c_count')
def _(I, n, fr, o, a):
    c, p = I.ev(a[0], fr), I.ev(a[1], fr)
    k = I.concrete(I.size(c))
    if not is_num(k):
        raise Unsupported('c_count')
    cnt = 0
    for i in range(int(k)):
        x = I.at(c, i)
        r = I.invoke(p, [x], n) if n[3][1].endswith('_if') else I.rel('==', x.v, p)
        cnt += I.decide(I.truthy(r.v if isinstance(r, Cell) else r))
    return cnt
