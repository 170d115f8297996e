"""Use-of-absent-result analysis.

For every call whose result may be absent (null pointer, empty std::optional, end iterator of a lookup),
the function is run in the world where it *is* absent; the places holding the result are tracked, tests of
them refine the world, and a dereference that is still reachable is reported.
"""
import re
import ir
from flow import Flow
from statusflow import place, is_status, retval, ERRF

PTR = re.compile(r'(\*( const)?$)|^(const )?(std::(unique_ptr|shared_ptr)<|absl::Nullable<)')
OPT = re.compile(r'^(const )?std::optional<')
FIND = re.compile(r'(::find|^std::find|^std::find_if|^std::find_if_not|^std::adjacent_find|^absl::c_find|^absl::c_find_if)$')
EXT_NULL = {'fopen', 'std::fopen', 'malloc', 'calloc', 'std::getenv', 'getenv', 'FLAC__stream_decoder_new', 'FLAC__stream_encoder_new', 'aacDecoder_Open',
            'XML_ParserCreate', 'opus_decoder_create', 'opus_encoder_create'}


def kind_of(n):
    """'ptr' | 'opt' | 'it' | None for a call node by its type."""
    t = n[2]
    if n[3] and FIND.search(n[3][1]) and not t.startswith('unsigned') and t not in ('unsigned long', 'size_t'):
        return 'it'
    if OPT.match(t) and not t.endswith('&'):
        return 'opt'
    if PTR.search(t):
        return 'ptr'
    return None


def absent_const(n):
    """Does the expression denote an absent value outright?"""
    m = n
    while m:
        if m[0] == 'null':
            return True
        if m[0] in ('cst', 'cast'):
            m = m[4]
        elif m[0] == 'dinit':
            m = m[3]
        elif m[0] == 'ref' and m[4] == 'nullopt':
            return True
        elif m[0] == 'ctor':
            if not m[4] and m[3] and re.match(r'std::(unique_ptr|shared_ptr|optional)::', m[3][1]):
                return True
            if len(m[4]) >= 1 and m[4][0] and re.match(r'std::(unique_ptr|shared_ptr|optional)', m[3][1]):
                m = m[4][0]
                continue
            return False
        elif m[0] == 'init' and not m[3] and (OPT.match(m[2]) or PTR.search(m[2])):
            return True
        else:
            return False
    return False


def returns_of(f):
    for n in ir.walk(f.get('b')):
        if n[0] == 'ret' and n[2]:
            yield n[2]


def may_absent(P):
    """Keys of repository functions that can return an absent pointer/optional."""
    cand = {}
    for f in P.fn.values():
        if f.get('b') and (PTR.search(f['r']) or OPT.match(f['r'])) and not f['r'].endswith('&'):
            cand[f['k']] = f
    out = set()
    for k, f in cand.items():
        for r in returns_of(f):
            e = [r]
            s = ir.strip(r)
            if s and s[0] == 'cond':
                e += [s[4], s[5]]
            if any(absent_const(x) for x in e):
                out.add(k)
    # transitively: returns the unexamined result of a call
    ch = True
    while ch:
        ch = False
        for k, f in cand.items():
            if k in out:
                continue
            for r in returns_of(f):
                s = ir.strip(r)
                if s and s[0] == 'call' and s[3] and (s[3][0] in out or s[3][1] in EXT_NULL):
                    out.add(k); ch = True
                    break
    # an abstract method may return absent when an override may
    for k, o in P.overriders.items():
        if o & out:
            out.add(k)
    return out


class Absent(Flow):
    def __init__(self, site, kind, P=None, depth=0):
        self.site, self.kind, self.P, self.depth = site, kind, P, depth
        self.out = set()
        self.rets = set()

    # state: (normal, frozenset of places or None)
    def join(self, a, b):
        if a[1] is None:
            w = b[1]
        elif b[1] is None:
            w = a[1]
        else:
            w = a[1] & b[1]
        return (a[0] or b[0], w)

    def is_abs(self, n, w):
        m = n
        while m:
            if m is self.site:
                return True
            if m[0] in ('cst', 'cast'):
                m = m[4]; continue
            if m[0] == 'dinit':
                m = m[3]; continue
            if m[0] == 'ctor' and len(m[4]) >= 1 and m[4][0] and m[3] and (m[5] & 3 or re.match(r'std::(unique_ptr|shared_ptr|optional)|.*iterator', m[3][1])):
                m = m[4][0]; continue
            break
        if m is None:
            return False
        if m is self.site:
            return True
        p = place(m)
        if p is not None and p in w:
            return True
        if m[0] == 'call' and m[3] and m[4] and m[3][1].endswith('::back'):
            p = place(m[4])
            return p is not None and p + ('#back',) in w
        if m[0] == 'call' and m[3] and m[3][1] in ('std::move', 'std::forward', 'std::unique_ptr::get', 'std::shared_ptr::get', 'std::unique_ptr::release'):
            b = m[4] if m[4] else (m[5][0] if m[5] else None)
            return b is not None and self.is_abs(b, w)
        return False

    def expr(self, n, s):
        w = s[1]
        if n is self.site:
            return (s[0], frozenset())
        if w is None:
            return s
        op = n[0]
        if op == 'asg' or (op == 'call' and n[3] and n[3][1].endswith('::operator=') and n[4] and n[5]):
            l, r = (n[4], n[5]) if op == 'asg' else (n[4], n[5][0])
            p = place(l)
            if p:
                if self.is_abs(r, w):
                    return (s[0], w | {p})
                return (s[0], frozenset(x for x in w if x[:len(p)] != p))
        if op == 'un' and n[3] in ('++', '--', 'p++', 'p--'):
            p = place(n[4])
            if p in w:
                return (s[0], w - {p})
        if self.kind == 'ptr':
            if (op == 'un' and n[3] == '*' and self.is_abs(n[4], w)) or (op == 'mem' and n[3] and len(n) > 6 and n[6] and self.is_abs(n[3], w)):
                return self.hit(n, s)
            if op == 'call' and n[3] and n[4] and n[3][1] in ('std::unique_ptr::operator*', 'std::unique_ptr::operator->', 'std::shared_ptr::operator*', 'std::shared_ptr::operator->', 'std::__shared_ptr_access::operator->', 'std::__shared_ptr_access::operator*', 'std::unique_ptr::operator[]') and self.is_abs(n[4], w):
                return self.hit(n, s)
            if op == 'call' and n[3] and n[4] and PTR.search(ir.typ(n[4]) or '') and ir.typ(n[4]).rstrip().endswith('*') and self.is_abs(n[4], w):
                return self.hit(n, s)
        elif self.kind == 'opt':
            if op == 'call' and n[3] and n[4] and n[3][1] in ('std::optional::operator*', 'std::optional::operator->', 'std::optional::value') and self.is_abs(n[4], w):
                return self.hit(n, s)
        else:
            if op == 'call' and n[3] and n[4] and re.search(r'::operator(\*|->)$', n[3][1]) and self.is_abs(n[4], w):
                return self.hit(n, s)
            if op == 'un' and n[3] == '*' and self.is_abs(n[4], w):
                return self.hit(n, s)
        # stored in a container: any use of the container but a look at its last element reaches the absent value
        if op == 'call' and n[3]:
            q = n[3][1].split('::')[-1]
            if n[4] is not None and q in ('emplace_back', 'push_back') and self.kind != 'it' and n[5] and self.is_abs(n[5][0], w):
                p = place(n[4])
                if p:
                    return (s[0], w | {p + ('#back',)})
            if q not in ('back', 'size', 'empty', 'reserve'):
                for a in ([n[4]] if n[4] is not None else []) + n[5]:
                    p = place(a) if a is not None else None
                    if p is not None and p + ('#back',) in w:
                        return self.hit(n, s)
        # passed by non-const reference / address: may be replaced
        if op in ('call', 'ctor'):
            args = n[5] if op == 'call' else n[4]
            for a in args:
                m = a
                if self.kind == 'ptr' and self.P is not None and op == 'call' and a is not None and n[3][0] in self.P.fn:
                    ps = self.P.fn[n[3][0]]['p']
                    i = args.index(a)
                    if i < len(ps) and mutable_ref(ps[i][2]):
                        p = place(a)
                        if p in w:
                            w = w - {p}
                if m and m[0] == 'un' and m[3] == '&':
                    p = place(m[4])
                    if p in w:
                        w = w - {p}
            if op == 'call' and n[4] is not None and n[3] and re.match(r'std::(unique_ptr|shared_ptr|optional)::(reset|emplace|swap)$', n[3][1]):
                p = place(n[4])
                if p in w:
                    w = w - {p}
            return (s[0], w)
        return s

    def hit(self, n, s):
        self.out.add(n[1])
        return (s[0], None) if s[0] else None

    def decl(self, v, s):
        w = s[1]
        if w is not None and v[3] is not None:
            p = ('v', v[0])
            if self.is_abs(v[3], w):
                return (s[0], w | {p})
            w = w - {p, ('S',) + p}
            if v[2] in ('bool', 'const bool'):
                b = self.presence(v[3], w)
                if b is not None:
                    return (s[0], w | {('B', v[0], b)})
            elif is_status(v[2]) and self.bad_status(v[3], w):
                return (s[0], w | {('S',) + p})
            return (s[0], w)
        return s

    def assume(self, n, truth, s):
        w = s[1]
        if w is None:
            return s
        present = self.presence(n, w)
        if present is None:
            return s
        if truth == present:
            return (s[0], None) if s[0] else None
        return (False, w)

    def presence(self, n, w):
        """The truth value of condition n that means "present", or None when n does not test the result."""
        present = None
        m = n
        while m and m[0] in ('cst', 'cast', 'dinit'):
            if m[0] == 'cast' and self.kind == 'ptr' and self.is_abs(m[4], w):
                return True
            m = m[4] if m[0] != 'dinit' else m[3]
        if not m:
            return None
        if m[0] == 'un' and m[3] == '!':
            p = self.presence(m[4], w)
            return None if p is None else not p
        if m[0] == 'ref' and ('B', m[3], True) in w:
            return True
        if m[0] == 'ref' and ('B', m[3], False) in w:
            return False
        if m[0] == 'call' and m[3]:
            q = m[3][1]
            if q in ('std::optional::has_value', 'std::optional::operator bool', 'std::unique_ptr::operator bool', 'std::shared_ptr::operator bool', 'std::__shared_ptr::operator bool') and m[4] and self.is_abs(m[4], w):
                return True
            if re.search(r'(^|::)operator[=!]=$', q):
                a, b = (m[4], m[5][0]) if m[4] else (m[5][0], m[5][1] if len(m[5]) > 1 else None)
                if a is not None and b is not None and (self.is_abs(a, w) or self.is_abs(b, w)):
                    other = b if self.is_abs(a, w) else a
                    if self.absent_const2(other):
                        return q.endswith('!=')
            if q.endswith('Status::ok') or re.search(r'StatusOr(<.*>)?::ok$', q):
                if m[4] and self.bad_status(m[4], w):
                    return True
            o = self.outcomes(m, w)
            if o == {'true'}:
                return False
            if o == {'false'}:
                return True
            return None
        if m[0] == 'bin' and m[3] in ('==', '!='):
            if (self.is_abs(m[4], w) and self.absent_const2(m[5])) or (self.is_abs(m[5], w) and self.absent_const2(m[4])):
                return m[3] == '!='
        if self.kind == 'ptr' and self.is_abs(m, w):
            return True
        return None

    # ---- helpers that are given the absent value -------------------------------------------------
    def bad_status(self, n, w):
        m = ir.strip(n)
        p = place(n)
        if p is not None and ('S',) + p in w:
            return True
        return bool(m and m[0] == 'call' and self.outcomes(m, w) == {'err'})

    def outcomes(self, call, w):
        """How a repository helper given the absent value returns: subset of {true,false,err,ok,other}, or None."""
        if self.P is None or not call[3] or self.depth > 2:
            return None
        f = self.P.fn.get(call[3][0])
        if not f or not f.get('b'):
            return None
        hit = [i for i, a in enumerate(call[5]) if a is not None and self.is_abs(a, w)]
        if not hit or hit[0] >= len(f['p']):
            return None
        key = (f['k'], hit[0], self.kind)
        if key not in CACHE:
            CACHE[key] = None
            h = Absent(None, self.kind, self.P, self.depth + 1)
            h.rets = set()
            h.run(f, (False, frozenset({('v', f['p'][hit[0]][0])})))
            CACHE[key] = h.rets
        return CACHE[key]

    def ret(self, n, s):
        if s[1] is None:
            return
        v = n[2]
        m = ir.strip(v) if v else None
        if m is not None and is_status(self.f['r']):
            if m[0] == 'call' and m[3] and ERRF.match(m[3][1]):
                self.rets.add('err')
            elif self.bad_status(m, s[1]):
                self.rets.add('err')
            else:
                self.rets.add('other')
        elif v is not None:
            p = self.presence(v, s[1])
            if p is not None:
                self.rets.add('false' if p else 'true')
            else:
                self.rets.add(retval(v))
        else:
            self.rets.add('void')

    def absent_const2(self, n):
        if self.kind == 'it':
            m = ir.strip(n)
            return bool(m and m[0] == 'call' and m[3] and re.search(r'(::|^)c?end$', m[3][1])) or (m and m[0] in ('ref', 'bin') )
        return absent_const(n)


def mutable_ref(t):
    """Is a parameter of this type a reference through which the (pointer) argument itself can be replaced?"""
    if not t.endswith('&') or t.endswith('&&'):
        return False
    b = t[:-1].rstrip()
    if b.endswith('*'):
        return True
    return not (b.startswith('const ') or b.endswith('const'))


def exempt(site):
    """Calls that cannot be absent by construction: LebGenerator::Create of the default (minimum size) mode."""
    if site[0] == 'call' and site[3] and site[3][1].endswith('LebGenerator::Create') and site[5]:
        a = ir.strip(site[5][0])
        return bool(a and (ir.show(a).endswith('kMinimum')))
    return False


def sites(P, f, may):
    for n in ir.walk(f.get('b')):
        vs = n[2] if n[0] == 'decl' else []
        for v in vs:
            if v[3] and absent_const(v[3]) and v[3][0] in ('ctor', 'cst', 'cast', 'init', 'null', 'dinit'):
                if OPT.match(v[2]):
                    yield v[3], 'opt'
                elif PTR.search(v[2]):
                    yield v[3], 'ptr'
    for n in ir.fn_nodes(f):
        if n[0] != 'call' or not n[3]:
            continue
        k = kind_of(n)
        if k is None:
            continue
        if (k == 'it' or n[3][0] in may or n[3][1] in EXT_NULL) and not exempt(n):
            yield n, k


CACHE = {}


def uses(f, site, kind, P=None):
    a = Absent(site, kind, P)
    a.run(f, (True, None))
    return a.out
