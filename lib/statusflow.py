"""Error-propagation analysis.

For every call site c whose value is an absl::Status / absl::StatusOr, the function is run in the abstract
world "c fails": the set of places holding c's error is tracked, `.ok()` on them is false, and the way the
function leaves in that world is classified:
   prop      returns a non-OK status (the same one, or a newly built error)
   abort     a fatal check
   ok        returns a success value although c failed             -> the error was swallowed
   other     leaves with a value that is not a status (bool, int, pointer, void) after looking at the error
   unseen    leaves without anything having looked at the error    -> the error was dropped
   deref     the value of the failed StatusOr is used
"""
import re
import ir
from flow import Flow

ST = re.compile(r'^(const )?(absl::(Status|StatusOr<.*>)|iamf_tools::api::IamfStatus)( ?&&?)?$')
ERRF = re.compile(r'^absl::(Aborted|AlreadyExists|Cancelled|DataLoss|DeadlineExceeded|FailedPrecondition|Internal|InvalidArgument|NotFound|OutOfRange|PermissionDenied|ResourceExhausted|Unauthenticated|Unavailable|Unimplemented|Unknown)Error$')


def is_status(t):
    return bool(ST.match(t or ''))


def place(n):
    """Stable key of a storage location expression, or None."""
    n = ir.strip(n)
    if n is None:
        return None
    if n[0] == 'ref':
        return ('v', n[3])
    if n[0] == 'mem':
        b = place(n[3]) if n[3] else ('this',)
        return b + (n[4],) if b else None
    if n[0] == 'this':
        return ('this',)
    if n[0] == 'bref':
        return ('b', n[3], n[4])
    if n[0] == 'un' and n[3] == '*':
        b = place(n[4])
        return b + ('*',) if b else None
    if n[0] == 'call' and n[3] and n[3][1] == 'std::move' and n[5]:
        return place(n[5][0])
    return None


class World:
    __slots__ = ('E', 'seen')

    def __init__(self, E, seen):
        self.E, self.seen = E, seen

    def __eq__(self, o):
        return o is not None and self.E == o.E and self.seen == o.seen


# state: (normal reachable: bool, World or None)
AGAIN = ('again',)


class Site(Flow):
    def __init__(self, site, always_fail, rettype, again=False):
        self.again = again
        self.site = site
        self.out = set()
        self.exits = []
        self.rettype = rettype
        self.known_err = always_fail

    def copy(self, s):
        return None if s is None else (s[0], World(s[1].E, s[1].seen) if s[1] else None)

    def join(self, a, b):
        w = None
        if a[1] and b[1]:
            w = World(a[1].E & b[1].E, a[1].seen & b[1].seen)
        else:
            w = a[1] or b[1]
        return (a[0] or b[0], w)

    def equal(self, a, b):
        return a == b

    # value of an expression in the failing world
    def err(self, n, w):
        """'E' when n denotes c's error, 'err' when it is some other definite error, 'ok' definite success, None unknown."""
        while n:
            if n is self.site:
                return None if AGAIN in w.E else 'E'
            op = n[0]
            if op == 'cst' or op == 'cast':
                n = n[4]; continue
            if op == 'dinit':
                n = n[3]; continue
            if op == 'ctor':
                q = n[3][1] if n[3] else ''
                if len(n[4]) == 1 and n[4][0]:
                    v = self.err(n[4][0], w)
                    if v:
                        return v
                if q.startswith('absl::StatusOr'):
                    return 'ok' if n[4] and n[4][0] and not is_status(ir.typ(n[4][0])) else None
                if q == 'absl::Status::Status':
                    if not n[4]:
                        return 'ok'
                    c = ir.const_of(n[4][0])
                    if c is not None:
                        return 'ok' if c == 0 else 'err'
                    # code taken from the tracked error
                    for x in ir.walk(n[4][0]):
                        if self.err1(x, w) == 'E':
                            return 'E'
                return None
            if op == 'init':
                if len(n[3]) == 1:
                    n = n[3][0]; continue
                return None
            if op == 'cond':
                if any(x is self.site for x in ir.walk(n)) and not any(x is self.site for x in ir.walk(n[3])):
                    return 'E' if 'E' in (self.err(n[4], w), self.err(n[5], w)) else None
                a, b = self.err(n[4], w), self.err(n[5], w)
                return a if a == b else (a if a in ('E', 'err') and b in ('E', 'err') else None)
            return self.err1(n, w)
        return None

    def err1(self, n, w):
        if n is self.site:
            return None if AGAIN in w.E else 'E'
        p = place(n)
        if p is not None and p in w.E:
            return 'E'
        if p is not None and ('bad',) + p in w.E:
            return 'err'
        if n[0] == 'call' and n[3]:
            q = n[3][1]
            if ERRF.match(q):
                return 'err'
            if q == 'iamf_tools::api::IamfStatus::ErrorStatus':
                return 'err'
            if q in ('absl::OkStatus', 'iamf_tools::api::IamfStatus::OkStatus'):
                return 'ok'
            if q in ('std::move', 'std::forward') and n[5]:
                return self.err(n[5][0], w)
            if re.match(r'absl::StatusOr(<.*>)?::status$', q) and n[4]:
                return self.err(n[4], w)
            # a helper that is given the error and builds a status from it
            if is_status(ir.typ(n)):
                for a in n[5]:
                    if a and is_status(ir.typ(ir.strip(a))) and self.err(a, w) == 'E':
                        return 'E'
        return None

    def expr(self, n, s):
        w = s[1]
        if n is self.site:
            if self.again and w is not None:
                # evaluated again after an earlier failure, now successfully: the earlier error must survive
                return (s[0], World(w.E | {AGAIN}, w.seen))
            # from here on both worlds exist
            s = (s[0], World(frozenset(), False) if s[0] or w else None)
            return s
        if w is None:
            return s
        op = n[0]
        if op == 'asg' or (op == 'call' and n[3] and n[3][1].endswith('::operator=') and n[5]):
            l, r = (n[4], n[5]) if op == 'asg' else ((n[4], n[5][0]) if n[4] else (n[5][0], n[5][1]))
            p = place(l)
            if p:
                if self.err(r, w) == 'E':
                    w = World(w.E | {p}, w.seen)
                else:
                    w = World(frozenset(x for x in w.E if x[:len(p)] != p and x[1:len(p) + 1] != p), w.seen)
                return (s[0], w)
        if op == 'call' and n[3]:
            q = n[3][1]
            if q == 'absl::Status::Update' and n[4] and n[5]:
                if self.err(n[5][0], w) == 'E':
                    p = place(n[4])
                    if p:
                        return (s[0], World(w.E | {p}, w.seen))
            if n[4] is not None and self.err(n[4], w) == 'E' and n[3][1].split('::')[-1] in ('ok', 'code', 'message', 'ToString', 'raw_code'):
                return (s[0], World(w.E, True))
            if n[4] is not None and self.err(n[4], w) == 'E' and re.match(r'absl::StatusOr(<.*>)?::(operator\*|operator->|value)$', q):
                self.out.add(('deref', n[1]))
                return (s[0], None)
            if any(a is not None and is_status(ir.typ(ir.strip(a)) or '') and self.err(a, w) == 'E' for a in n[5]):
                # handed to another function (predicate, logger, comparison): looked at
                if q not in ('std::move', 'std::forward') and not ERRF.match(q):
                    return (s[0], World(w.E, True))
        return s

    def decl(self, v, s):
        w = s[1]
        if w is not None and v[3] is not None:
            p = ('v', v[0])
            if self.err(v[3], w) == 'E':
                return (s[0], World(w.E | {p}, w.seen))
            E = frozenset(x for x in w.E if x != p and x != ('bad',) + p)
            if v[2] in ('bool', 'const bool'):
                okt = self.ok_test(v[3], w)
                if okt is not None:
                    return (s[0], World(E | {('B', v[0], okt)}, w.seen))
            return (s[0], World(E, w.seen))
        return s

    def assume(self, n, truth, s):
        w = s[1]
        if w is None:
            return s
        n = ir.strip(n)
        if n and n[0] == 'ref':
            for okt in (True, False):
                if ('B', n[3], okt) in w.E:
                    if truth == okt:
                        return (s[0], None) if s[0] else None
                    return (False, World(w.E, True))
        if n and n[0] == 'call' and n[3]:
            q = n[3][1]
            if re.match(r'(absl::(Status|StatusOr(<.*>)?)|iamf_tools::api::IamfStatus)::ok$', q) and n[4] and self.err(n[4], w) != 'E':
                p = place(n[4])
                if p and not truth:
                    return (s[0], World(w.E | {('bad',) + p}, w.seen))
            if re.match(r'(absl::(Status|StatusOr(<.*>)?)|iamf_tools::api::IamfStatus)::ok$', q) and n[4] and self.err(n[4], w) == 'E':
                if truth:
                    return (s[0], None) if s[0] else None
                # in the world where it succeeded this edge is infeasible, keep only failing world
                return (False, World(w.E, True))
            if q in ('absl::operator==', 'absl::operator!='):
                a = [self.err(x, w) for x in n[5]]
                if 'E' in a and 'ok' in a:
                    eq = q.endswith('==')
                    if truth == eq:
                        return (s[0], None) if s[0] else None
                    return (False, World(w.E, True))
        return s

    def ok_test(self, n, w):
        m = ir.strip(n)
        if m and m[0] == 'un' and m[3] == '!':
            t = self.ok_test(m[4], w)
            return None if t is None else not t
        if m and m[0] == 'call' and m[3] and re.match(r'(absl::(Status|StatusOr(<.*>)?)|iamf_tools::api::IamfStatus)::ok$', m[3][1]) and m[4] and self.err(m[4], w) == 'E':
            return True
        return None

    def leave(self, kind, n):
        self.out.add((kind, n[1] if n else 0))

    def ret(self, n, s):
        w = s[1]
        if w is None:
            return
        v = self.err(n[2], w) if n[2] else None
        if is_status(self.rettype):
            if v in ('E', 'err'):
                self.leave('prop', n)
            elif v == 'ok' or (n[2] and not self.may_status(n[2])):
                self.leave('ok', n)
            else:
                # an unrelated status value
                self.leave('ok' if not self.mentions(n[2], w) else 'prop', n)
        else:
            v = retval(n[2])
            if n[2] and self.mentions(n[2], w):
                self.leave('value:derived', n)
            else:
                self.leave(('' if w.seen else 'unseen ') + 'value:' + v, n)

    def may_status(self, n):
        t = ir.typ(ir.strip(n))
        return is_status(t)

    def mentions(self, n, w):
        return any(self.err1(x, w) == 'E' for x in ir.walk(n))

    def end(self, s):
        w = s[1]
        if w is not None:
            self.leave(('' if w.seen else 'unseen ') + 'value:void', None)

    def noreturn(self, n, s):
        if s[1] is not None:
            self.leave('abort', n)


def retval(n):
    """Coarse class of a returned value: null, nullopt, false, true, zero, nonzero, void, other."""
    if n is None:
        return 'void'
    t = ir.typ(n)
    m = n
    while m:
        if m[0] in ('cst', 'cast'):
            c = ir.const_of(m)
            if c is not None:
                break
            m = m[4]
        elif m[0] == 'dinit':
            m = m[3]
        elif m[0] == 'ctor' and len(m[4]) >= 1 and m[4][0]:
            m = m[4][0]
        else:
            break
    if m is None:
        return 'other'
    if m[0] == 'null':
        return 'null'
    if m[0] == 'ref' and m[4] == 'nullopt':
        return 'nullopt'
    c = ir.const_of(m)
    if c is not None:
        if t in ('bool', 'const bool') or isinstance(c, bool):
            return 'true' if c else 'false'
        if m[0] == 'int' and len(m) > 4 and m[4]:
            return 'enum ' + str(m[4]).split('::')[-1]
        return 'nonzero' if c else 'zero'
    return 'other'


def sites(f):
    for n in ir.fn_nodes(f):
        if n[0] == 'call' and is_status(n[2]) and n[3]:
            q = n[3][1]
            if ERRF.match(q) or q in ('absl::OkStatus', 'iamf_tools::api::IamfStatus::OkStatus', 'iamf_tools::api::IamfStatus::ErrorStatus', 'std::move', 'std::forward', 'absl_model::AsStatus') or re.match(r'absl::Status(Or(<.*>)?)?::', q) or q.startswith('iamf_tools::api::IamfStatus::'):
                continue
            if n[2].endswith('&'):
                continue
            yield n


def classify(f, site):
    a = Site(site, True, f['r'])
    a.run(f, (True, None))
    b = Site(site, True, f['r'], again=True)
    b.run(f, (True, None))
    return a.out | b.out
