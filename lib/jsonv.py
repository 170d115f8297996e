"""JSON texts made of literal segments and symbolic pieces: parsed into a tree whose leaves are the symbolic values."""
from absval import *
from absval import T


class Malformed(Exception):
    pass


class Undecided(Exception):
    pass


class Num:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Num(%r)' % (self.v,)


class Str:
    """Decoded string: list of str and pieces."""
    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'Str(%r)' % (self.p,)


NUMT = ('int', 'flt', 'num')


def toks(s):
    out = []
    for p in (s.p if isinstance(s, SStr) else [s]):
        if isinstance(p, str):
            out.extend(p)
        elif p[0] == 'fmt' and isinstance(p[1], tuple):
            out.extend(fmt(*p[1]))
        else:
            out.append(p)
    return out


def fmt(f, *vals):
    """printf-style conversion into literal text and pieces."""
    import re
    if not isinstance(f, str):
        return [('unk', 'format')]
    out, vals = [], list(vals)
    for x in re.split(r'(%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]|%%)', f):
        if x == '%%':
            out.append('%')
        elif x.startswith('%') and len(x) > 1:
            v = vals.pop(0) if vals else None
            if isinstance(v, (int, float)):
                try:
                    out.extend(x % v)
                    continue
                except (TypeError, ValueError):
                    pass
            if isinstance(v, str) and x == '%s':
                out.extend(v)
                continue
            if isinstance(v, T) and x in ('%d', '%u', '%i', '%v'):
                out.append(('int', v))
                continue
            if isinstance(v, T) and x in ('%f', '%g', '%e'):
                out.append(('flt', v))
                continue
            out.append(('fmt', x, v))
        else:
            out.extend(x)
    return out


class Parser:
    def __init__(self, s, charset):
        self.t = toks(s)
        self.i = 0
        self.charset = charset       # term -> list of (lo, hi) it may lie in

    def ctx(self):
        a = self.t[max(0, self.i - 40):self.i + 20]
        return ''.join(x if isinstance(x, str) else '<%s>' % (x[0],) for x in a).replace('\n', '\\n')

    def bad(self, m):
        raise Malformed('%s near ...%s' % (m, self.ctx()))

    def ws(self):
        while self.i < len(self.t) and isinstance(self.t[self.i], str) and self.t[self.i] in ' \t\r\n':
            self.i += 1

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def expect(self, c):
        self.ws()
        if self.peek() != c:
            self.bad('expected %r' % c)
        self.i += 1

    def value(self):
        self.ws()
        c = self.peek()
        if c == '{':
            self.i += 1
            o = {}
            self.ws()
            if self.peek() == '}':
                self.i += 1
                return o
            while True:
                self.ws()
                if self.peek() != '"':
                    self.bad('expected a member name')
                k = self.string()
                if len(k.p) != 1 or not isinstance(k.p[0], str):
                    raise Undecided('symbolic key')
                k = k.p[0]
                self.expect(':')
                v = self.value()
                if k in o:
                    self.bad('duplicate key "%s"' % k)
                o[k] = v
                self.ws()
                c = self.peek()
                self.i += 1
                if c == '}':
                    return o
                if c != ',':
                    self.i -= 1
                    self.bad('expected , or }')
        if c == '[':
            self.i += 1
            o = []
            self.ws()
            if self.peek() == ']':
                self.i += 1
                return o
            while True:
                o.append(self.value())
                self.ws()
                c = self.peek()
                self.i += 1
                if c == ']':
                    return o
                if c != ',':
                    self.i -= 1
                    self.bad('expected , or ]')
        if c == '"':
            return self.string()
        for w, v in (('true', True), ('false', False), ('null', None)):
            if all(isinstance(x, str) for x in self.t[self.i:self.i + len(w)]) and ''.join(self.t[self.i:self.i + len(w)]) == w:
                self.i += len(w)
                return v
        if isinstance(c, tuple):
            if c[0] in NUMT:
                self.i += 1
                n = self.peek()
                if isinstance(n, tuple) or (isinstance(n, str) and (n.isalnum() or n in '.+-')):
                    self.bad('two values without a separator')
                return Num(c)
            if c[0] == 'sym':
                self.bad('text that is not a JSON value')
            raise Undecided('piece %r' % (c,))
        if c is not None and (c.isdigit() or c == '-'):
            j = self.i
            while self.i < len(self.t) and isinstance(self.t[self.i], str) and (self.t[self.i].isalnum() or self.t[self.i] in '+-.'):
                self.i += 1
            w = ''.join(self.t[j:self.i])
            import json
            try:
                return Num(json.loads(w))
            except ValueError:
                self.bad('bad number ' + w)
        self.bad('unexpected %s' % (repr(c) if c is not None else 'end of text'))

    def string(self):
        self.i += 1
        out = []

        def put(x):
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        while True:
            c = self.peek()
            if c is None:
                self.bad('unterminated string')
            self.i += 1
            if isinstance(c, tuple):
                if c[0] == 'sym':
                    self.bad('text copied into a string without escaping')
                if c[0] == 'chr':
                    for l, h in self.charset(c[1]):
                        l, h = (l, h) if l >= 0 else (l + 256, h + 256) if h < 0 else (0, h)
                        for q in range(int(l), int(h) + 1):
                            if q < 0x20 or q in (0x22, 0x5c):
                                self.bad('character 0x%02x copied into a string without escaping' % q)
                put(c)
                continue
            if c == '"':
                return Str(out or [''])
            if c == '\\':
                d = self.peek()
                self.i += 1
                if d in ('"', '\\', '/'):
                    put(d)
                elif d in ('b', 'f', 'n', 'r', 't'):
                    put({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}[d])
                elif d == 'u':
                    n = self.peek()
                    if isinstance(n, tuple):
                        if n[0] == 'fmt' and n[1] in ('%04x', '%04X', '04x', '04X'):
                            self.i += 1
                            for l, h in self.charset(n[2], False):
                                if l < 0 or h > 0x7f:
                                    self.bad('byte 0x%02x of a string escaped as the character U+%04X' % (int(h) & 255, int(h) & 0xffffffff))
                            put(('chr', n[2]))
                            continue
                        raise Undecided('piece %r in an escape' % (n,))
                    h = self.t[self.i:self.i + 4]
                    if not all(isinstance(x, str) for x in h):
                        raise Undecided('escape')
                    try:
                        put(chr(int(''.join(h), 16)))
                    except ValueError:
                        self.bad('bad \\u escape')
                    self.i += 4
                else:
                    self.bad('bad escape')
                continue
            if ord(c) < 0x20:
                self.bad('control character in a string')
            put(c)

    def document(self):
        v = self.value()
        self.ws()
        if self.i != len(self.t):
            self.bad('text after the document')
        return v
