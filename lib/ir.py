"""Helpers over the exported syntax trees."""

EXPR_OPS = {'int', 'flt', 'str', 'null', 'this', 'fref', 'bref', 'ref', 'mem', 'call', 'ctor', 'un', 'bin', 'asg', 'cond', 'idx',
            'init', 'dinit', 'zero', 'cast', 'lambda', 'new', 'delete', 'throw', 'raw', 'cst'}


def isnode(n):
    return type(n) is list and len(n) > 1 and type(n[0]) is str and type(n[1]) is int


def children(n):
    """Direct child nodes (expressions and statements) of a node, in evaluation order as written."""
    op = n[0]
    if op == '{':
        return [x for x in n[2] if x]
    if op == 'decl':
        return [v[3] for v in n[2] if v[3]]
    if op == 'if':
        out = []
        if n[2]: out.append(n[2])
        if n[3] and n[3][3]: out.append(n[3][3])
        out += [x for x in n[4:7] if x]
        return out
    if op == 'while':
        return ([n[2][3]] if n[2] and n[2][3] else []) + [x for x in n[3:5] if x]
    if op == 'do':
        return [x for x in n[2:4] if x]
    if op == 'for':
        return [x for x in n[2:6] if x]
    if op == 'rfor':
        return [x for x in (n[5], n[3], n[4]) if x]
    if op == 'switch':
        return ([n[2]] if n[2] else []) + ([n[3][3]] if n[3] and n[3][3] else []) + [x for x in n[4:6] if x]
    if op == 'case':
        return [x for x in (n[2], n[3], n[4]) if x]
    if op == 'default':
        return [n[2]] if n[2] else []
    if op == 'ret':
        return [n[2]] if n[2] else []
    if op == 'label':
        return [n[3]] if n[3] else []
    if op == 'try':
        return [n[2]] + [x for x in n[3] if x]
    if op == 'rawstmt':
        return [x for x in n[3] if x]
    if op == 'mem':
        return [n[3]] if n[3] else []
    if op == 'call':
        return ([n[4]] if n[4] else []) + [x for x in n[5] if x]
    if op == 'ctor':
        return [x for x in n[4] if x]
    if op == 'un':
        return [n[4]]
    if op in ('bin', 'asg'):
        return [n[4], n[5]]
    if op == 'cond':
        return [n[3], n[4], n[5]]
    if op == 'idx':
        return [n[3], n[4]]
    if op == 'init':
        return [x for x in n[3] if x]
    if op == 'dinit':
        return [n[3]] if n[3] else []
    if op == 'cast':
        return [n[4]] if n[4] else []
    if op == 'lambda':
        return [c[3] for c in n[4] if len(c) > 3 and c[3]]
    if op == 'new':
        return [x for x in n[3:5] if x]
    if op == 'delete':
        return [n[3]] if n[3] else []
    if op == 'throw':
        return [n[3]] if n[3] else []
    if op == 'raw':
        return [x for x in n[4] if x]
    if op == 'cst':
        return [n[4]]
    return []


def walk(n):
    st = [n] if n else []
    while st:
        x = st.pop()
        yield x
        c = children(x)
        c.reverse()
        st.extend(c)


def fn_nodes(f):
    if f.get('i'):
        for i in f['i']:
            if i[1]:
                yield from walk(i[1])
    if f.get('b'):
        yield from walk(f['b'])


def strip(n):
    """Drop value-preserving wrappers (constant folding wrapper, casts, copies of a single argument)."""
    while n:
        if n[0] == 'cst':
            n = n[4]
        elif n[0] == 'cast':
            n = n[4]
        elif n[0] == 'dinit':
            n = n[3]
        elif n[0] == 'ctor' and n[5] & 3 and len(n[4]) == 1:
            n = n[4][0]
        else:
            return n
    return n


def typ(n):
    return n[2] if n and n[0] in EXPR_OPS and len(n) > 2 and type(n[2]) is str else ''


def callee_q(n):
    if n[0] in ('call', 'ctor') and n[3]:
        return n[3][1]
    return None


def callee_k(n):
    if n[0] in ('call', 'ctor') and n[3]:
        return n[3][0]
    return None


def const_of(n):
    """Integer/float constant value of a node, or None."""
    while n:
        if n[0] in ('int', 'flt', 'cst'):
            return n[3]
        if n[0] == 'ref' and len(n) > 6:
            return n[6]
        if n[0] == 'cast':
            n = n[4]
            continue
        return None
    return None


def show(n, depth=0):
    """Short human-readable rendering."""
    if n is None:
        return ''
    if depth > 6:
        return '...'
    op = n[0]
    s = lambda x: show(x, depth + 1)
    if op in ('int', 'flt'):
        return str(n[4]).split('::')[-1] if op == 'int' and len(n) > 4 else str(n[3])
    if op == 'str': return repr(n[3])[:30]
    if op == 'null': return 'nullptr'
    if op == 'this': return 'this'
    if op == 'fref': return n[3][1]
    if op == 'bref': return n[5]
    if op == 'ref': return n[4]
    if op == 'mem': return (s(n[3]) + '.' if n[3] and n[3][0] != 'this' else '') + n[4]
    if op == 'call':
        nm = n[3][1].split('::')[-1] if n[3] else 'call'
        return (s(n[4]) + '.' if n[4] else '') + nm + '(' + ', '.join(s(x) for x in n[5]) + ')'
    if op == 'ctor': return n[3][1].split('::')[-1] + '(' + ', '.join(s(x) for x in n[4]) + ')'
    if op == 'un': return n[3] + s(n[4])
    if op in ('bin', 'asg'): return s(n[4]) + ' ' + n[3] + ' ' + s(n[5])
    if op == 'cond': return s(n[3]) + ' ? ' + s(n[4]) + ' : ' + s(n[5])
    if op == 'idx': return s(n[3]) + '[' + s(n[4]) + ']'
    if op == 'init': return '{' + ', '.join(s(x) for x in n[3][:4]) + '}'
    if op in ('cast',): return s(n[4])
    if op in ('cst',): return s(n[4])
    if op == 'dinit': return s(n[3])
    if op == 'lambda': return 'lambda'
    return op
