"""Numeric conversions compute the documented value or refuse."""
import re
import check, db, ir
from absval import *
from contract import *

RULE = ('every conversion of iamf/common/utils computes, on every interval of its input space, exactly the documented value or an error '
        'exactly where the value is not representable: the abstract outcome of each partition of the input (interval facts and value '
        'terms) is compared with the specification evaluated in the same domain')

NUM = 'iamf/common/utils/numeric_utils'


def le(I, a, b):
    return I.decide(I.rel('<=', a, b))


def lt(I, a, b):
    return I.decide(I.rel('<', a, b))


def isnan(I, v):
    return I.decide(B('nan', v, 0))


def run():
    P = db.load()
    c = check.Check('C19', RULE, ['floating point additions and multiplications in double are treated as exact; conversions to float round'])

    def fn(name, pred=None):
        r = [f for f in P.fn.values() if f['n'] == name and f.get('b') and '/tests/' not in f['f'] and (pred is None or pred(f))]
        if not r:
            c.notes.setdefault('not found', []).append(name)
        return r

    # -- AddUint32CheckOverflow
    def b(I):
        e = {'a': var('x_1', 0, 2**32 - 1), 'b': var('x_2', 0, 2**32 - 1), 'r': Cell(UNINIT)}
        return None, [Cell(e['a']), Cell(e['b']), e['r']], e
    def o(I, e, t):
        s = add(e['a'], e['b'])
        return [('the sum', e['r'], s)] if le(I, s, 2**32 - 1) else ERR
    for f in fn('AddUint32CheckOverflow'):
        check_fn(c, P, f, b, o)

    # -- fixed point
    for name, lo, hi in (('FloatToQ7_8', -128.0, 128.0 - 1 / 256), ('FloatToQ0_8', 0.0, f32(1.0 - 2**-24))):
        for f in fn(name):
            def b(I):
                e = {'v': I.fresh('float', 'value'), 'r': Cell(UNINIT)}
                return None, [Cell(e['v']), e['r']], e
            def o(I, e, t, lo=lo, hi=hi):
                v = e['v']
                if isnan(I, v) or lt(I, v, lo) or (lt(I, hi, v) if hi > 1 else le(I, 1.0, v)):
                    return ERR
                x = scale(v, 256)
                return [('the result', e['r'], op('trunc', (x,), lo * 256, hi * 256), (op('f_floor', (x,), -INF, INF, True),))]
            check_fn(c, P, f, b, o)
    for name, lo, hi in (('Q7_8ToFloat', -2**15, 2**15 - 1), ('Q0_8ToFloat', 0, 255)):
        for f in fn(name):
            def b(I):
                e = {'v': var('value', lo, hi)}
                return None, [Cell(e['v'])], e
            check_fn(c, P, f, b, lambda I, e, t: [('the result', t.get('ret'), scale(e['v'], 1 / 256))])

    # -- StaticCastIfInRange, every instantiation in the program
    for f in fn('StaticCastIfInRange'):
        ps = f['p']
        if len(ps) != 3:
            continue
        it, ot = ps[1][2], re.sub(r' ?&$', '', ps[2][2])
        def b(I, it=it):
            e = {'v': I.fresh(it, 'input'), 'r': Cell(UNINIT)}
            return None, [Cell('field'), Cell(e['v']), e['r']], e
        import absx
        J = absx.Interp(P)
        bs = J.intty(ot)
        if ot == 'bool':
            lo, hi = 0, 1
        elif bs:
            lo, hi = J.rngty(bs)
        else:
            continue
        if J.intty(it) is None:
            continue
        def o(I, e, t, lo=lo, hi=hi, it=it, ot=ot, bs=bs):
            v = e['v']
            if it == 'char' and ot == 'unsigned char':
                return [('the result', e['r'], I.wrap(v, (8, False)))]
            return [('the result', e['r'], v)] if not lt(I, v, lo) and le(I, v, hi) else ERR
        check_fn(c, P, f, b, o, key='%s|StaticCastIfInRange<%s,%s>' % (f['f'], it, ot))
        c.count('StaticCastIfInRange instantiations')

    # -- bytes to integers: left-justified
    for name, rev in (('LittleEndianBytesToInt32', False), ('BigEndianBytesToInt32', True)):
        for f in fn(name):
            for n in range(0, 10):
                def b(I, n=n):
                    e = {'b': [var('byte%d' % i, 0, 255) for i in range(n)], 'r': Cell(UNINIT)}
                    v = Vec('unsigned char', [Cell(x) for x in e['b']])
                    return None, [Cell(View(v, 0, n)), e['r']], e
                def o(I, e, t, n=n, rev=rev):
                    if not 1 <= n <= 4:
                        return ERR
                    bs = e['b'][::-1] if rev else e['b']
                    s = 0
                    for i, x in enumerate(bs):
                        s = add(s, scale(x, 1 << (8 * (4 - n + i))))
                    return [('the result for %d bytes' % n, e['r'], I.wrap(s, (32, True)))]
                check_fn(c, P, f, b, o)

    # -- clipping and normalisation
    for f in fn('ClipDoubleToInt32'):
        def b(I):
            e = {'v': I.fresh('double', 'input'), 'r': Cell(UNINIT)}
            return None, [Cell(e['v']), e['r']], e
        def o(I, e, t):
            v = e['v']
            if isnan(I, v):
                return ERR
            if lt(I, float(2**31 - 1), v):
                w = 2**31 - 1
            elif lt(I, v, float(-2**31)):
                w = -2**31
            else:
                w = op('trunc', (v,), -2**31, 2**31 - 1)
            return [('the result', e['r'], w)]
        check_fn(c, P, f, b, o)
    for f in fn('NormalizedFloatingPointToInt32'):
        def b(I, f=f):
            e = {'v': I.fresh(f['p'][0][2], 'value'), 'r': Cell(UNINIT)}
            return None, [Cell(e['v']), e['r']], e
        def o(I, e, t):
            v = e['v']
            if isnan(I, v) or I.decide(I.rel('==', v, INF)) or I.decide(I.rel('==', v, -INF)):
                return ERR
            if le(I, v, -1.0):
                w = -2**31
            elif lt(I, (2**31 - 1) / 2.0**31, v):
                w = 2**31 - 1
            else:
                w = op('trunc', (scale(v, 2.0**31),), -2**31, 2**31 - 1)
            return [('the result', e['r'], w)]
        check_fn(c, P, f, b, o, key='%s|%s' % (f['f'], 'NormalizedFloatingPointToInt32<%s>' % f['p'][0][2]))
    for f in fn('Int32ToNormalizedFloatingPoint'):
        def b(I):
            e = {'v': var('value', -2**31, 2**31 - 1)}
            return None, [Cell(e['v'])], e
        def o(I, e, t, rt=f['ret'] if 'ret' in f else ''):
            w = scale(e['v'], 2.0**-31)
            return [('the result', t.get('ret'), I.fcast(w, f['r'] if 'r' in f else 'double'))]
        check_fn(c, P, f, b, o, key=f['f'] + '|' + f['k'][:60], tol=0.0)
    c.require('functions', 6)
    return c
