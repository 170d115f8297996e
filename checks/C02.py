"""Results that may be absent are never used unchecked."""
import check, db, ir, absentflow as af

RULE = ('for every call whose result can be a null pointer, an empty optional or an end iterator (decided from the callee\'s own '
        'return statements), and every pointer or optional that starts out absent, no dereference of the result is reachable on the '
        'paths where it is absent; storing it in a container counts as a use unless the element is tested first')


def run():
    P = db.load()
    c = check.Check('C02', RULE, ['operator[] on sequences and raw pointer fields set by constructors are outside this rule',
                                  'LebGenerator::Create in its default minimum-size mode cannot fail (its own switch has no failing path there)'])
    may = af.may_absent(P)
    c.count('functions that can return an absent result', len(may))
    for f in P.fn.values():
        if not f.get('b') or f['f'].startswith('/'):
            continue
        for s, k in af.sites(P, f, may):
            c.count({'it': 'iterator lookups', 'ptr': 'pointer results', 'opt': 'optional results'}[k])
            o = af.uses(f, s, k, P)
            c.oblige(not o, '%s:%s %s: %s' % (f['f'], s[1], f['q'], ir.show(s)[:80]) if c.obligations % 9 == 0 else None)
            for l in sorted(o)[:1]:
                c.violation('%s|%s|%s' % (f['f'], f['q'], ir.show(s)[:60]), f['f'], l,
                            'in %s the result of %s (line %s) is used on a path where it is %s' % (
                                f['q'], ir.show(s)[:80], s[1], {'it': 'the end iterator', 'ptr': 'null', 'opt': 'empty'}[k]))
    c.require('iterator lookups', 60)
    c.require('pointer results', 25)
    return c
