"""No mutable state outside objects."""
import re
import check, db, ir

RULE = ('every variable with static storage duration (namespace scope, class static, function-local static) in the library is '
        'immutable: const/constexpr, or a const-qualified absl::NoDestructor, and no const_cast or mutable member reaches it; so two '
        'decoders or encoders in one process cannot influence each other')

# command line flags of the executables: written once by ParseCommandLine before any object exists
MAIN_OK = re.compile(r'(_main|main)\.cc$')


def immutable_type(t):
    t = t.strip()
    if t.endswith('*'):
        return None if t.startswith('const ') else False   # fixed unless reassigned somewhere
    if t.endswith('&'):
        return immutable_type(t[:-1]) or t.startswith('const ')
    if t.endswith('*const'):
        return t.startswith('const ')
    return t.startswith('const ') or t.endswith(' const') or t.endswith('*const')


def run():
    P = db.load()
    c = check.Check('C04', RULE, ['state inside the codec libraries (libopus, fdk-aac, libFLAC, expat) is out of scope',
                                  'flags of the command line programs are written once at start-up'])
    assigned = set()
    for f in P.fn.values():
        if not f.get('b'):
            continue
        for n in ir.fn_nodes(f):
            tgt = None
            if n[0] == 'asg' or (n[0] == 'un' and n[3] in ('++', '--', 'p++', 'p--', '&')):
                tgt = ir.strip(n[4])
            if tgt and tgt[0] == 'ref':
                assigned.add(tgt[4])
    for g in P.glob.values():
        f = g['f']
        if f.startswith('/') or MAIN_OK.search(f):
            continue
        c.count('static objects')
        a = g['a'].split()
        ok = 'constexpr' in a or 'const' in a or immutable_type(g['t'])
        if immutable_type(g['t']) is None and g['n'] not in assigned:
            ok = True
        if 'absl::Flag<' in g['t']:
            ok = True
        r = P.rec_by_q.get(g['t'].replace('const ', '').strip())
        r = r[0] if r else None
        mut = [x for x in (r or {}).get('fs', []) if 'mutable' in x['a'].split()] if isinstance(r, dict) else []
        c.oblige(ok and not mut, '%s:%s %s : %s' % (f, g['l'], g['n'], g['t'][:70]) if c.obligations % 11 == 0 else None)
        if not ok or mut:
            c.violation('%s|%s' % (f, g['n']), f, g['l'], 'static variable %s of type %s is mutable: state shared by every decoder/encoder of the process' % (g['n'], g['t'][:90]))
    c.require('static objects', 150)
    return c
