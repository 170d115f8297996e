"""Same input, same output: no dependence on hash order, time, addresses or random numbers."""
import re
import check, db, ir

RULE = ('(a) inside a loop over an unordered container nothing order-sensitive happens to state that outlives the loop: no append to an '
        'ordered sequence or string that is not sorted afterwards in the same function, no write to a bit buffer or stream; '
        '(b) no clock, random source, thread or process identity, environment variable or pointer-to-integer conversion is read outside the listed places')

HASH = re.compile(r'^(flat_hash_(map|set)|unordered_(map|set|multimap|multiset)|node_hash_(map|set))<')
SEQ = re.compile(r'^(std::(vector|list|deque|basic_string|forward_list)|absl::(InlinedVector|FixedArray))<')
APPEND = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'append', 'operator+=', 'insert'}
SORT = re.compile(r'^(std::(ranges::)?(stable_)?sort|absl::c_(stable_)?sort|std::list::sort|std::(ranges::)?__sort.*)')
SINK_T = re.compile(r'(WriteBitBuffer|std::basic_ostream<|std::basic_ofstream<|std::basic_ostringstream<)')
IMPURE = re.compile(r'^(std::)?(rand|srand|random|drand48|time|clock|getpid|gettid|getenv|secure_getenv|clock_gettime|gettimeofday|localtime|gmtime|mktime|strftime|tmpnam|tmpfile|mkstemp)$'
                    r'|^std::random_device::|^std::chrono::.*::now$|^absl::(Now|GetCurrentTimeNanos|BitGen|InsecureBitGen|ToUnix)|^absl::(Uniform|Bernoulli|Gaussian)$|^std::this_thread::get_id|^std::filesystem::temp_directory_path$')
# (file suffix, what) that is fine, with the reason
EXC_IMPURE = {
    ('cli/encoder_main.cc', 'std::filesystem::temp_directory_path'): 'scratch file location only',
    ('adm/wav_file_splicer.cc', 'std::filesystem::temp_directory_path'): 'scratch file location only',
}


def bare(t):
    return re.sub(r'^(const )?(absl::|std::|google::protobuf::)?', '', t.strip())


def is_hash(t):
    return bool(HASH.match(bare(t)))


def root(n):
    n = ir.strip(n)
    while n:
        if n[0] == 'ref':
            return ('v', n[3])
        if n[0] == 'mem':
            if not n[3]:
                return ('this', n[4])
            if ir.strip(n[3]) and ir.strip(n[3])[0] == 'this':
                return ('this', n[4])
            n = ir.strip(n[3]); continue
        if n[0] in ('call',) and n[4] is not None:
            n = ir.strip(n[4]); continue
        if n[0] == 'un' and n[3] == '*':
            n = ir.strip(n[4]); continue
        if n[0] == 'idx':
            n = ir.strip(n[3]); continue
        return None
    return None


def declared(body):
    out = set()
    for n in ir.walk(body):
        if n[0] == 'decl':
            out |= {v[0] for v in n[2]}
        if n[0] == 'rfor':
            v = n[2]
            out.add(v[0] if isinstance(v, list) and v and isinstance(v[0], int) else None)
    return out


def log_stream(n):
    """Is this << chain a log statement?"""
    for x in ir.walk(n):
        if x[0] in ('call', 'ctor') and x[3] and ('absl_model::' in x[3][1] or 'log_internal' in x[3][1]):
            return True
    return False


def key_in_place(obj, body_ids):
    """A sequence reached through an element of a keyed container: order of the outer loop does not matter if keyed by the element."""
    n = ir.strip(obj)
    while n:
        if n[0] == 'call' and n[3] and n[4] is not None and n[3][1].split('::')[-1] in ('operator[]', 'at'):
            return True
        if n[0] == 'idx':
            return True
        if n[0] == 'mem' and n[3]:
            n = ir.strip(n[3]); continue
        if n[0] == 'call' and n[4] is not None:
            n = ir.strip(n[4]); continue
        return False
    return False


def run():
    P = db.load()
    c = check.Check('C05', RULE, ['functions that only log are exempt', 'floating-point summation order over hash containers is decided under (a) only for appended sequences'])
    for f in P.fn.values():
        if not f.get('b') or f['f'].startswith('/'):
            continue
        loops = []
        for n in ir.fn_nodes(f):
            if n[0] == 'rfor':
                t = ir.typ(n[3]) or ir.typ(ir.strip(n[3]))
                if is_hash(t):
                    loops.append((n, n[4], n[3]))
            elif n[0] == 'for':
                for x in ir.walk(n[2]):
                    if x[0] == 'call' and x[3] and x[3][1].split('::')[-1] in ('begin', 'cbegin') and x[4] is not None and is_hash(ir.typ(x[4])):
                        loops.append((n, n[5], x[4]))
            elif n[0] == 'call' and n[3] and IMPURE.search(n[3][1]):
                if any(f['f'].endswith(k[0]) and n[3][1] == k[1] for k in EXC_IMPURE):
                    continue
                c.violation('%s|%s|%s' % (f['f'], f['q'], n[3][1]), f['f'], n[1], '%s reads %s: the result can differ between runs on the same input' % (f['q'], n[3][1]))
            elif n[0] in ('ctor',) and n[3] and IMPURE.search(n[3][1]):
                c.violation('%s|%s|%s' % (f['f'], f['q'], n[3][1]), f['f'], n[1], '%s uses %s: the result can differ between runs on the same input' % (f['q'], n[3][1]))
            elif n[0] == 'cast' and n[3] == 'PointerToIntegral':
                c.violation('%s|%s|ptr2int' % (f['f'], f['q']), f['f'], n[1], '%s turns an address into a number' % f['q'])
            c.count('expressions examined')
        if not loops:
            continue
        sorted_roots = set()
        for n in ir.fn_nodes(f):
            if n[0] == 'call' and n[3] and SORT.match(n[3][1]):
                for a in ([n[4]] if n[4] is not None else []) + n[5]:
                    r = root(a) if a is not None else None
                    if r:
                        sorted_roots.add(r)
        for n, body, over in loops:
            c.count('loops over unordered containers')
            ids = declared(body) | declared(n)
            ok = True
            for x in ir.walk(body):
                if x[0] != 'call' or not x[3]:
                    continue
                nm = x[3][1].split('::')[-1]
                obj = x[4] if x[4] is not None else (x[5][0] if nm == 'operator+=' and x[5] else None)
                if nm in APPEND and obj is not None and SEQ.match(re.sub('^const ', '', ir.typ(ir.strip(obj)) or '')):
                    r = root(obj)
                    if r is None or (r[0] == 'v' and r[1] in ids) or r in sorted_roots or key_in_place(obj, ids):
                        continue
                    if is_exempt(f, x):
                        continue
                    ok = False
                    c.violation('%s|%s|%s|%s' % (f['f'], f['q'], ir.show(over), ir.show(obj)), f['f'], x[1],
                                'in %s, %s is filled in the iteration order of the unordered container %s and not sorted' % (f['q'], ir.show(obj), ir.show(over)))
                elif nm == 'operator<<' and not log_stream(x):
                    a0 = x[4] if x[4] is not None else (x[5][0] if x[5] else None)
                    if a0 is not None and SINK_T.search(ir.typ(ir.strip(a0)) or ''):
                        r = root(a0)
                        if r and not (r[0] == 'v' and r[1] in ids):
                            ok = False
                            c.violation('%s|%s|%s|stream' % (f['f'], f['q'], ir.show(over)), f['f'], x[1],
                                        'in %s a stream is written in the iteration order of the unordered container %s' % (f['q'], ir.show(over)))
                else:
                    for a in ([x[4]] if x[4] is not None else []) + x[5]:
                        t = ir.typ(ir.strip(a)) if a is not None and ir.strip(a) else ''
                        if t and SINK_T.search(t) and nm not in ('operator<<',):
                            r = root(a)
                            if r and not (r[0] == 'v' and r[1] in ids) and 'WriteBitBuffer' in t:
                                ok = False
                                c.violation('%s|%s|%s|write' % (f['f'], f['q'], ir.show(over)), f['f'], x[1],
                                            'in %s a bit buffer is written in the iteration order of the unordered container %s' % (f['q'], ir.show(over)))
            c.oblige(ok, '%s:%s %s over %s' % (f['f'], n[1], f['q'], ir.show(over)))
    c.require('loops over unordered containers', 40)
    return c


def is_exempt(f, x):
    return False
