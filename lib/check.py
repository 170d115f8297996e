"""Common driver of the checks: counting of instances, reports, known findings, evidence, exit status."""
import mmap
import json, os, pickle, sys, time, traceback
import db

VERIF = db.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')


def merge(a, b):
    for k, v in b.items():
        if k not in a:
            a[k] = v
        elif isinstance(a[k], dict) and isinstance(v, dict):
            merge(a[k], v)
        elif isinstance(a[k], (int, float)) and isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] += v
        elif isinstance(a[k], list) and isinstance(v, list):
            a[k] += [x for x in v if x not in a[k]]


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.counts = {}
        self.samples = []
        self.violations = []      # (key, file, line, message)
        self.assumptions = list(assumptions)
        self.obligations = 0
        self.discharged = 0
        self.notes = {}
        self.broken = []
        self.shared = mmap.mmap(-1, 8)
        self.known = [k['key'] for k in json.load(open(KNOWN))['findings'] if isinstance(k, dict) and k.get('property') == pid
                      and k.get('status') == 'open'] if os.path.exists(KNOWN) else []

    # -- instances -------------------------------------------------------------------------------
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def oblige(self, ok, sample=None):
        """One obligation of the rule, discharged or not."""
        self.obligations += 1
        if ok:
            self.discharged += 1
        if sample is not None and len(self.samples) < 40:
            self.samples.append(sample)

    def violation(self, key, file, line, msg):
        """key identifies the construct independently of line numbers."""
        if key in [v[0] for v in self.violations]:
            return
        self.violations.append((key, file, line, msg))
        if key not in self.known:
            self.shared[0] = min(255, self.shared[0] + 1)

    def enough(self, n=6):
        """Whether violations enough to report have been found, by any worker."""
        return self.shared[0] >= n

    def require(self, what, minimum):
        """Fail as analysis-broken when a rule has fewer instances than were confirmed by reading."""
        n = self.counts.get(what, 0)
        if n < minimum:
            self.broken.append('%s: %d instances analysed, at least %d expected' % (what, n, minimum))

    def selftest(self, ok, what):
        if not ok:
            self.broken.append('self-test failed: ' + what)

    def fork(self, items, worker, jobs=None):
        """worker(item) for every item, split over processes; what each adds to this check is merged."""
        items = list(items)
        jobs = min(jobs or min(8, os.cpu_count() or 1), len(items))
        if jobs <= 1:
            for x in items:
                worker(x)
            return
        kids = []
        sys.stdout.flush()
        # a queue of the items' numbers, from which every worker takes the next
        qr, qw = os.pipe()
        batch = 1 + len(items) // 8000
        for x in range(0, len(items), batch):
            os.write(qw, x.to_bytes(4, 'little'))
        os.close(qw)

        def queue():
            while True:
                d = os.read(qr, 4)
                if not d:
                    return
                x = int.from_bytes(d, 'little')
                yield from items[x:x + batch]
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.counts, self.samples, self.violations, self.notes, self.broken = {}, [], [], {}, []
                    self.obligations = self.discharged = 0
                    for x in queue():
                        if self.enough():
                            break
                        try:
                            worker(x)
                        except (Exception, RecursionError) as e:
                            # no rule for a construct of this tree: this part is not decided
                            traceback.print_exc()
                            self.count('parts not decided')
                            self.notes.setdefault('not decided', {})['%s: %s' % (str(x)[:60], repr(e)[:100])] = 1
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((self.counts, self.samples, self.violations, json.loads(json.dumps(self.notes, default=str)), self.broken,
                                     self.obligations, self.discharged), f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        os.close(qr)
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if st != 0 or not data:
                self.broken.append('a worker failed')
                continue
            cn, sa, vi, no, br, ob, di = pickle.loads(data)
            for k, v in cn.items():
                self.count(k, v)
            self.samples = (self.samples + sa)[:40]
            for v in vi:
                self.violation(*v)
            merge(self.notes, no)
            self.broken += br
            self.obligations += ob
            self.discharged += di

    # -- end -------------------------------------------------------------------------------------
    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN))['findings'] if isinstance(k, dict) and k['property'] == self.pid and k.get('status') == 'open']
        new, old = [], []
        for v in self.violations:
            (old if any(k['key'] == v[0] for k in known) else new).append(v)
        for key, f, l, m in old:
            print('KNOWN-FINDING: property=%s %s:%s %s' % (self.pid, f, l, m))
        for key, f, l, m in new:
            print('%s:%s: [%s] %s' % (f, l, self.pid, m))
        evd = os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        rep = os.path.join(evd, self.pid + '.violations.txt')
        if new:
            with open(rep, 'w') as f:
                for key, fl, l, m in new:
                    f.write('%s:%s: %s\n    rule: %s\n    construct: %s\n' % (fl, l, m, self.rule, key))
        elif os.path.exists(rep):
            os.unlink(rep)
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        ev = {
            'property': self.pid,
            'tier': 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick',
            'seed': seed,
            'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the resolved program (clang AST of every non-test translation unit of /repo, or Python syntax trees). Rule: ' + self.rule,
                'obligations': self.obligations,
                'discharged': self.discharged,
                'checker_cmd': './run ' + self.pid,
                'instances': self.counts,
                'samples': self.samples,
                'notes': self.notes,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(rep, VERIF)))
            return 1
        if self.broken:
            for b in self.broken:
                print('ANALYSIS-BROKEN: ' + b)
            return 2
        print('%s: held (%d obligations, %s)' % (self.pid, self.obligations, ', '.join('%s=%s' % kv for kv in sorted(self.counts.items()))))
        return 0


def main(pid):
    sys.setrecursionlimit(20000)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    try:
        mod = __import__(pid.replace('-', '_'))
        c = mod.run()
        rc = c.finish()
    except db.AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN: internal error')
        rc = 3
    return rc
