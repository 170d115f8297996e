"""The three checks of OBU reading and writing: they share the interpretation and report one class of mismatch each."""
import time, os
import check, db, obukinds, oburun


def run(pid, cls, rule, assumptions, floors):
    P = db.load()
    c = check.Check(pid, rule, assumptions)
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    items = [(k, o) for k in obukinds.kinds(P) for o in k.opts]
    # the largest first
    items.sort(key=lambda x: -len(x[0].opts))

    def work(it):
        k, o = it
        t = time.time()
        n = c.counts.get('partitions', 0)
        if deep:
            oburun.run_item(c, P, k, o, (cls,), max_paths=max(60000, k.paths), seconds=500, total=780)
        else:
            oburun.run_item(c, P, k, o, (cls,), max_paths=o.get('paths') or 2500, seconds=60, total=300)
        c.notes.setdefault('seconds', {})['%s %s' % (k.name, k.opts.index(o))] = (round(time.time() - t, 1), c.counts.get('partitions', 0) - n)
        c.count('kinds and restrictions')
    c.fork(items, work)
    if not c.enough(1):
        for what, n in floors:
            c.require(what, n)
    return c
