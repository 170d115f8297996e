"""Sample processors and decoders obey their life cycle and never pass on stale or misshapen frames."""
import check, db, ir, absx, absmodels, spec
from absval import *
from absval import T
from contract import *

RULE = ('in every history of PushFrame/Flush/GetOutputSamplesAsSpan operations over every channel count, frame shape and outcome of the '
        'derived class, a call out of order or with a frame of the wrong shape is refused before the derived class sees it, the derived '
        'class sees exactly the frame that was pushed after the previous output was cleared, its result is returned, and the output span '
        'shows the samples of the latest call only (typestate product of the abstract object with the life-cycle automaton)')

CLS = 'iamf_tools::SampleProcessorBase'


def frame(I, tag, n):
    """A pushed frame: span of n spans, sizes unknown."""
    chans = []
    for c in range(n):
        v = Vec('double', [], var('%s.len%d' % (tag, c), 0, 1 << 20), lambda i, c=c: var('%s[%d][%s]' % (tag, c, i), -1.0, 1.0, True))
        chans.append(Cell(View(v, 0, v.n)))
    return View(Vec('absl::Span<const double>', chans), 0, n)


class Bad(Exception):
    pass


def fails(I, msg):
    p = spec.feasible(I)
    if p:
        raise Bad(msg + ' (e.g. %s)' % p)
    I.und = getattr(I, 'und', 0) + 1


def run():
    P = db.load()
    c = check.Check('C17', RULE, ['a derived processor only changes the output buffers from inside its own PushFrameDerived/FlushDerived'])
    rec = [r for r in P.rec.values() if r['q'] == CLS]
    ctor = [f for f in P.fn.values() if f.get('c') == (rec[0]['k'] if rec else None) and f['n'] == 'SampleProcessorBase' and len(f['p']) == 3]
    m = {n: [f for f in P.fn.values() if f['q'] == CLS + '::' + n and f.get('b')] for n in ('PushFrame', 'Flush', 'GetOutputSamplesAsSpan', 'GetNumChannels')}
    if not (rec and ctor and m['PushFrame'] and m['Flush'] and m['GetOutputSamplesAsSpan']):
        c.notes['not found'] = 'SampleProcessorBase'
        return c
    push, flush, get = m['PushFrame'][0], m['Flush'][0], m['GetOutputSamplesAsSpan'][0]
    file = push['f']

    def work(item):
        nch, L, first = item

        def outs(o):
            v = o.f.get('output_channel_time_samples_')
            return v.v if v else None

        def derived(kind):
            def g(I, n, fr, on, args):
                o = absmodels.obj(I, on, fr)
                if isinstance(o, Ptr):
                    o = o.cell.v
                fv = I.ev(args[0], fr) if args else None
                ov = outs(o)
                sizes = [I.size(I.at(ov, i).v) for i in range(nch)] if isinstance(ov, Vec) else None
                I.calls.append((kind, fv, sizes))
                # the derived class produces samples (or none) and may fail
                k = len(I.calls)
                produce = nch > 0 and I.free('derived class outputs samples')
                I.produced = produce
                if isinstance(ov, Vec) and produce:
                    for i in range(nch):
                        w = I.at(ov, i).v
                        if isinstance(w, Vec) and is_num(I.concrete(w.n)):
                            w.n = I.concrete(w.n)
                            while len(w.items) < w.n:
                                w.items.append(None)
                            w.items.append(Cell(var('out%d.%d' % (k, i), -1.0, 1.0, True)))
                            w.n += 1
                if I.free('derived %s succeeds' % kind):
                    return StatusV(True)
                return StatusV(False, 2, 'derived')
            return g

        models = {CLS + '::PushFrameDerived': derived('push'), CLS + '::FlushDerived': derived('flush')}
        I = absx.Interp(P, K=nch + 2, models=models, max_steps=400000)

        def scenario(I):
            I.calls = []
            I.produced = False
            maxin = var('max_input', 0, 1 << 20)
            o = Obj(rec[0]['k'])
            I.run_ctor(ctor[0], o, [Cell(maxin), Cell(nch), Cell(var('max_output', 0, 1 << 20))])
            o.cls = rec[0]['k']
            flushed = False
            trace = []
            fresh_out = None                 # what the output must be: list of lists of terms
            exp = [[] for _ in range(nch)]
            try:
                for step in range(L):
                    opn = first[step] if step < len(first) else 'push' if I.free('step %d pushes' % step) else 'flush' if I.free('step %d flushes' % step) else 'get'
                    ncalls = len(I.calls)
                    if opn == 'get':
                        trace.append('GetOutputSamplesAsSpan')
                        r = I.call_fn(get, o, [])
                        if isinstance(r, Cell):
                            r = r.v
                        if len(I.calls) != ncalls:
                            fails(I, 'GetOutputSamplesAsSpan runs the derived processor')
                        if exp is not None:
                            d = compare_values(I, r, exp)
                            if d and d[0]:
                                fails(I, 'GetOutputSamplesAsSpan after %s shows a stale or wrong frame: the span is %s' % (' '.join(trace[:-1]) or 'construction', d[1]))
                            elif d:
                                I.und = getattr(I, 'und', 0) + 1
                        continue
                    if opn == 'push':
                        k = nch if I.free('step %d right channel count' % step) else (nch + 1 if I.free('more channels') else nch - 1)
                        if k < 0:
                            raise absx.Infeasible()
                        fv = frame(I, 'in%d' % step, k)
                        trace.append('PushFrame(%d of %d channels)' % (k, nch))
                        r = I.call_fn(push, o, [Cell(fv)])
                    else:
                        trace.append('Flush')
                        r = I.call_fn(flush, o, [])
                    if isinstance(r, Cell):
                        r = r.v
                    new = I.calls[ncalls:]
                    hist = ' '.join(trace)
                    valid = not flushed
                    if opn == 'push' and valid:
                        valid = k == nch
                        if valid:
                            lens = [I.at(fv, i).v.n for i in range(nch)]
                            for x in lens:
                                if valid and not (I.decide(I.rel('==', x, lens[0])) and I.decide(I.rel('<=', x, maxin))):
                                    valid = False
                                    trace[-1] += '[bad frame length]'
                    hist = ' '.join(trace)
                    if not valid:
                        if r.ok:
                            fails(I, 'accepts %s' % hist)
                        if new:
                            fails(I, 'the derived class is run for a refused call: %s' % hist)
                        exp = None if not flushed else exp       # a refused frame leaves the output unspecified
                    else:
                        if len(new) != 1 or new[0][0] != opn:
                            fails(I, 'the derived %s is run %d times in %s' % (opn, len(new), hist))
                        if opn == 'push' and new:
                            g = new[0][1]
                            d = compare_values(I, I.size(g), nch) if g is not None else (True, 'missing')
                            if d and d[0]:
                                fails(I, 'the frame handed to the derived class has %s channels' % d[1])
                            for i in range(nch):
                                a, b = I.at(g, i).v, I.at(fv, i).v
                                for x, y in ((I.size(a), I.size(b)), (I.at(a, 0).v, I.at(b, 0).v)):
                                    d = compare_values(I, x, y)
                                    if d and d[0]:
                                        fails(I, 'the derived class gets another frame than was pushed: %s' % d[1])
                        if new and new[0][2] is not None:
                            for s in new[0][2]:
                                d = compare_values(I, s, 0)
                                if d and d[0]:
                                    fails(I, 'output of an earlier call is still there when the derived class runs in %s' % hist)
                        want = [x for x in I.trail if isinstance(x[0], tuple) and x[0][1].startswith('derived %s' % opn)]
                        ok = want[-1][1] if want else True
                        if r.ok != ok:
                            fails(I, '%s returns %s although the derived class %s' % (hist, 'success' if r.ok else 'an error', 'succeeded' if ok else 'failed'))
                        if opn == 'flush':
                            flushed = True
                        exp = [[var('out%d.%d' % (len(I.calls), i), -1.0, 1.0, True)] if I.produced else [] for i in range(nch)]
                return None
            except Bad as e:
                return str(e)

        n = 0
        for oc, v in I.explore(scenario, 60000):
            n += 1
            c.oblige(not (oc == 'ok' and v), None)
            if oc == 'ok' and v:
                c.violation('%s|SampleProcessorBase' % file, file, push['l'], 'SampleProcessorBase with %d channels: %s' % (nch, v))
            elif oc == 'abort':
                p = spec.feasible(I)
                if p:
                    c.violation('%s|SampleProcessorBase abort' % file, file, push['l'], 'SampleProcessorBase with %d channels: %s at %s' % (nch, v, p))
            elif oc in ('unsupported', 'cut'):
                c.count('undecided histories')
                c.notes.setdefault('undecided', {})[str(v)[:100]] = 1
        c.count('histories', n)
        c.count('undecided', getattr(I, 'und', 0))
        if I.unmodelled:
            c.notes.setdefault('unmodelled', {}).update(I.unmodelled)
    ops = ('push', 'flush', 'get')
    c.fork([(2, 4, (a, b, d)) for a in ops for b in ops for d in ops] + [(n, 2, (a,)) for n in (0, 3) for a in ops] + [(1, 5, (a, b, d)) for a in ops for b in ops for d in ops], work)
    c.require('histories', 100)
    return c
