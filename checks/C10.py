"""Descriptors are collected completely and exactly once, or more data is asked for."""
import itertools
import os
import check, db, ir, absx, absmodels, spec
from absval import *
from absval import T
from contract import *
import demux
from demux import *

RULE = ('abstract interpretation of the descriptor parser over sequences of descriptor OBUs (typestate of the buffer and of what has been collected): exactly the '
        'understood descriptors are kept, the rest is passed over, and a cut-off sequence leaves the buffer where it was and asks for more')

THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'

MONO = ((0, 1, 0),)
MENU = {
    'codec 1': (codec(1, 8), ('codec', 1, 8)),
    'codec 2': (codec(2, 16), ('codec', 2, 16)),
    'codec 1 again': (codec(1, 32), ('codec', 1, 32)),
    'codec 1 redundant': (codec(1, 8, red=1), ('codec', 1, 8)),
    'a tiny codec config': (obu(0, [7, 105, 112]), None),
    'an empty codec config': (obu(0, []), None),
    'a codec of sample rate 1': (codec(3, 8, rate=1), None),
    'element 10': (element(10, 1, [0], layers=MONO), ('element', 10, 1, [0])),
    'element 10 again': (element(10, 1, [4], layers=MONO), ('element', 10, 1, [4])),
    'element 11': (element(11, 2, [300], layers=MONO), ('element', 11, 2, [300])),
    'element 11 of codec 1': (element(11, 1, [5], layers=MONO), ('element', 11, 1, [5])),
    'an element of a missing codec': (element(12, 9, [6], layers=MONO), ('element', 12, 9, [6])),
    'an element with too few substreams': (element(13, 1, [7], layers=((0, 1, 0), (1, 1, 0))), None),
    'mix 5': (mix(5, [10]), ('mix', 5, [10])),
    'mix 6': (mix(6, [10, 11]), ('mix', 6, [10, 11])),
    'a mix of a missing element': (mix(7, [10, 99]), ('mix', 7, [10, 99])),
    'a mix of two parts': (mix(8, [10], 0, 100, [11]), ('mix', 8, [10, 11])),
    'a metadata OBU': (obu(24, [1, 2, 3, 4]), None),
    'a reserved OBU': (obu(27, [1] * 130), None),
    'an empty reserved OBU': (obu(30, []), None),
    'a redundant header': (ia(1), ('ia', 0, True)),
}
ENDS = {
    'a delimiter': delimiter(), 'a frame': frame(0, [1, 2, 3]), 'a frame of an explicit substream': frame(300, [4]), 'a parameter block': block(70, [0]),
    'another header': ia(),
}


def run():
    P = db.load()
    c = check.Check('C10', RULE, ['sequences of up to three descriptors after the header, and longer ones of fixed composition'])
    L = Lib(P)
    where = L.fn('DescriptorObuParser::ProcessDescriptorObus')

    def oracle(names):
        cs, es, ms = {}, {}, []
        for n in names:
            w = MENU[n][1]
            if w is None:
                continue
            if w[0] == 'codec':
                cs.setdefault(w[1], w[2])
            elif w[0] == 'element' and w[2] in cs:
                es.setdefault(w[1], (w[2], w[3]))
            elif w[0] == 'mix' and all(e in es for e in w[2]):
                ms.append((w[1], w[2]))
        return cs, es, ms

    def parse(I, rb, exact):
        ins = Cell(UNINIT)
        r = L.call(I, 'DescriptorObuParser::ProcessDescriptorObus', None, int(bool(exact)), rb, ins)
        if not isinstance(r, SOr):
            raise absx.Unsupported('result')
        return good(r), r, flag(I, ins)

    def judge(I, d, names, profile, nm):
        cs, es, ms = oracle(names)
        f = d.f
        got = {int(I.concrete(k)): v for k, v in entries(f['codec_config_obus'].v)}
        if set(got) != set(cs):
            raise Bad('the codec configs %s are kept instead of %s (%s)' % (sorted(got), sorted(cs), nm))
        for k, v in got.items():
            n = I.concrete(L.call(I, 'CodecConfigObu::GetNumSamplesPerFrame', v))
            if int(I.concrete(L.call(I, 'CodecConfigObu::GetCodecConfigId', v))) != k or n != cs[k]:
                raise Bad('codec config %d is another one, with frames of %s (%s)' % (k, n, nm))
        ge = {int(I.concrete(k)): v for k, v in entries(f['audio_elements'].v)}
        if set(ge) != set(es):
            raise Bad('the audio elements %s are kept instead of %s (%s)' % (sorted(ge), sorted(es), nm))
        for k, v in ge.items():
            o = obj(v.f['obu'])
            if I.concrete(L.call(I, 'AudioElementObu::GetAudioElementId', o)) != k or [int(I.concrete(x)) for x in ints(I, o.f['audio_substream_ids_'].v)] != es[k][1]:
                raise Bad('audio element %d is another one (%s)' % (k, nm))
            cc = obj(v.f['codec_config'])
            if int(I.concrete(L.call(I, 'CodecConfigObu::GetCodecConfigId', cc))) != es[k][0] or I.concrete(L.call(I, 'CodecConfigObu::GetNumSamplesPerFrame', cc)) != cs[es[k][0]]:
                raise Bad('audio element %d is not tied to its codec config %d (%s)' % (k, es[k][0], nm))
            if sorted(int(I.concrete(x)) for x, _ in entries(v.f['substream_id_to_labels'].v)) != sorted(es[k][1]):
                raise Bad('the substreams of audio element %d have no channels (%s)' % (k, nm))
        gm = []
        m = f['mix_presentation_obus'].v
        for i in range(int(I.concrete(I.size(m)))):
            o = obj(I.at(m, i))
            gm.append(int(I.concrete(L.call(I, 'MixPresentationObu::GetMixPresentationId', o))))
        if gm != [x[0] for x in ms]:
            raise Bad('the mix presentations %s are kept instead of %s (%s)' % (gm, [x[0] for x in ms], nm))
        p = I.concrete(L.call(I, 'IASequenceHeaderObu::GetPrimaryProfile', obj(f['ia_sequence_header'])))
        if p != profile:
            raise Bad('the sequence header has profile %s instead of %s (%s)' % (p, profile, nm))

    def complete(names, end, exact, first, nm, cut=None, lead=0, profile=0):
        def scen(I):
            data = first + [b for n in names for b in MENU[n][0]]
            tail = [] if end is None else ENDS[end]
            rb = L.stream(I)
            if lead:
                L.push(I, rb, [3] * lead)
                L.call(I, 'ReadBitBuffer::IgnoreBytes', rb, lead)
            at = L.num(I, 'ReadBitBuffer::Tell', rb)
            whole = data + tail
            if cut is not None:
                L.push(I, rb, whole[:cut])
                ok, _, more = parse(I, rb, exact)
                if ok or not more:
                    raise Bad('%s when only %d of %d bytes are there (%s)' % ('the descriptors are reported complete' if ok else 'an error is reported instead of asking for more', cut, len(whole), nm))
                if L.num(I, 'ReadBitBuffer::Tell', rb) != at:
                    raise Bad('the buffer is not back at the beginning when data is missing (%s)' % nm)
                L.push(I, rb, whole[cut:])
            else:
                L.push(I, rb, whole)
            ok, r, more = parse(I, rb, exact)
            if not ok or more:
                raise Bad('complete descriptors are refused%s (%s)' % (' as incomplete' if more else '', nm))
            if L.num(I, 'ReadBitBuffer::Tell', rb) != at + 8 * len(data):
                raise Bad('the buffer is at byte %d instead of %d, after the descriptors (%s)' % ((L.num(I, 'ReadBitBuffer::Tell', rb) - at) // 8, len(data), nm))
            judge(I, obj(r.cell), names, profile, nm)
        return scen

    def refused(first, names, tail, exact, nm):
        def scen(I):
            rb = L.stream(I)
            L.push(I, rb, first + [b for n in names for b in MENU[n][0]] + tail)
            at = L.num(I, 'ReadBitBuffer::Tell', rb)
            ok, _, more = parse(I, rb, exact)
            if ok or more:
                raise Bad('%s (%s)' % ('accepted' if ok else 'more data is asked for', nm))
            if exact == 'tu' and L.num(I, 'ReadBitBuffer::Tell', rb) != at:
                raise Bad('the buffer is not back at the beginning (%s)' % nm)
        return scen

    key = 'iamf/cli/descriptor_obu_parser.cc|ProcessDescriptorObus|'

    # every sequence
    names = list(MENU)
    seqs = [()] + [(a,) for a in names] + [('codec 1', a, b) for a in names for b in names] + [('codec 1', 'element 10', a) for a in names]
    seqs += [('codec 1', 'codec 2', a, b) for a in ('element 10', 'element 11', 'element 11 of codec 1', 'element 10 again') for b in names]
    seqs += [('codec 1', 'codec 2', 'element 10', 'element 11', a, b) for a in ('mix 5', 'mix 6', 'a mix of a missing element', 'a mix of two parts', 'a reserved OBU') for b in names]
    seqs += [(a, 'codec 1', b, 'element 10', 'mix 5') for a in names[4:] for b in ('a tiny codec config', 'an element of a missing codec', 'codec 1 again', 'element 10')]
    if THOROUGH:
        seqs += list(itertools.product(names, repeat=3))
    seqs = list(dict.fromkeys(seqs))
    ends = list(ENDS)

    def one(item):
        i, s = item
        end = ends[i % len(ends)]
        if 'a redundant header' in s and end == 'another header':
            end = 'a frame'         # whether that header belongs to the sequence is not specified
        for exact, e in ((False, end), (True, None)):
            nm = ', '.join(('a header',) + s + ((e,) if e else ()))
            if decide(c, P, where, key + 'sequence', complete(s, e, exact, ia(), nm), order=i % 2):
                return
    c.fork(list(enumerate(seqs)), one)

    # every cut
    full = [('codec 1', 'element 10', 'mix 5'), ('codec 2', 'a reserved OBU', 'codec 1', 'element 11', 'element 10', 'a redundant header', 'mix 6', 'mix 5'), (), ('a tiny codec config', 'an element of a missing codec', 'a metadata OBU')]

    def cuts(item):
        part, (s, end, exact, lead) = item
        if 'a redundant header' in s and end == 'another header':
            return
        data = ia() + [b for n in s for b in MENU[n][0]]
        n = len(data)
        tail = ENDS[end] if end else []
        for cut in range(n + len(tail)):
            if not THOROUGH and cut < n - 3 and (end not in (None, 'a delimiter') or (lead and cut % 5)):
                continue
            if cut % 6 != part:
                continue
            if exact and cut in bounds(s):
                continue        # a shorter complete sequence
            if not exact and cut >= n + HEAD[end]:
                continue        # the type and size of the first OBU that is no descriptor are known
            nm = ', '.join(('a header',) + s + ((end,) if end else ()))
            if decide(c, P, where, key + 'cut', complete(s, end, exact, ia(), nm, cut, lead)):
                return

    def bounds(s):
        r, n = {0}, len(ia())
        r = {n}
        for x in s:
            n += len(MENU[x][0])
            r.add(n)
        return r
    HEAD = {}
    for e, b in ENDS.items():
        HEAD[e] = len(b) if e == 'another header' else 2
    c.fork([(k, x) for k in range(6) for x in [(s, e, False, l) for s in full for e in ENDS for l in (0, 3)] + [(s, None, True, l) for s in full for l in (0, 2)]], cuts)

    # misplaced or broken starts
    bad = []
    for n in names:
        if not n.endswith('header'):
            bad.append((MENU[n][0], (), delimiter(), False, '%s before the header' % n))
            bad.append((MENU[n][0] + ia(), ('codec 1',), [], True, '%s before the header' % n))
    for e in ENDS:
        if e != 'another header':
            bad.append((ENDS[e], (), ia(), False, '%s before the header' % e))
            for s in full:
                bad.append((ia(), s, ENDS[e], True, '%s among descriptors that are all there is' % e))
    for i in range(4):
        h = ia()
        h[2 + i] ^= 32
        bad.append((h, ('codec 1',), delimiter(), False, 'a header without the code of the format'))

    def broken(item):
        first, s, tail, exact, nm = item
        decide(c, P, where, key + 'refused', refused(first, s, tail, 'tu' if exact and nm.endswith('there is') else exact, nm))
    c.fork(bad, broken)

    # copies of the header
    def headers(item):
        nm, first, end, profile = item
        decide(c, P, where, key + 'header', complete(('codec 1', 'element 10'), end, False, first, nm, profile=profile))
    c.fork([('a redundant header first', ia(1, 0, 1), 'a delimiter', 0), ('a redundant header, then the header', ia(1, 0, 0) + ia(0, 1, 1), 'a frame', 1),
            ('a redundant header, then the header, then the next', ia(1, 0, 0) + ia(0, 1, 1), 'another header', 1), ('two redundant headers', ia(1, 1, 1) * 2, 'a delimiter', 1),
            ('a header and its redundant copy', ia(0, 1, 1) + ia(1, 1, 1), 'a delimiter', 1)], headers)
    c.require('sequences', 100)
    return c
