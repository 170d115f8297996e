"""A BW64 file is indexed and validated as its bytes say."""
import itertools
import check, db, ir, absx, absmodels, spec, streamx
from absval import *
from absval import T
from absx import bare
from contract import *

RULE = ('for every RIFF layout of up to four chunks with every chunk size, padding, truncation point and header byte, BuildFromStream refuses '
        'exactly the files it must refuse, and otherwise returns the chunk index, the format fields and the XML text that the bytes of '
        'the file define (abstract interpretation of the reader over a symbolic file; linear position terms)')

CLS = 'iamf_tools::adm_to_user_metadata::Bw64Reader'
LIMIT = 256 << 20
DOLBY_RATES = (48000, 96000)
DEPTHS = (16, 24, 32)


def layouts():
    """Chunk sequences: every order of the chunks that matter, with other chunks around them, and every omission."""
    out = [()]
    base = ['fmt ', 'axml', 'dbmd', 'JUNK']
    for k in (1, 2, 3):
        out += [p for p in itertools.permutations(base, k)]
    out += [('fmt ', 'data', 'axml', 'dbmd'), ('dbmd', 'axml', 'data', 'fmt '), ('JUNK', 'fmt ', 'axml', 'data'), ('axml', 'fmt ', 'data', 'dbmd')]
    return out


class File:
    """A symbolic file with the given chunks; tail: 'exact' or 'cut' (inside the last chunk)."""
    def __init__(self, I, ids, tail):
        self.ids = ids
        self.start, self.size = [], []
        p = 12
        st = self.st = streamx.Stream(I, None)
        regions = [(0, 4, 'riff', [ord(c) for c in 'RIFF']), (4, 4, 'len', None), (8, 4, 'wave', [ord(c) for c in 'WAVE'])]
        n = None
        for k, cid in enumerate(ids):
            h, odd = var('size%d.half' % k, 0, 127), var('size%d.odd' % k, 0, 1)
            b = [add(scale(h, 2), odd)] + [var('size%d.byte%d' % (k, j), 0, 255) for j in (1, 2, 3)]
            s = b[0]
            for j in (1, 2, 3):
                s = add(s, scale(b[j], 1 << (8 * j)))
            regions.append((p, 8, 'header%d' % k, [ord(c) for c in cid] + b))
            self.start.append(p)
            self.size.append(s)
            regions.append((add(p, 8), s, cid, None))
            q = add(add(add(p, 8), s), odd)
            if k == len(ids) - 1 and tail == 'cut':
                have = var('available', 0, (1 << 32) - 1)
                if not I.decide(I.rel('<', have, add(s, odd))):
                    raise absx.Infeasible()
                n = add(add(p, 8), have)
            p = q
        if n is None:
            n = add(p, var('trailing', 0 if ids else -12, 7))
        st.size = n
        for r in regions:
            st.region(r[0], r[1] if is_num(r[1]) else 1 << 16, r[2], r[3])
        self.data = {}

    def at(self, cid):
        return self.ids.index(cid) if cid in self.ids else None

    def le(self, I, cid, off, n):
        p = add(self.start[self.at(cid)], 8)
        v = 0
        for k in range(n):
            v = add(v, scale(self.st.byte(I, add(p, off + k)), 1 << (8 * k)))
        return v


def expect(I, F):
    """ERR or (fields, xml range, dolby)."""
    D = lambda o, a, b: I.decide(I.rel(o, a, b))
    if D('<', F.st.size, 12):
        return ERR
    k = F.at('fmt ')
    if k is None or D('<', F.size[k], 16) or D('>', add(F.start[k], 24), F.st.size):
        return ERR
    chans, rate, bits = F.le(I, 'fmt ', 2, 2), F.le(I, 'fmt ', 4, 4), F.le(I, 'fmt ', 14, 2)
    if D('==', chans, 0) or D('==', rate, 0) or not any(D('==', bits, b) for b in DEPTHS):
        return ERR
    a = F.at('axml')
    if a is None or D('>', F.size[a], LIMIT) or D('>', add(add(F.start[a], 8), F.size[a]), F.st.size):
        return ERR
    dolby = F.at('dbmd') is not None
    if dolby and (not D('==', bits, 24) or not any(D('==', rate, r) for r in DOLBY_RATES)):
        return ERR
    return chans, rate, bits, a, dolby


def run():
    P = db.load()
    c = check.Check('C25', RULE, ['chunk identifiers are distinct', 'at most four chunks', 'contents of different chunks are independent',
                                  'a failed seek past the end of the stream may or may not set failbit'])
    f = [f for f in P.fn.values() if f['q'] == CLS + '::BuildFromStream' and f.get('b')]
    g = [f for f in P.fn.values() if f['q'] == CLS + '::GetChunkInfo' and f.get('b')]
    if not f or not g:
        c.notes['not found'] = CLS
        return c
    f, g = f[0], g[0]
    types = {}
    for k, en in P.enum.items():
        if k.endswith('AdmFileType'):
            types.update(dict(en['e']))

    def parse(I, n, fr, o, a):
        xml, thr, kind = I.ev(a[0], fr), I.ev(a[1], fr), I.ev(a[2], fr)
        I.parsed.append((xml, thr, kind))
        if I.free('the XML parses'):
            I.adm = I.fresh(bare(absx.split_t(ir.typ(n))[1][0]), 'adm')
            return SOr(StatusV(True), Cell(I.adm))
        return SOr(StatusV(False, 3, 'xml'), None)

    models = dict(streamx.MODELS)
    models['iamf_tools::adm_to_user_metadata::ParseXmlToAdm'] = parse

    def one(ids, tail, corrupt=None):
        def build(I):
            I.parsed = []
            I.adm = None
            F = File(I, ids, tail)
            F.st.I = I
            if corrupt is not None:
                for i, r in enumerate(F.st.regions):
                    if r[2] == corrupt[0]:
                        r[3][corrupt[1]] = var('%s[%d]' % corrupt, 0, 255)
            return None, [Cell(var('threshold', -(1 << 31), (1 << 31) - 1)), Cell(F.st)], F

        def oracle(I, F, t):
            thr = var('threshold', -(1 << 31), (1 << 31) - 1)
            if corrupt is not None:
                r = [r for r in F.st.regions if r[2] == corrupt[0]][0]
                good = ord({'riff': 'RIFF', 'wave': 'WAVE'}[corrupt[0]][corrupt[1]])
                if not I.decide(I.rel('==', r[3][corrupt[1]], good)):
                    return ERR
            e = expect(I, F)
            if e == ERR:
                return ERR
            chans, rate, bits, a, dolby = e
            if len(I.parsed) != 1:
                if t['out'] == 'ret' and isinstance(t['ret'], SOr) and t['ret'].st.ok is not True:
                    return []                   # an error although the file is fine
                return [('number of XML parses', len(I.parsed), 1)]
            xml, th, kind = I.parsed[0]
            items = [('the importance threshold', th, thr),
                     ('the file type', kind, types.get('kAdmFileTypeDolby' if dolby else 'kAdmFileTypeDefault'))]
            want_pos, want_n = add(F.start[a], 8), F.size[a]
            if isinstance(xml, SStr) and len(xml.p) == 1 and isinstance(xml.p[0], tuple) and xml.p[0][0] == 'file':
                items += [('the start of the XML text', xml.p[0][1], want_pos), ('the length of the XML text', xml.p[0][2], want_n)]
            elif xml == '' or isinstance(xml, str) or isinstance(xml, SStr) and all(isinstance(x, str) or x[0] == 'chr' for x in xml.p):
                items += [('the length of the XML text', I.size(xml), want_n)]
                n = I.concrete(I.size(xml))
                if I.decide(I.rel('==', want_n, n)):
                    for i in range(n):
                        items.append(('character %d of the XML text' % i, I.at(xml, i).v, I.wrap(F.st.byte(I, add(want_pos, i)), (8, True))))
            elif not (isinstance(xml, SStr) and any(x[0] == 'sym' for x in xml.p)):
                items += [('the XML text', 0, 1)]
            else:
                items += [('the XML text', Unk(None, 'xml'), 0)]
            if I.adm is None:
                # the parser failed
                t2 = t['ret'].st.ok if t['out'] == 'ret' and isinstance(t['ret'], SOr) else None
                if t2 is True:
                    return ERR
                for n, got, w in items:
                    d = compare_values(I, got, w)
                    if d and d[0]:
                        return ('FAIL', '%s is %s' % (n, d[1]))
                return None
            r = t['ret'].cell.v if t['out'] == 'ret' and isinstance(t['ret'], SOr) and t['ret'].cell else None
            if isinstance(r, Obj):
                fi = r.f['format_info_'].v
                for nm, off, sz in (('format_tag', 0, 2), ('num_channels', 2, 2), ('samples_per_sec', 4, 4), ('avg_bytes_per_sec', 8, 4),
                                    ('block_align', 12, 2), ('bits_per_sample', 14, 2)):
                    if isinstance(fi, Obj) and nm in fi.f:
                        items.append((nm, fi.f[nm].v, F.le(I, 'fmt ', off, sz)))
                m = r.f['chunks_offset_map_'].v if 'chunks_offset_map_' in r.f else None
                if isinstance(m, MapV):
                    items.append(('the number of chunks', I.map_size(m), len(set(ids))))
                # look the chunks up through the public accessor
                for cid in ('fmt ', 'axml', 'dbmd', 'JUNK', 'data', 'abcd'):
                    try:
                        q = I.call_fn(g, r, [Cell(cid)])
                    except (absx.Unsupported, absx.Abort):
                        continue
                    q = q.v if isinstance(q, Cell) else q
                    if not isinstance(q, SOr) or not isinstance(q.st.ok, bool):
                        continue
                    k = F.at(cid)
                    items.append(('presence of chunk %r' % cid, int(q.st.ok), int(k is not None)))
                    if k is not None and q.st.ok:
                        items.append(('size of chunk %r' % cid, q.cell.v.f['size'].v, F.size[k]))
                        items.append(('offset of chunk %r' % cid, q.cell.v.f['offset'].v, F.start[k]))
                    if k is None and not q.st.ok:
                        items.append(('the error code for an absent chunk', q.st.code, 9))
            return items
        key = '%s|BuildFromStream' % f['f']
        check_fn(c, P, f, build, oracle, K=6, key=key, models=models)

    jobs = [(ids, tail, None) for ids in layouts() for tail in ('exact', 'cut') if ids or tail == 'exact']
    jobs += [(('fmt ', 'axml'), 'exact', (r, i)) for r in ('riff', 'wave') for i in range(4)]

    def work(j):
        one(*j)
        c.count('file layouts')
    c.fork(jobs, work)
    return c
