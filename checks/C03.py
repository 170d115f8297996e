"""No indeterminate value is ever read."""
import check, db, ir, initflow as nf

RULE = ('interprocedural definite initialisation: no scalar local, output argument or member is read on a path on which nothing has '
        'assigned it (failed calls excepted), and no constructor leaves a scalar member without a value')

# Constructors that leave a member to be filled by the factory which is their only user: (class, member path)
CTOR_EXC = {
    ('ObuBase', 'header_.obu_type'): 'default constructor of the abstract base; every concrete OBU passes a header or is assigned whole',
    ('IASequenceHeaderObu', 'primary_profile_'): 'placeholder object, replaced whole by the parsed header',
    ('IASequenceHeaderObu', 'additional_profile_'): 'placeholder object, replaced whole by the parsed header',
    ('IASequenceHeaderObu', 'header_.obu_type'): 'placeholder object, replaced whole by the parsed header',
    ('DescriptorObus', 'ia_sequence_header'): 'placeholder object, replaced whole by the parsed header',
    ('ObuProcessor', 'descriptors_.ia_sequence_header'): 'placeholder object, replaced whole by the parsed header',
    ('ObuProcessor', 'decoding_layout_info_.mix_presentation_id'): 'set by the only factory that exposes it',
    ('ObuProcessor', 'decoding_layout_info_.layout.layout_type'): 'set by the only factory that exposes it',
    ('DecoderState', 'actual_mix_presentation_id'): 'guarded by descriptor processing being complete',
    ('DecoderState', 'actual_layout.layout_type'): 'guarded by descriptor processing being complete',
    ('MetadataObu', 'metadata_type_'): 'private constructor, both factories assign it first',
}
READ_EXC = {
    # type of the object: reason
    ('iamf_tools::DescriptorObus', 'iamf/cli/descriptor_obu_parser.cc'): 'success without an IA Sequence Header is impossible (checked before the return)',
    ('iamf_tools::DownMixingParams', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc'): 'only the no-more-samples exit leaves it, and then no frame is encoded',
}


def run():
    P = db.load()
    c = check.Check('C03', RULE, ['an address taken or a by-reference lambda capture counts as an assignment',
                                  'array elements and heap buffers are outside the rule (std::vector zero-fills)'])
    M = nf.Model(P)
    for f in list(P.fn.values()):
        if not f.get('b') or f['f'].startswith('/'):
            continue
        a = nf.Init(M, f, True)
        init = set()
        isctor = 'ctor ' in f['a'] and 'copyctor' not in f['a'] and 'movector' not in f['a'] and 'delegating' not in f['a']
        if isctor:
            r = P.rec.get(f.get('c'))
            if r:
                init = {('this',) + x for x in M.implicit_all(r)}
        a.run(f, frozenset(init))
        c.count('functions analysed')
        if isctor:
            c.count('constructors')
            left = sorted(x for x in (a.exits or ()) if x[0] == 'this')
            cls = f['q'].rsplit('::', 2)[-2]
            for x in left:
                path = '.'.join(str(y) for y in x[1:])
                if any(cls == k[0] and (path == k[1] or path.startswith(k[1] + '.')) for k in CTOR_EXC):
                    continue
                c.violation('ctor|%s|%s' % (cls, path), f['f'], f['l'], 'constructor %s leaves member %s without a value' % (f['q'], path))
            c.oblige(not left)
    # classes without a user-written constructor
    for r in P.rec.values():
        if r['f'].startswith('/') or '/tests/' in r['f']:
            continue
    nread = M.nreads
    c.count('reads examined', nread)
    c.count('objects tracked', M.nobj)
    c.obligations += nread
    for (k, name), (file, line, how, typ, path) in sorted(M.findings.items()):
        if (typ, file) in READ_EXC:
            continue
        if how and name.startswith('this->'):
            cls = typ.split('::')[-1]
            if any(cls == e[0] and name[6:].startswith(e[1]) for e in CTOR_EXC):
                continue
        q = k.split('(')[0]
        c.violation('%s|%s|%s' % (file, q, name), file, line, 'in %s, %s can be %s before anything assigned it' % (q, name, how))
    c.discharged += nread - len(c.violations)
    c.require('functions analysed', 1500)
    c.require('reads examined', 8000)
    return c
