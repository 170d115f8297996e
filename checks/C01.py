"""Error discipline: no failed call is followed by success."""
import check, db, ir, statusflow as sf

RULE = ('for every call that returns absl::Status/StatusOr/IamfStatus, every path on which that call failed leaves the '
        'enclosing function with an error (or in one of the listed by-design ways); a dropped or overwritten error, a success '
        'return after a failure, and a use of the value of a failed StatusOr are violations')

# (file suffix, callee) -> ways of leaving after a failure that are the documented behaviour of that construct.
OK, ABORT, VOID, OTHER, DERIVED = 'ok', 'abort', 'value:void', 'value:other', 'value:derived'
ALLOW = {
    # running out of data is not an error: the caller is told to come back with more
    ('api/decoder/iamf_decoder.cc', 'CreateObuProcessor'): {OK},
    ('cli/descriptor_obu_parser.cc', 'PeekObuTypeAndTotalObuSize'): {OK},
    ('cli/obu_processor.cc', 'PeekObuTypeAndTotalObuSize'): {OK},
    # an OBU that cannot be parsed inside its declared size is skipped, as the format requires
    ('cli/descriptor_obu_parser.cc', 'GetAndStoreCodecConfigObu'): {OK},
    ('cli/descriptor_obu_parser.cc', 'GetAndStoreAudioElement'): {OK},
    ('cli/descriptor_obu_parser.cc', 'GetAndStoreMixPresentationObu'): {OK},
    ('cli/obu_processor.cc', 'GetAndStoreAudioFrameWithData'): {OK},
    ('cli/obu_processor.cc', 'GetAndStoreParameterBlockWithData'): {OK},
    ('cli/obu_processor.cc', 'TemporalDelimiterObu::CreateFromBuffer'): {OK},
    # a profile failing a filter is removed from the set; only an empty set is an error
    ('cli/obu_processor.cc', 'FilterProfilesForMixPresentation'): {OTHER},
    # optional chunk
    ('adm/bw64_reader.cc', 'CheckDbmd'): {OK},
    # probing reports as much of a damaged file as it can
    ('cli/probe.cc', 'CollectAndValidateParamDefinitions'): {OK},
    ('cli/probe.cc', 'GetSubblockDuration'): {OTHER},
    ('cli/probe.cc', 'PeekObuTypeAndTotalObuSize'): {VOID}, ('cli/probe.cc', 'ReadAndValidate'): {VOID},
    ('cli/probe.cc', 'Seek'): {VOID}, ('cli/probe.cc', 'IgnoreBytes'): {VOID}, ('cli/probe.cc', 'ReadULeb128'): {VOID},
    ('cli/probe.cc', 'PeekParameterId'): {VOID}, ('cli/probe.cc', 'ParameterBlockObu::CreateFromBuffer'): {VOID},
    # layouts no loudness renderer exists for are skipped; their user-provided loudness is kept
    ('cli/rendering_mix_presentation_finalizer.cc', 'GetNumChannelsFromLayout'): {OK},
    # unknown extension bytes are skipped
    ('obu/rendering_config.cc', 'ReadRenderingConfigExtension'): {OK},
    # the XML callback records the error in the handler, which ends the parse
    ('adm/xml_to_adm.cc', 'SetAudioBlockValue'): {VOID},
    ('adm/xml_to_adm.cc', 'ValidateAdmObjectForDefaultAdm'): {ABORT, 'unseen value:void', VOID},
    ('adm/xml_to_adm.cc', 'ValidateAdmObjectForDolbyAdm'): {ABORT, 'unseen value:void', VOID},
    ('cli/wav_sample_provider.cc', 'ValidateUnique'): {VOID},
    ('obu/obu_header.cc', 'GetObuSizeAndValidate'): {VOID},
    # internal invariants turned into fatal checks
    ('api/decoder/iamf_decoder.cc', 'Reorder'): {ABORT},
    ('iamf/mix_presentation_handler.cc', 'LookupSoundSystemFromInputLayout'): {ABORT},
    ('cli/ambisonic_encoder/ambisonics_mixer.cc', 'Create'): {ABORT},
    ('cli/decoder_main.cc', 'GetOutputMix'): {ABORT},
    ('cli/decoder_main.cc', 'LookupInMap'): {OTHER},
    ('obu/audio_element.cc', 'Create'): {'deref'},          # AmbisonicsMonoConfig::Create(1, {0}): constant, valid
}
CREATE_ABORT = {'AmbisonicsMonoConfig::Create', 'AmbisonicsProjectionConfig::Create', 'AmbisonicsChannelNumberToLabel', 'ValidateContainerSizeEqual', 'ParseIamfFile'}


def allowed(f, site):
    q = site[3][1]
    out = set()
    for (sfx, callee), kinds in ALLOW.items():
        if f['f'].endswith(sfx) and (q == callee or q.endswith('::' + callee)):
            out |= kinds
            if kinds != {'deref'}:
                # the same continuation seen from an extracted helper
                out |= {OK, VOID, OTHER, DERIVED, 'unseen value:void', 'value:true', 'value:zero', 'value:nonzero'}
    if q.endswith(tuple(CREATE_ABORT)):
        out.add(ABORT)
    return out


GOOD = {'prop'}


def fine(f, site, kind):
    if kind == 'prop' or kind in allowed(f, site):
        return True
    r = f['r']
    # functions whose result type has a failure value of its own
    if kind == 'value:null' or kind == 'value:nullopt':
        return True
    if kind == 'value:false' and r.replace('const ', '') == 'bool':
        return True
    if kind == 'value:nonzero' and f['n'] == 'main':
        return True
    if kind == 'value:derived':
        return True
    if kind.startswith('value:enum') and ('ABORT' in kind or 'ERROR' in kind.upper()):
        return True
    return False


MSG = {'ok': 'returns success', 'abort': 'aborts the process', 'deref': 'uses the value of the failed result'}


def run():
    P = db.load()
    c = check.Check('C01', RULE, [
        'library calls that return no status (C file and codec calls) are decided by C18',
        'the listed by-design continuations (running out of data, optional chunks, skipped unknown OBUs, best-effort probing) are intended'])
    nf = 0
    for f in P.fn.values():
        if not f.get('b') or f['f'].startswith('/'):
            continue
        any_ = False
        for s in sf.sites(f):
            any_ = True
            c.count('status call sites')
            out = sf.classify(f, s)
            bad = sorted({k for k, l in out if not fine(f, s, k)})
            c.oblige(not bad, '%s:%s %s -> %s: %s' % (f['f'], s[1], f['q'], s[3][1], sorted({k for k, l in out})) if c.obligations % 97 == 0 else None)
            for k in bad:
                ln = [l for kk, l in out if kk == k][0]
                how = MSG.get(k) or ('drops the error without looking at it' if k.startswith('unseen') else 'leaves with ' + k)
                c.violation('%s|%s|%s|%s' % (f['f'], f['q'], s[3][1], k), f['f'], s[1],
                            'in %s, after %s fails the function %s (line %s)' % (f['q'], s[3][1], how, ln))
        if any_:
            c.count('functions with status calls')
    c.require('status call sites', 1200)
    return c
