"""The OBU kinds that are interpreted, with the members their fields are stored in."""
import absx, oburun, obuspec, obux
from absval import var
from oburun import Kind, NS


def kinds(P):
    CC = 'codec_config_.decoder_config.'
    out = []
    out.append(Kind('OBU header', None, None, None))
    out.append(Kind('IA Sequence Header OBU', 31, NS + 'IASequenceHeaderObu', obuspec.ia_sequence_header,
                    fields=(('primary_profile', 'primary_profile_'), ('additional_profile', 'additional_profile_'))))
    def flac_write(I, g, env):
        # encoders leave the frame sizes and the signature of STREAMINFO zero
        d = dict(g.fields)
        if 'minimum_frame_size' not in d:
            return False
        md5 = d['md5_signature']
        return not g.eq(d['minimum_frame_size'], 0) or not g.eq(d['maximum_frame_size'], 0) or not all(g.eq(I.at(md5.vec, i).v, 0) for i in range(16))
    out.append(Kind('Codec Config OBU', 0, NS + 'CodecConfigObu', obuspec.codec_config, write_refusal=flac_write,
                    opts=[{'names': dict({'obu_extension_flag': 0}, codec_id=x)} for x in (0x4f707573, 0x6d703461, 0x664c6143, 0x6970636d)] + [{'names': {}}]
                    + [{'names': dict(obu_extension_flag=0, codec_id=0x664c6143, num_samples_per_frame=16, audio_roll_distance=0, block_type=lambda k: None if k else 0,
                                      metadata_data_block_length=lambda k: (0, 3) if k else 34, minimum_block_size=16, maximum_block_size=16, minimum_frame_size=0,
                                      maximum_frame_size=0, flac_sample_rate=48000, number_of_channels=1, bits_per_sample=15)}],
                    fields=(('codec_config_id', 'codec_config_id_'), ('codec_id', 'codec_config_.codec_id'),
                            ('num_samples_per_frame', 'codec_config_.num_samples_per_frame'), ('audio_roll_distance', 'codec_config_.audio_roll_distance'),
                            ('version', CC + 'version_'), ('output_channel_count', CC + 'output_channel_count_'), ('pre_skip', CC + 'pre_skip_'),
                            ('input_sample_rate', CC + 'input_sample_rate_'), ('output_gain', CC + 'output_gain_'), ('mapping_family', CC + 'mapping_family_'),
                            ('sample_format_flags', CC + 'sample_format_flags_bitmask_'), ('sample_size', CC + 'sample_size_'), ('sample_rate', CC + 'sample_rate_'),
                            ('buffer_size_db', CC + 'buffer_size_db_'), ('max_bitrate', CC + 'max_bitrate_'), ('average_bit_rate', CC + 'average_bit_rate_'))))
    out.append(Kind('Audio Frame OBU', (5, 23), NS + 'AudioFrameObu', obuspec.audio_frame,
                    fields=(('audio_substream_id', 'audio_substream_id_'), ('audio_frame', 'audio_frame_'))))
    out.append(Kind('Metadata OBU', 24, NS + 'MetadataObu', obuspec.metadata,
                    fields=(('metadata_type', 'metadata_type_'), ('itu_t_t35_country_code', 'metadata_variant_.itu_t_t35_country_code'))))
    for k in ('mix_gain', 'demixing', 'recon_gain') + obuspec.POSITION:
        cls = NS + ''.join(w.capitalize() for w in k.split('_')) + 'ParamDefinition'
        out.append(Kind('%s parameter definition' % k.replace('_', ' '), None, None, (lambda k: lambda g, env: obuspec.param_definition(g, k))(k),
                        part=(new(cls), cls + '::ReadAndValidate', cls + '::ValidateAndWrite')))
    for k, gr in (('MixGainParameterData', lambda g, e: obuspec.mix_gain_data(g)), ('DemixingInfoParameterData', lambda g, e: obuspec.demixing_info(g)),
                  ('ExtensionParameterData', lambda g, e: obuspec.extension_data(g))):
        out.append(Kind(k, None, None, gr, part=(new(NS + k), NS + k + '::ReadAndValidate', NS + k + '::Write')))
    out.append(Kind('element gain offset', None, None, obuspec.element_gain_offset,
                    part=(None, NS + 'ElementGainOffsetConfig::CreateFromBuffer', NS + 'ElementGainOffsetConfig::Write')))
    out.append(Kind('rendering config', None, None, obuspec.rendering_config, opts=[{'names': dict(dict(param_definition_mode=1, num_parameters=(0, 2)), **o)} for o in (
                        {'param_definition_type': lambda k: None if k else (3, 4)}, {'param_definition_type': lambda k: None if k else (5, 6)},
                        {'param_definition_type': lambda k: None if k else 8, 'num_parameters': 2}, {'num_parameters': 1})],
                    part=(None, NS + 'RenderingConfig::CreateFromBuffer', NS + 'RenderingConfig::ValidateAndWrite')))
    one = dict(sched=(8, 8), n=1)
    out.append(Kind('Parameter Block OBU', 3, NS + 'ParameterBlockObu', obuspec.parameter_block, make=definition, fields=(('parameter_id', 'parameter_id_'),),
                    opts=[dict(o, names=dict({'obu_extension_flag': 0}, **o.get('names', {}))) for o in (
                        dict(one, what='mix_gain', names={'obu_extension_flag': None}), dict(one, what='demixing'), dict(one, what='demixing', names={'parameter_id': (0, 299)}), dict(what='mix_gain', sched=(9, 4), n=3),
                        dict(what='mix_gain', sched=(8, 0, 2, 5, 3), n=2), dict(what='mix_gain', mode1=True, names={'animation_type': 0}, paths=400),
                        dict(what='mix_gain', mode1=True, names={'duration': (2, 9), 'constant_subblock_duration': 2, 'animation_type': 1}),
                        dict(what='mix_gain', mode1=True, names={'duration': 5, 'constant_subblock_duration': 0, 'num_subblocks': (0, 3)}),
                        dict(one, what='recon_gain', flags=()), dict(one, what='recon_gain', flags=(0, 1, 0, 1), names={'recon_gain_flag': 5}),
                        dict(one, what='recon_gain', flags=(0, 0, 1), names={'recon_gain_flag': 0xfff}), dict(one, what='recon_gain', flags=(1, 0), names={'recon_gain_flag': 0x12a}),
                        dict(one, what='recon_gain', flags=(1,), names={'recon_gain_flag': 0xfffff855}), dict(one, what='recon_gain', flags=(1,), paths=200))]))
    # OBUs that contain them
    flat = {'obu_redundant_copy': 0, 'obu_extension_flag': 0, 'type_specific_flag': 0}
    el = dict(flat, num_parameters=0, num_substreams=1)
    par = dict(el, audio_element_type=2, num_objects=1, param_definition_mode=0, duration=8, constant_subblock_duration=8)
    amb = dict(el, audio_element_type=1, num_substreams=(0, 2))
    layer = dict(el, audio_element_type=0, num_layers=(0, 3))
    out.append(Kind('Audio Element OBU', 1, NS + 'AudioElementObu', obuspec.audio_element, opts=[{'names': o, 'paths': o.pop('paths', None)} for o in (
        dict(flat, num_parameters=0, num_substreams=(0, 3), num_layers=1, output_channel_count=1),
        dict(layer, num_layers=(0, 1)), dict(layer, num_layers=2, output_gain_is_present_flag=0), dict(layer, num_layers=2, recon_gain_is_present_flag=0),
        dict(layer, num_substreams=2, num_layers=2), dict(layer, num_layers=2, num_substreams=(1, 3), loudspeaker_layout=1, output_gain_is_present_flag=0, recon_gain_is_present_flag=0, coupled_substream_count=1), dict(layer, num_layers=3, output_gain_is_present_flag=0, substream_count=1, num_substreams=3),
        dict(layer, num_layers=(4, 7), loudspeaker_layout=1, output_gain_is_present_flag=0, substream_count=1, coupled_substream_count=0),
        dict(amb, ambisonics_mode=0, output_channel_count=(0, 4)), dict(amb, ambisonics_mode=0, output_channel_count=4),
        dict(amb, ambisonics_mode=0, output_channel_count=(5, 15), num_substreams=1, paths=600),
        dict(amb, ambisonics_mode=0, output_channel_count=(16, 255), num_substreams=1, substream_count=1, paths=150),
        dict(amb, ambisonics_mode=1, output_channel_count=1), dict(amb, ambisonics_mode=1, output_channel_count=4, coupled_substream_count=1),
        dict(amb, ambisonics_mode=1, output_channel_count=4, num_substreams=2, substream_count=2),
        dict(par, num_parameters=1), dict(par, num_parameters=2, param_definition_type=lambda k: (1, 2)[k]), dict(par, num_parameters=2, param_definition_type=lambda k: (1, (2, 9))[k]),
        dict(par, num_parameters=2, param_definition_type=(3, 10)), dict(par, num_parameters=1, param_definition_type=1, param_definition_mode=None, duration=(0, 9), constant_subblock_duration=8))],
        fields=(('audio_element_id', 'audio_element_id_'), ('audio_element_type', 'audio_element_type_'), ('codec_config_id', 'codec_config_id_'))))
    mp = dict(flat, type_specific_flag=None, count_label=0, num_sub_mixes=1, num_audio_elements=1, num_layouts=1, rendering_config_extension_size=0, element_gain_offset_flag=0,
              param_definition_mode=1, layout_type=2, sound_system=0, info_type=0, num_tags=0, optional_fields_size=(0, 4))
    out.append(Kind('Mix Presentation OBU', 2, NS + 'MixPresentationObu', obuspec.mix_presentation, opts=[{'names': o} for o in (
        dict(mp, count_label=(0, 2)), dict(mp, count_label=(3, obux.U32)), dict(mp, num_sub_mixes=(0, 3)), dict(mp, num_sub_mixes=(4, obux.U32)), dict(mp, num_audio_elements=(0, 3)),
        dict(mp, num_layouts=(0, 2), layout_type=None, sound_system=None), dict(mp, layout_type=None, info_type=None), dict(mp, num_tags=(0, 2)),
        dict(mp, rendering_config_extension_size=None, num_parameters=(0, 1), element_gain_offset_flag=None), dict(mp, param_definition_mode=None), dict(mp, num_tags=0, optional_fields_size=None))],
        strings=strings, write_refusal=bad_language, never_written=bad_language,
        fields=(('mix_presentation_id', 'mix_presentation_id_'), ('count_label', 'count_label_'))))
    out.append(Kind('Temporal Delimiter OBU', 4, NS + 'TemporalDelimiterObu', lambda g, env: None))
    return out


def definition(I, opt):
    """The parameter definition a parameter block belongs to, read from a descriptor of its own."""
    cls = NS + ''.join(w.capitalize() for w in opt['what'].split('_')) + 'ParamDefinition'
    d = new(cls)(I)
    pid = var('parameter_id', 300, obux.U32)
    rb = obux.rbuf(I)
    mode1 = bool(opt.get('mode1'))
    obux.buf(rb).preset = [pid, 48000, int(mode1), 0] + ([] if mode1 else list(opt['sched'])) + {'mix_gain': [0], 'demixing': [0, 0, 0, 0], 'recon_gain': []}[opt['what']]
    read = [f for f in I.P.fn.values() if f['q'] == cls + '::ReadAndValidate' and f.get('b')][0]
    I.call_fn(read, d, [absx.Cell(rb)])
    flags = opt.get('flags', ())
    if flags:
        if 'aux_data_' not in d.f:
            raise absx.Unsupported('no recon gain flags of layers')
        aux = I.rec(cls + '::ReconGainAuxiliaryData')
        es = []
        for f in flags:
            e = I.construct_default(aux)
            e.f['recon_gain_is_present_flag'] = absx.Cell(bool(f))
            es.append(absx.Cell(e))
        d.f['aux_data_'].v = absx.Vec(cls + '::ReconGainAuxiliaryData', es)
    I.lebs, I.exps = [], []
    return [absx.Cell(d)], {'param': (opt['what'], pid, mode1, opt.get('n'), flags, True), 'names': {'parameter_id': pid}}


def strings(b, prev):
    return ['content_language', 'eng'] + [p for p in prev if p not in ('content_language', 'eng')]


def bad_language(I, g, env):
    tags = [v for n, v in g.fields if n in ('tag_name', 'tag_value')]
    ls = [v for n, v in zip(tags[::2], tags[1::2]) if n == 'content_language']
    return len(ls) > 1 or any(len(v) != 3 for v in ls)


def new(cls):
    """An object of the class; a constructor that takes the common arguments gets them as they are by default."""
    def f(I):
        r = I.rec(cls)
        for c in I.P.fn.values():
            if c.get('c') == cls and 'ctor' in c['a'].split() and c.get('b') is not None and 'BaseArgs' in c['k']:
                o = absx.Obj(r['k'])
                args = [absx.Cell(I.construct_default(I.rec(NS + 'ParamDefinition::BaseArgs')))] + [absx.Cell(0)] * (len(c['p']) - 1)
                I.run_ctor(c, o, args)
                return o
        return I.construct_default(r)
    return f
