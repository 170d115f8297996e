PROPS = []
NA = []


def P(id, title, statement, over, quant, why, files, mech, tech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, **kw))


def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


P('C01', 'A failed step is never reported as success',
  'Whenever any step of parsing, encoding, decoding, rendering or writing reports an error, the operation that needed it reports an error too, to its own caller, up to the API or the command line; no error is dropped, overwritten by a later success, or followed by the use of a missing value. The only continuations after a failed step are the documented ones: waiting for more input, skipping an unparsable OBU, an optional chunk, best-effort probing.',
  ['inputs', 'fault_sequences'], 'every input and every point at which any of the internal steps can fail',
  'There are over 1,700 places where a step can fail; tests inject a few dozen failures, and the stable suite injects none.',
  ['iamf/common/utils/macros.h', 'iamf/obu', 'iamf/cli', 'iamf/api/decoder/iamf_decoder.cc'],
  [('RETURN_IF_NOT_OK and absl::Status/StatusOr results', 'iamf/common/utils/macros.h'), ('AbslToIamfStatus', 'iamf/api/decoder/iamf_decoder.cc')],
  'interprocedural-site path-sensitive dataflow over the type-checked AST: each status-returning call is assumed to fail and every exit is classified',
  'Decides, for every status-returning call site in the library and the executables, how the enclosing function leaves once that call failed. Sound for the structured control flow of this code (no goto/exceptions); statuses stored in containers are not followed.')
P('C02', 'Missing results are never used',
  'A lookup that finds nothing, a factory that refuses its arguments, and an optional value that is not there are always recognised before their result is used, for every input; none of them leads to a null dereference or a read past the end of a container.',
  ['inputs', 'configurations'], 'every call whose result can be absent, on every path',
  'A missing entry needs a specific malformed or unusual input (unknown id, unsupported layout, unwritable file); tests exercise a handful of them.',
  ['iamf/cli', 'iamf/obu', 'iamf/api', 'validation'],
  [('null / nullopt / end() tests next to each lookup', 'throughout'), ('LookupInMap', 'iamf/common/utils/map_utils.h')],
  'path-sensitive absence dataflow with helper outcome summaries over the type-checked AST',
  'Callee summaries (which functions can return an absent pointer or optional) are recomputed from their return statements on every run; each call site is then analysed in the world where the result is absent.')
P('C03', 'No value is read before it has been set',
  'No behaviour depends on memory that was never assigned: every number, flag and pointer that is read, written to a bitstream, returned to the caller or compared has been given a value on every path that leads there, and every object is fully initialised when its construction ends.',
  ['inputs', 'histories'], 'every read on every path, and every constructor',
  'Indeterminate values usually look right in a test run; only particular paths (an attribute missing from the input, an early return) expose them.',
  ['iamf/common/read_bit_buffer.h', 'iamf/cli', 'iamf/obu'],
  [('member initialisers and output arguments assigned before success is returned', 'throughout')],
  'interprocedural definite-initialisation analysis with per-function output summaries',
  'About 15,000 reads of tracked storage and 122 constructors; heap buffers and array elements are outside the rule.')
P('C04', 'No mutable state is shared between instances',
  'Two decoders, encoders, readers or probes in the same process never influence each other: the library keeps no state outside the objects it hands out, so results depend only on what was given to that object.',
  ['histories', 'schedules'], 'every interleaving of operations on several instances',
  'Tests create one object at a time; leaked state shows only with a second instance or a second run in the same process.',
  ['iamf', 'validation'], [('const/constexpr namespace-scope data, absl::NoDestructor<const T>', 'throughout')],
  'type-qualifier and write-effect query over every variable with static storage duration',
  'Every static object must be immutable by type (const through pointers) or never written; the codec libraries own their state.')
P('C05', 'Output depends only on the input',
  'Running an operation twice on the same input gives the same bytes, reports and samples: nothing that is output is ordered by hash-table iteration, and no clock, random number, address, process identity or environment value takes part in a result.',
  ['inputs', 'histories'], 'every run on the same input',
  'absl hash tables are seeded per process, so an order leak passes most runs of a test with few elements.',
  ['iamf/cli/obu_sequencer_base.cc', 'iamf/cli/probe.cc', 'iamf/cli', 'validation/opus_hoa/opus_hoa.cc'],
  [('SortedKeys before descriptors are written', 'iamf/cli/obu_sequencer_base.cc'), ('sorted report lists', 'iamf/cli/probe.cc')],
  'effect analysis of loops over unordered containers plus a call-graph query for impure sources',
  'Each loop over an unordered container may only have order-insensitive effects on state that outlives it, or its result must be sorted in the same function.')
P('C17', 'Sample processors follow their life cycle and never pass on stale frames',
  'In every history of calls, a sample processor refuses a frame or a flush after Flush, and refuses a frame with the wrong number of channels, channels of different lengths or more samples than configured, before the concrete processor sees it; otherwise the concrete processor gets exactly that frame exactly once, with the previous output already cleared, its verdict is returned, and the output span shows exactly the samples of the latest call.',
  ['histories', 'inputs'], 'every call history, channel count, frame shape and verdict of the concrete processor',
  'The rules concern sequences of calls with failures in between; the stable suite constructs one decoder and calls nothing.',
  ['iamf/cli/sample_processor_base.cc', 'iamf/cli/sample_processor_base.h'],
  [('state_ and shape checks in PushFrame/Flush', 'iamf/cli/sample_processor_base.cc'), ('output_span_buffer_', 'iamf/cli/sample_processor_base.h')],
  'typestate: product of the trace-partitioned abstract interpretation of the class with its life-cycle automaton',
  'Up to 3 channels and histories of up to 5 calls; frame lengths, limits and the verdict of the derived class are symbolic.')
P('C19', 'Numeric conversions are exact or refused',
  'Every conversion helper (checked addition, fixed-point Q7.8 and Q0.8 both ways, range-checked casts, little- and big-endian bytes to left-justified integers, clipping, normalised floating point to and from 32-bit integers) yields exactly the documented value for every representable input and an error, never a wrapped, truncated or undefined value, for every other one, including NaN, infinities and the boundary values.',
  ['inputs'], 'every input value of every conversion and every instantiated type pair',
  'The errors sit at boundary values (2^31, 1 - 2^-8, NaN, -128) and in instantiations no test samples.',
  ['iamf/common/utils/numeric_utils.cc', 'iamf/common/utils/numeric_utils.h'],
  [('AddUint32CheckOverflow, FloatToQ7_8, FloatToQ0_8, StaticCastIfInRange', 'iamf/common/utils/numeric_utils.h'), ('ClipDoubleToInt32, NormalizedFloatingPointToInt32', 'iamf/common/utils/numeric_utils.h')],
  'interval and value-term abstract interpretation of each conversion, compared with its specification in the same domain',
  'All inputs, by partition into intervals; double arithmetic is treated as exact, conversions to float round.')
P('C20', 'The JSON probe report is well-formed and complete',
  'For every report, the JSON form is one well-formed JSON object with no duplicate keys, ending with a newline; every field that is set appears exactly once under its own name with its own value, unset optional fields do not appear, lists keep their order and length, and every string is escaped so that it decodes to the original text.',
  ['inputs'], 'every combination of present and absent parts, list lengths and leaf values of a report',
  'A missing comma or an unescaped label needs one particular combination of optional parts or one particular byte in a string of the bitstream.',
  ['iamf/cli/probe_json.cc', 'iamf/cli/probe.h'],
  [('EscapeJson, ProbeReportToJson', 'iamf/cli/probe_json.cc')],
  'string-structure analysis: the text is derived as literal segments and symbolic pieces by abstract interpretation and parsed against the record declarations',
  'Nested parts vary against minimal and full neighbours, lists up to length 3; each string is checked for every value of one character.')
P('C25', 'A BW64 file is indexed and validated as its bytes say',
  'For every BW64/RIFF file, the reader refuses a file without RIFF/WAVE header, without a complete fmt chunk (at least 16 bytes, channels and rate not zero, 16, 24 or 32 bits), without a complete axml chunk of at most 256 MB, and a Dolby file (dbmd chunk) that is not 24 bit at 48 or 96 kHz; for every other file the chunk index holds size and header offset of each chunk (odd chunks are padded to even), the format fields are the little-endian values in the file, and exactly the bytes of the axml chunk, the importance threshold and the file type reach the XML parser, whose verdict decides.',
  ['inputs'], 'every chunk order, size, padding, truncation point and header value',
  'Chunk positions depend on every preceding size and its parity, and the checks on boundary sizes; tests use a handful of short files.',
  ['iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc', 'iamf/cli/adm_to_user_metadata/adm/bw64_reader.h'],
  [('CreateChunksOffsetMap, ReadFmtChunk, ReadAxml, BuildFromStream', 'iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc')],
  'abstract interpretation of the reader over a symbolic file with linear position terms, compared with the layout in the same domain',
  'Up to four chunks with distinct identifiers in 97 layouts; sizes, parity, contents, truncation and trailing bytes are symbolic.')
P('C26', 'LPCM frames decode to exactly the samples their bytes define',
  'For every LPCM decoder configuration, a decoder is created exactly when the flags are 0 or 1, the sample size is 16, 24 or 32 bits and the sample rate is 16000, 32000, 44100, 48000 or 96000 Hz; substreams have exactly one or two channels; a frame is refused exactly when it is not a whole number of ticks (one sample for every channel) or has more ticks than a frame is configured for; and after every accepted frame, whatever came before, the valid decoded samples are one row per channel with one sample per tick, each the signed integer of its bytes in the configured byte order, left-justified, divided by 2^31. The configuration reports its own sample rate and bit depth.',
  ['inputs', 'histories'], 'every configuration, frame size and content, and every sequence of frames',
  'Wrong interleaving, byte order, stale samples of an earlier longer frame or a short last frame only show on specific sizes and contents; tests decode a few fixed frames.',
  ['iamf/cli/codec/lpcm_decoder.cc', 'iamf/obu/decoder_config/lpcm_decoder_config.cc', 'iamf/obu/substream_channel_count.cc', 'iamf/cli/codec/decoder_base.h'],
  [('LpcmDecoder::Create, DecodeAudioFrame', 'iamf/cli/codec/lpcm_decoder.cc'), ('LpcmDecoderConfig::Validate', 'iamf/obu/decoder_config/lpcm_decoder_config.cc')],
  'abstract interpretation of the decoder over symbolic bytes; each sample is a linear term over the bytes, compared with the format in the same domain',
  'Frames up to 16 ticks and histories of up to three frames; bytes, frame length limit and configuration fields are symbolic.')
P('C14', 'Rendering gains equal the reference matrices and are applied as matrices',
  'For every pair of an input and an output layout for which a reference gain matrix is defined, the gain lookup returns that matrix (to six significant digits) with one row for every channel of the input layout and one column for every channel of the output layout; for every other pair it returns an error. Decoding a compressed matrix yields the matrix its bytes describe or an error, never an access outside its data. Every sound system and every loudspeaker layout selects the layout name whose channel count is its own. Rendering computes, for each output channel and tick, the sum over the input channels of sample times gain, refuses ragged frames and matrices with too few rows, and leaves nothing of earlier frames; the combined ambisonics gains are the product of the demixing matrix and the gain matrix.',
  ['inputs'], 'every pair of layouts, every matrix entry, every compressed matrix and every frame',
  'There are 243 matrices with some ten thousand gains, and a wrong entry is heard only with the right pair of layouts; tests look at a few pairs.',
  ['iamf/cli/renderer/gains', 'iamf/cli/renderer/loudspeakers_renderer.cc', 'iamf/cli/renderer/renderer_utils.cc', 'iamf/cli/renderer/audio_element_renderer_channel_to_channel.cc', 'iamf/cli/renderer/audio_element_renderer_ambisonics_to_channel.cc'],
  [('GetGainsForLayoutPair', 'iamf/cli/renderer/gains/get_gains.cc'), ('DecompressMatrix', 'iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.cc'), ('RenderChannelLayoutToLoudspeakers', 'iamf/cli/renderer/loudspeakers_renderer.cc')],
  'constant propagation of the tables through lookup and decoder for all pairs; abstract interpretation of decoder, renderer and matrix product over symbolic contents',
  'All 28 x 28 names; symbolic compressed matrices of up to 2x2 (and 4x1) channels; matrix products of up to 3x3 channels and 3 ticks.')
P('C22', 'The validation tools pass a file only when every stage passed',
  'The IAMF verifier ends with success, and its report with OVERALL RESULT: PASS, exactly when Compliance Warden, the loudness comparison, the optional Opus Ambisonics verification and, for every mix presentation found and each of the three layouts, decoding of both files, equal frame counts and the MLSD evaluation all succeeded; a missing tool, a failed .mp4 extraction, no mix presentation or any other return code than 0 never ends in PASS, and the ledger has one entry per stage that says what happened. The MLSD comparator refuses files of different formats, evaluates every channel against its own reference, reports every frame above the peak threshold and every maximal run of at least the minimum duration above the sustained threshold with its position, duration and mean, and passes exactly when there are none.',
  ['inputs', 'fault_sequences'], 'every combination of outcomes of the external stages, and every sequence of measured distances',
  'A verdict is wrong only for particular combinations (a tool killed by a signal, a report without its summary, a run that ends at the last frame); the tools have no test of the verifier at all.',
  ['validation/iamf_verifier/iamf_verifier.py', 'validation/mlsd_comparator/mlsd_comparator.py', 'validation/mlsd_comparator/mlsd_comparator_main.py'],
  [('main, _run_verifier', 'validation/iamf_verifier/iamf_verifier.py'), ('evaluate_audio_quality, detect_sustained_degradations', 'validation/mlsd_comparator/mlsd_comparator.py')],
  'trace-partitioned abstract interpretation of the Python syntax trees over opaque external facts',
  'Verifier: every single and every pair of failing facts (single ones with two mix presentations). Comparator: up to 5 frames and 3 channels, every ordering of distances and thresholds; the spectra are opaque terms compared by structure.')

P('C12', 'Bits are read and written exactly, or refused',
  'A bit reader returns the most-significant-bit-first value of exactly the bits at its position, for every width up to 64, every bit offset, every buffer capacity and source kind (memory, file, pushed stream), and every history of reads, seeks, pushes and flushes; signed, string, LEB128 and expandable sizes decode as their formats define. A bit writer appends exactly the bits it is given; LEB128 values take the minimum or the fixed number of bytes. A call whose bits are not there, or whose value does not fit, is refused and leaves the position where it was; running out of data is reported as such.',
  ['inputs', 'histories', 'configurations'], 'every bit pattern; every width and offset; sources up to twelve bytes with every capacity class; histories of up to five operations',
  'Tests read a few widths at a few offsets from a few buffers; the joint space of width, offset, capacity, refill point and history is where mistakes hide, and every parsed or written file goes through here.',
  ['iamf/common/read_bit_buffer.cc', 'iamf/common/read_bit_buffer.h', 'iamf/common/write_bit_buffer.cc', 'iamf/common/write_bit_buffer.h', 'iamf/common/leb_generator.cc'],
  [('ReadUnsignedLiteralInternal, Seek, Flush', 'iamf/common/read_bit_buffer.cc'), ('InternalWriteUnsigned', 'iamf/common/write_bit_buffer.cc'), ('Leb128ToUint8Vector', 'iamf/common/leb_generator.cc')],
  'trace-partitioned abstract interpretation over symbolic bits, compared with the bit string the format defines',
  'Every literal width at every offset and a grid of operation histories is executed abstractly with all source bits symbolic; bounded source length and history length.')
OBUFILES = ['iamf/obu', 'iamf/obu/decoder_config', 'iamf/obu/param_definitions', 'iamf/common/read_bit_buffer.cc', 'iamf/common/write_bit_buffer.cc']
OBUMECH = [('ReadAndValidatePayload / CreateFromBuffer of every OBU', 'iamf/obu/*.cc'), ('ValidateAndWriteObu', 'iamf/obu/obu_base.cc'),
           ('ObuHeader::ReadAndValidate, size and footer accounting', 'iamf/obu/obu_header.cc, obu_base.cc')]
OBUWHY = 'An OBU is a variable-length, nested bit syntax; which fields follow depends on sizes, flags and types read before. Unit tests parse a few hundred literal byte strings of it.'
OBUTECH = ('trace-partitioned abstract interpretation of the reading, validating and writing code over symbolic field sequences (intervals and linear terms; bit buffers '
           'abstracted to field tokens), compared with a grammar of the specification')
OBUNOTE = ('Every OBU kind, parameter definition, parameter data, decoder config and layout structure is interpreted from its header on; fields are symbolic, repetition counts are bounded (3 '
           'per loop, 7 in the grammar), and nested structures are explored in about 70 restrictions with a cap on partitions (quick 2,500 each, thorough 60,000). Partitions '
           'the abstraction cannot decide are counted in the evidence and raise no alarm. LEB128 sizes are kept as they were read.')
P('C06', 'OBUs are parsed exactly as the bitstream syntax lays them out',
  'For every OBU (sequence header, codec config with its Opus, AAC, FLAC and LPCM configurations, audio element with its channel, ambisonics and object configurations, mix presentation, parameter block, audio frame, temporal delimiter, metadata) the fields are taken from the bitstream in the order, with the widths, signs, repetition and presence conditions that the IAMF specification gives, land in the corresponding members with that value, and whatever the payload size leaves over is kept as the footer, neither more nor less.',
  ['inputs'], 'every sequence of field values of every OBU kind', OBUWHY, OBUFILES, OBUMECH, OBUTECH, OBUNOTE)
P('C07', 'What was parsed is written back unchanged',
  'Serialising an OBU that was parsed from a bitstream reproduces the same fields in the same order with the same values, extension bytes and footer included, and it is never refused or aborted. Documented normalisations apart: positions outside the legal angles are clipped, FLAC STREAMINFO is rewritten, a missing stereo layout is added to a sub-mix, opaque rendering extensions are kept as bytes, and a content_language of another length than three is refused.',
  ['inputs'], 'every OBU that parses', OBUWHY, OBUFILES, OBUMECH, OBUTECH, OBUNOTE)
P('C08', 'Valid OBUs are accepted and invalid ones are refused',
  'Parsing an OBU succeeds when the constraints the specification and this implementation document hold, and returns an error when one does not: payload sizes that cannot hold the fields, reserved or inconsistent types and flags, layouts that do not grow from layer to layer, substream counts that do not match, schedules that do not add up, duplicate identifiers, zero rates and durations, unsupported versions. No input makes it throw or abort, and no count taken from the input is followed before it was bounded.',
  ['inputs'], 'every sequence of field values of every OBU kind', OBUWHY, OBUFILES, OBUMECH, OBUTECH, OBUNOTE, thorough=True)
P('C09', 'Temporal units hold together what belongs together',
  'Whatever pieces a stream arrives in, with or without temporal delimiters, and with redundant, reserved, unknown or unrelated OBUs in between, the demultiplexer hands out every audio frame and parameter block of the stream in exactly one temporal unit, in order and with its data: those that cover the same time together, nothing held back once a later unit has begun, the last unit at the end of the stream, and the header of a following sequence left unread. Each frame starts where the previous frame of its substream ended and lasts its duration, likewise each parameter block, which is refused when it leaves a gap; a common timestamp is reported exactly when all substreams have reached it. Each audio element goes through the de-mixing and recon-gain blocks of its parameter one per frame, also when several elements share a parameter id: w follows the specified update rule over the history, a missing block means the default values, and a block of another frame or an advance to another time is refused. A temporal unit put together for output has at least one frame, frames and blocks that agree in time (and frames in trimming, which does not exceed the frame), no identifier twice, and is ordered by element, substream and parameter; its sample counts and times are those of its frames.',
  ['inputs', 'histories'], 'every order and division of the OBUs of a stream, and every history of frames and parameter blocks',
  'Where a unit ends depends on what follows it, on earlier timestamps and on how the data was cut; tests use a few streams with one frame size, and none of them is built here.',
  ['iamf/cli/obu_processor.cc', 'iamf/cli/global_timing_module.cc', 'iamf/cli/parameters_manager.cc', 'iamf/cli/temporal_unit_view.cc'],
  [('ProcessTemporalUnit, TemporalUnitData', 'iamf/cli/obu_processor.cc'), ('GetTimestampsForId, GetGlobalAudioFrameTimestamp', 'iamf/cli/global_timing_module.cc'), ('UpdateParameterState, GetDownMixingParameters', 'iamf/cli/parameters_manager.cc'), ('CreateFromPointers', 'iamf/cli/temporal_unit_view.cc')],
  'abstract interpretation of the demultiplexer, the clock and the parameter states over enumerated OBU sequences and call histories (typestate; payloads, durations, trims symbolic)',
  'Streams of up to three units of four OBUs with one extra OBU, cut anywhere; histories of up to three timestamps and twelve parameter frames; sample identifiers.')
P('C10', 'Descriptors are collected completely, or more data is asked for',
  'From the start of a sequence the descriptor parser collects exactly the descriptors it understands: the first codec config and the first valid audio element of each id, each element tied to an earlier codec config, and the mix presentations whose audio elements are all known, in order; OBUs that are reserved, metadata, invalid or refer to something missing are passed over whole, whatever their size, and the header that counts is the one that is not a redundant copy. It stops in front of the first temporal-unit OBU or the header of a following sequence (or at the end of the data when told that there is nothing else). As long as data is missing, and only then, it asks for more, with the buffer back at the beginning, and later succeeds with the same result. A sequence that does not begin with a valid header is refused, and so is a temporal-unit OBU among data that is said to be descriptors only.',
  ['inputs', 'histories'], 'every sequence of descriptor OBUs and every point at which it can be cut off',
  'Which OBU refers to what, and where the data ends within an OBU, decide the outcome; tests use a few sequences.',
  ['iamf/cli/descriptor_obu_parser.cc'],
  [('ProcessDescriptorObus, GetAndStoreMixPresentationObu, GetAndStoreAudioElement', 'iamf/cli/descriptor_obu_parser.cc')],
  'abstract interpretation of the descriptor parser over enumerated OBU sequences, cut at every byte (typestate of buffer and collection)',
  'Sequences of up to three of 20 kinds of descriptors after the header, some longer ones; sample identifiers.')
P('C13', 'Every substream carries exactly the channels its configuration defines',
  'For every audio element, encoder and decoder assign to each substream, in the order of its list of substream ids, exactly the channels its configuration defines: for channel layers those the layer adds to the layers before it (coupled pairs first, then the single channels), for an expanded layout the channels of that layout, for ambisonics the channel numbers mapped or projected onto the substream (inactive ones dropped), for objects one or two. An output gain is given to exactly the flagged channels a layer adds, with the signalled value, and each layer records its channel numbers. Elements whose ids repeat or are too few or too many, whose substream counts disagree with their layouts, whose layers lose channels, or whose layout is reserved, absent or in a wrong layer are refused.',
  ['inputs'], 'every sequence of layers, expanded layout, mapping and number of substreams',
  'A wrong table entry or a stale accumulation swaps channels only for the layer sequences that pass through it; tests use a handful of sequences.',
  ['iamf/cli/obu_with_data_generator.cc', 'iamf/cli/channel_label.cc'],
  [('FinalizeScalableChannelLayoutConfig, FinalizeAmbisonicsConfig, FinalizeObjectsConfig', 'iamf/cli/obu_with_data_generator.cc')],
  'constant propagation through the layout tables, compared with the specified channel groups for every sequence of layouts',
  'Every sequence of distinct layouts in which no channel number decreases, all expanded layouts, ambisonics up to order 4; ids and gains are sample values.')
P('C16', 'The streaming decoder hands out every unit once, in order, unchanged',
  'Whatever pieces the data of an IAMF stream arrives in and however calls are interleaved, the decoder hands out the temporal units of the stream in order, each exactly once: none is lost, repeated or replaced, in particular when the output buffer was too small (such a call writes nothing, reports no bytes, and the unit is still there afterwards), when several units are pending, and when the end is signalled. What is written is every sample interleaved in the requested sample type and in the requested channel ordering of the output layout, also for the first and the last unit, and never more than the output buffer holds. Decode is refused after the end was signalled; Reset and ResetWithNewMix are refused unless the decoder was created from descriptors, and otherwise discard everything pending and start again with the same descriptors and settings (or the new mix); queries fail before the descriptors are processed and then report the stream. Invalid descriptors or units lead to an error, never to termination or success, and consumed input is released.',
  ['inputs', 'histories'], 'every division of a stream into pieces and every interleaving of the API calls',
  'Lost or repeated units depend on where a piece ends, on the order of calls and on a call that failed before; tests use a few fixed sequences, and none of them is built here.',
  ['iamf/api/decoder/iamf_decoder.cc', 'iamf/api/conversion/channel_reorderer.cc', 'iamf/api/conversion/mix_presentation_conversion.cc', 'iamf/include/iamf_tools/iamf_decoder_interface.h'],
  [('Decode, GetOutputTemporalUnit, SignalEndOfDecoding, Reset, CreateObuProcessor', 'iamf/api/decoder/iamf_decoder.cc')],
  'abstract interpretation of the API over bounded call histories (typestate), with the OBU processor summarised as a source of temporal units',
  'Streams of three units in up to three pieces at every byte, six ways of fetching output in between, all 15 layouts, both sample types and orderings, and failing or empty units; the OBU processor behind it is a summary.')
P('C23', 'Down-mixing and de-mixing follow the specified equations and invert each other',
  'Each down-mixing step (7 to 5, 5 to 3, 3 to 2, 2 to 1 surround channels; 4 to 2 height channels, and 2 height channels to the front heights of 3.1.2) computes the linear combination the specification defines from alpha, beta, gamma, delta and w; each de-mixing step computes the inverse combination; the down-mixing parameters are the ones of the dmixp_mode, with w stepping by the mode within its range. For every chain of channel layers the encoder down-mixes the full layout to exactly the channels every layer adds, and the decoder, from those substreams in any order, reconstructs every channel of the full layout and of every lower layer. Frames with a missing channel, unequal lengths or a divisor too close to zero are refused.',
  ['inputs'], 'every chain of layers, every sample value, every mode and weight',
  'A wrong coefficient, label or order is only heard with particular layer chains and modes; tests look at single steps with a handful of numbers.',
  ['iamf/cli/demixer.cc', 'iamf/cli/downmixer.cc', 'iamf/cli/downmixer_factory.cc', 'iamf/cli/downmixer_manager.cc', 'iamf/cli/demixing_manager.cc', 'iamf/cli/channel_label.cc', 'iamf/cli/labeled_frame.cc', 'iamf/obu/demixing_info_parameter_data.cc'],
  [('Demixer, Downmixer', 'iamf/cli/demixer.cc, iamf/cli/downmixer.cc'), ('DemixingManager::Create, DemixOriginalAudioSamples, DemixDecodedAudioSamples', 'iamf/cli/demixing_manager.cc'), ('DMixPModeToDownMixingParams', 'iamf/obu/demixing_info_parameter_data.cc')],
  'abstract interpretation over symbolic samples: each output is a linear term over the input channels, compared with the equation; the two directions are composed symbolically',
  'All strictly growing chains of the loudspeaker layouts; frames of up to 3 ticks with symbolic samples; parameters of each mode and two generic ones.')
P('C24', 'Samples reach the output in the right channel, tick and bytes',
  'Arranging a decoded frame for rendering yields, for each requested label in order, exactly the samples of that label (or of its reconstruction, or silence where the label is omitted) without the ticks trimmed at the start and at the end, and reports the remaining ticks; it refuses frames that miss a label, have unequal lengths, or trim more than there is, for every value of the two counts. Interleaving and de-interleaving map tick t and channel c to position t*channels+c, refuse ragged frames and pass on a failing conversion. A PCM sample is written as its most significant bytes in the requested byte order, nothing else is touched. The channel order for Android is the specified permutation for every sound system, and the identity otherwise.',
  ['inputs'], 'every label selection, trim count, shape, sample size and sound system',
  'Swapped channels, a shifted trim or a stale length show only for particular layouts and frames; the functions are shared by every decoder and writer.',
  ['iamf/cli/sample_processing_utils.cc', 'iamf/cli/sample_processing_utils.h', 'iamf/api/conversion/channel_reorderer.cc', 'iamf/cli/labeled_frame.cc'],
  [('ArrangeSamples, WritePcmSample', 'iamf/cli/sample_processing_utils.cc'), ('ConvertInterleavedToChannelTime, ConvertChannelTimeToInterleaved', 'iamf/cli/sample_processing_utils.h'), ('ChannelReorderer::Reorder', 'iamf/api/conversion/channel_reorderer.cc')],
  'abstract interpretation over symbolic samples and trim counts, compared with the index map and the label table',
  'Frames of up to 4 channels and 4 ticks, every sample size, both byte orders, every sound system; trim counts are symbolic over 32 bits.')
