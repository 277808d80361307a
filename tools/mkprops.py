#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe=None):
    a = {'files': files, 'mechanism': [{'name': mechanism, 'where': files[0]}]}
    if observe:
        a['observe_at'] = [observe]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


BS = 'src/h264_bitstream_parser.cc'
p('P01', 'Annex B streams are cut at exactly their start codes',
  'For every byte buffer, the NAL units reported in Annex B mode are exactly those delimited by 3- and 4-byte start codes: start offset, payload offset '
  'and size of every unit are the positions in the buffer, in order, without gaps, overlaps or units running past the end, the zero byte of a 4-byte '
  'start code belonging to the start code and every other byte to the unit it follows. '
  'A start code opens a unit only if a byte follows it; bytes before the first start code belong to no unit, and a buffer without a start code has none.',
  ['inputs'], 'every byte string: start codes at any position, of either form, adjacent, overlapping with zero runs, at the very end or beginning, empty units, no start code at all',
  'The tests check half a dozen hand-written buffers; the boundary cases are in the number of zeros and the distance to the end of the buffer.',
  [BS, 'include/h264_bitstream_parser.h'], 'scan for 00 00 01 with look-back for the fourth byte; size of the previous unit fixed up when the next one is found',
  'H264BitstreamParser::FindNaluIndices, offset/length of each NalUnitState')
p('P02', 'Length-prefixed streams are cut at exactly their length fields',
  'For every byte buffer and every length-field size, the units reported in length-prefixed mode are exactly those described by the big-endian length '
  'fields: offset and length of each unit are those of its payload, and a zero, truncated or oversized length ends the parse '
  'with the units before it intact, however large the number it spells. '
  'With no length field the whole buffer is one unit; the index of 4-byte framed units follows the same cut, listing zero-length units too.',
  ['inputs', 'configurations'], 'every byte string and every length-field size from 0 up, including lengths near 2^32 and 2^64, truncated fields, trailing garbage',
  'The tests use one or two valid streams with 4-byte lengths.',
  [BS, 'include/h264_bitstream_parser.h'], 'accumulation of the length field and comparison with what is left of the buffer',
  'H264BitstreamParser::ParseBitstreamNALULength, FindNaluIndicesExplicitFraming')
p('P03', 'Emulation prevention bytes are removed, and nothing else',
  'For every byte string, unescaping removes exactly each 03 byte that directly follows two zero bytes of the input and keeps every other byte in order; '
  'a payload parsed from the escaped form therefore equals the payload parsed from its unescaped form, whatever structure the escape falls into.',
  ['inputs'], 'every byte string, in particular runs of zeros, escapes at the end, and parameter sets and slices whose encoding needs escapes',
  'Tests unescape a few fixed vectors; the interesting cases are runs and ends.',
  ['src/h264_common.cc', 'src/h264_nal_unit_parser.cc'], 'copy loop with a zero counter', 'UnescapeRbsp, ParseNalUnit')
p('P04', 'The bit reader returns exactly the bits, or fails without moving',
  'For every buffer and every sequence of reads, peeks, skips and seeks, each successful read returns the value the H.264 descriptor (u(n), ue(v), se(v), ns(n), whole bytes) '
  'assigns to the bits at the current position and advances by exactly their number, and the position never exceeds the buffer. '
  'A read that does not fit, or an Exp-Golomb code that is too long, fails, and a failed u(n), Exp-Golomb read, skip or seek leaves the position where it was.',
  ['inputs', 'histories'], 'every buffer up to the end, every bit phase, every width 0..64, every code length, every sequence of operations',
  'Tests read a few values from aligned or fixed positions.',
  ['src/rtc_common.cc', 'include/rtc_common.h'], 'byte/bit offsets, partial byte reads, restoring the offset of a failed Exp-Golomb read', 'BitBuffer')
p('P05', 'The bit writer writes exactly the bits asked for, and only those',
  'For every buffer and every sequence of writes, each successful write stores exactly the bits of the encoding of the value at the current position, leaves every other bit of the buffer as it was, '
  'and advances by the number of bits; what is written is read back as the same value. '
  'A write that does not fit, or a value that the encoding cannot express, fails and changes nothing.',
  ['inputs', 'histories'], 'every width 0..64, bit phase, previous content, value (including the extremes of ue and se) and amount of room left',
  'Tests write a few values into zeroed buffers.',
  ['src/rtc_common.cc', 'include/rtc_common.h'], 'read-modify-write of the first and last byte', 'BitBufferWriter')
p('P06', 'The end of RBSP data is recognised exactly',
  'For every RBSP and every position in it, "more RBSP data" holds exactly when there is a bit before the rbsp_stop_one_bit (the last 1 bit of the data) still to be read, asking does not move the position, '
  'and trailing bits are accepted exactly when a 1 followed by zeros up to the byte boundary is next. '
  'Optional tails (transform and scaling part of a PPS, extension data of a prefix NAL unit or subset SPS) are therefore parsed if and only if they are present, whatever zero bytes follow.',
  ['inputs'], 'every byte string and bit position, any number of trailing zero bytes',
  'Tests check a handful of buffers; the answer depends on the last bits of arbitrary buffers.',
  ['src/h264_common.cc', 'src/h264_pps_parser.cc', 'src/h264_prefix_nal_unit_parser.cc', 'src/h264_subset_sps_parser.cc'],
  'look-ahead over what is left of the buffer', 'more_rbsp_data, rbsp_trailing_bits, byte_aligned, get_current_offset')
p('P07', 'Sequence parameter sets decode to the syntax of 7.3.2.1.1',
  'For every SPS NAL unit, each element reported is the value that the syntax table 7.3.2.1.1 of H.264 assigns to the bits, including scaling lists (the last of each size is kept) and their fallback flags, picture order count parameters and cropping; '
  'elements that are absent have their inferred values. '
  'An SPS whose bits end early or whose elements are outside the ranges the parser documents is reported as not parsed.',
  ['inputs'], 'every SPS: all profiles, chroma formats, scaling list contents, POC types, cropping, VUI present or not, truncated anywhere, any value of any element',
  'Tests parse about ten fixed SPSs; most combinations of optional parts never occur.',
  ['src/h264_sps_parser.cc', 'include/h264_sps_parser.h'], 'sequential reads guarded by earlier elements', 'SpsState, SpsDataState')
p('P08', 'VUI and HRD parameters decode to the syntax of Annex E',
  'For every SPS with VUI parameters, each VUI and HRD element is the value Annex E assigns to the bits, NAL and VCL HRD parameters are kept apart and carry cpb_cnt_minus1+1 schedules each, '
  'and elements whose flag is 0 are absent with their inferred values. '
  'Out-of-range or truncated VUI or HRD parameters make the SPS not parsed rather than partially reported.',
  ['inputs'], 'every combination of presence flags, every cpb count, every value, every truncation point',
  'Tests cover a few VUIs from real streams; most flags are never set.',
  ['src/h264_vui_parameters_parser.cc', 'src/h264_hrd_parameters_parser.cc'], 'presence flags and loops', 'VuiParametersState, HrdParametersState')
p('P09', 'Picture parameter sets decode to the syntax of 7.3.2.2',
  'For every PPS NAL unit, each element is the value syntax table 7.3.2.2 assigns to the bits, for every slice group map type (run lengths, rectangles, change rate, explicit group ids of Ceil(Log2(n+1)) bits) '
  'and with or without the transform/scaling tail; absent elements have their inferred values. '
  'Truncated or out-of-range PPSs are reported as not parsed.',
  ['inputs'], 'every number of slice groups and map type, every scaling list, every value and truncation; 4:2:0 sequences (see known finding KF-2)',
  'Tests parse a few PPSs, none with most slice group types.',
  ['src/h264_pps_parser.cc', 'include/h264_pps_parser.h'], 'sequential reads guarded by earlier elements', 'PpsState')
p('P10', 'Slice headers decode to 7.3.3 under the active parameter sets',
  'For every slice NAL unit (types 1 and 5) and every set of stored parameter sets, the slice header elements are those syntax table 7.3.3 assigns to the bits, with field widths and presence decided by the PPS the slice names and the SPS that PPS names: '
  'frame_num, POC, reference list modification, prediction weights, reference picture marking, QP, deblocking and slice group change cycle. '
  'A slice whose parameter sets are missing, or that is truncated or out of range, is reported as not parsed.',
  ['inputs', 'histories'], 'every slice type, every pair of parameter sets, every value and truncation',
  'Tests parse fewer than twenty slices under two or three parameter set pairs; widths and presence are functions of the parameter sets.',
  ['src/h264_slice_header_parser.cc', 'src/h264_ref_pic_list_modification_parser.cc', 'src/h264_pred_weight_table_parser.cc',
   'src/h264_dec_ref_pic_marking_parser.cc', 'src/h264_slice_layer_without_partitioning_rbsp_parser.cc'],
  'reads guarded by the active SPS and PPS', 'SliceHeaderState and its sub-states')
p('P11', 'NAL unit headers and prefix NAL units decode exactly',
  'For every NAL unit, forbidden_zero_bit, nal_ref_idc and nal_unit_type are those of the first byte, types 14, 20 and 21 carry the extension flag and the SVC extension fields where the flag says so, and a truncated header or one with an MVC or 3D-AVC extension yields no unit. '
  'A prefix NAL unit carries the reference base picture marking and extension elements exactly as 7.3.2.12/G.7.3.2.12.1 order them.',
  ['inputs'], 'every first four bytes; every prefix NAL unit payload',
  'Tests check a few headers.',
  ['src/h264_nal_unit_header_parser.cc', 'src/h264_nal_unit_header_svc_extension_parser.cc', 'src/h264_prefix_nal_unit_parser.cc'],
  'bit fields in order', 'NalUnitHeaderState, PrefixNalUnitRbspState, GetNalUnitType')
p('P12', 'Subset SPSs decode to 7.3.2.1.3 and their SVC extension',
  'For every subset SPS NAL unit, the embedded SPS data and the SVC extension elements (for the scalable profiles) are those the syntax tables assign to the bits, for every chroma format, and the extension flags that follow are read from where they are. '
  'Truncated or out-of-range subset SPSs are reported as not parsed and store nothing.',
  ['inputs'], 'every profile, chroma array type, extended spatial scalability and every truncation (bodies that are documented as unimplemented are known finding KF-1)',
  'Tests parse two subset SPSs.',
  ['src/h264_subset_sps_parser.cc', 'src/h264_sps_svc_extension_parser.cc'], 'reads guarded by profile and chroma array type', 'SubsetSpsState')
p('P13', 'Scalable slice headers decode under the subset SPS they activate',
  'For every coded slice extension NAL unit, the slice header in scalable extension is the one syntax table G.7.3.3.4 assigns to the bits under the PPS and subset SPS it names and the header extension of its own NAL unit; '
  'absent elements have their inferred values, in particular the reference index counts come from the PPS when not overridden. '
  'A slice whose parameter sets are missing, or that is truncated or out of range, is reported as not parsed.',
  ['inputs', 'histories'], 'every combination of quality id, dependency, inter-layer prediction, slice type and parameter sets',
  'Tests parse three slices of one stream.',
  ['src/h264_slice_header_in_scalable_extension_parser.cc', 'src/h264_slice_layer_extension_rbsp_parser.cc'], 'reads guarded by NAL header extension, PPS, subset SPS',
  'SliceHeaderInScalableExtensionState')
p('P14', 'Each NAL unit is dispatched by its type and fails alone',
  'For every stream, each NAL unit with a usable header yields exactly one entry with its own header, offset, length, parsed length and the payload structure of its type; types without a parser yield an entry without payload and count as parsed. '
  'A unit that cannot be parsed yields an entry that says so, and changes nothing about how the other units of the stream are parsed.',
  ['inputs', 'histories'], 'every sequence of NAL units of all 32 types, valid, corrupted, truncated or empty, in any order',
  'Tests parse well-formed streams.',
  ['src/h264_nal_unit_parser.cc', 'src/h264_nal_unit_payload_parser.cc', BS], 'switch on nal_unit_type; per-unit results', 'NalUnitState, NalUnitPayloadState::IsPayloadParsed, parsed_length')
p('P15', 'Parameter set stores hold the last decoded set of each id',
  'After every history of NAL units, the stored SPSs, PPSs and subset SPSs are, for each identifier, the most recent one that was decoded, with its full content; a failed or foreign unit changes no entry. '
  'A slice is always decoded with the sets stored at the moment it arrives, and sets of the three kinds never stand in for each other.',
  ['histories'], 'every history of parameter sets, re-transmissions with other contents, failures in between, and slices',
  'Tests push one set of each kind; replacement, failure and cross-kind confusion need histories.',
  ['src/h264_nal_unit_payload_parser.cc', 'src/h264_bitstream_parser_state.cc', 'include/h264_bitstream_parser_state.h'], 'maps keyed by id, updated after a successful parse',
  'H264BitstreamParserState')
p('P16', 'Unsupported syntax is counted, supported syntax is not',
  'The unimplemented-syntax count increases by exactly one for each unimplemented structure that is met (MVC and 3D-AVC header extensions, reference base picture marking, MVC list modification), and by nothing else: neither broken nor supported syntax counts. '
  'The count is process-wide, monotone until reset, and loses no increment under concurrent parsing.',
  ['inputs', 'histories', 'schedules'], 'every history of NAL units, through every entry point, on any number of threads',
  'Tests check one structure at a time on one thread.',
  ['src/h264_common.cc', 'src/h264_nal_unit_header_parser.cc', 'src/h264_prefix_nal_unit_parser.cc', 'src/h264_slice_header_parser.cc', 'src/h264_slice_header_in_scalable_extension_parser.cc'],
  'atomic counter, one report per bail-out', 'get_unimplemented_count, reset_unimplemented_count')
p('P17', 'The NAL unit checksum is the one\'s complement sum of its bytes',
  'When requested, the checksum of a NAL unit is the inverted 32-bit one\'s complement sum of the big-endian words of the unescaped unit (zero padded at the end), a function of these bytes only; it is printed as eight hexadecimal digits. '
  'Computing it neither moves the read position nor changes what is parsed, and without the option there is none.',
  ['inputs'], 'every byte string: every length modulo 4, repeated carries, up to hundreds of kilobytes',
  'Tests check one or two sums; carries that propagate twice are rare.',
  ['src/h264_common.cc', 'include/h264_common.h', 'src/h264_nal_unit_parser.cc'], 'end-around carry', 'NaluChecksum')
p('P18', 'Every entry point and option mask gives the same decoding',
  'The same NAL units give the same headers, payloads and parameter set stores whether they arrive in an Annex B buffer, a length-prefixed buffer of any length size, one by one, escaped or already unescaped, part by part through the parsers of header, payload and structure, or as RTP packets, in one call or many sharing a state. '
  'The output options (offset, length, parsed length, checksum, resolution) change only whether those annotations appear, and are recorded with the result.',
  ['inputs', 'configurations'], 'every stream, every entry point, every one of the 32 option masks, every split of the stream over calls',
  'Tests use each entry point with its own data and one or two masks.',
  [BS, 'src/h264_nal_unit_parser.cc', 'src/h264_rtp_parser.cc'], 'thin overloads', 'ParseBitstream*, ParseNalUnit*, ParseNalUnitPayload, ParseSliceLayer*Rbsp, ParsePrefixNalUnit*, ParseRtp*')
p('P19', 'RTP payloads decode to the NAL units they carry',
  'For every RTP payload, a single NAL unit packet yields that unit, a STAP-A yields its aggregated units in order with their sizes and is dropped as a whole if a size exceeds the packet or a unit has no usable header, and an FU-A yields its indicator and FU header and, on the first fragment only, the payload start decoded under the reassembled header; other packet types yield the header only. '
  'Parameter sets and slices carried in any form update and use the same state as elsewhere.',
  ['inputs', 'histories'], 'every payload of every packet type, truncated anywhere, with escapes in any aggregated unit',
  'Tests parse one packet of each type.',
  ['src/h264_rtp_parser.cc', 'src/h264_rtp_single_parser.cc', 'src/h264_rtp_stapa_parser.cc', 'src/h264_rtp_fua_parser.cc'], 'dispatch on packet type; size-delimited loop', 'RtpState')
p('P21', 'The text rendering shows exactly the decoded elements',
  'For every parsed NAL unit, bitstream or RTP packet, the text rendering lists exactly the syntax elements that are present, in syntax order and nested as the structures are, each with its decoded value (negative values as negative numbers, absent optional elements not at all), and a payload that was not decoded as an empty payload block. '
  'The one-line and the indented form carry the same text up to line breaks and indentation, and the output options add or remove only their own annotations.',
  ['inputs', 'configurations'], 'every decodable or refused unit, every option mask, both forms, every combination of optional elements and nesting',
  'Tests compare a handful of complete renderings of fixed inputs; optional elements, signs and list lengths vary with the input.',
  ['src/h264_nal_unit_parser.cc', 'src/h264_nal_unit_payload_parser.cc', 'src/h264_sps_data_parser.cc', 'src/h264_slice_header_parser.cc', 'src/h264_vui_parameters_parser.cc', 'src/h264_rtp_parser.cc'],
  'hand-written fdump() per structure', 'fdump of NalUnitState, BitstreamState, RtpState')
p('P23', 'Every input is answered: no crash, no overread, no hang',
  'For every byte string through every public parsing function, with any state, the call returns in time bounded by a small multiple of the input size with an answer or a refusal: no read or write outside the buffers, no arithmetic the language leaves undefined, no abort, no unbounded loop or allocation. '
  'A refused input leaves the process able to parse the next one as if nothing had happened.',
  ['inputs', 'histories'], 'arbitrary bytes, hostile counts and lengths, truncations at every byte, mutated valid streams, empty inputs',
  'Tests hold well-formed inputs and a few corpus files.',
  ['src', 'include'], 'bounds checks in every parser', 'every public entry point under address and undefined-behaviour sanitizers')
p('P24', 'Values derived from an SPS are those of the standard\'s formulas',
  'For every decoded SPS, ChromaArrayType, SubWidthC/SubHeightC, the crop units, the cropped picture width and height, the profile (with constraint flags) and the frame rate are those the formulas of H.264 give for its elements. '
  'So are the widths of frame_num, pic_order_cnt_lsb, slice_group_change_cycle and slice_group_id that parameter sets determine.',
  ['inputs'], 'every chroma format, colour plane mode, frame/field mode, cropping, profile and constraint flags, timing',
  'Tests check three or four resolutions, all 4:2:0 progressive.',
  ['src/h264_sps_parser.cc', 'src/h264_vui_parameters_parser.cc', 'src/h264_common.cc'], 'formulas (6-1) to (7-22)', 'getResolution, getProfileType, getFramerate, getChromaArrayType')
p('P25', 'Values outside their permitted range are refused, all others accepted',
  'For every element with a permitted range (identifiers, counts, bit depths, picture sizes, crop offsets, reference counts, offsets, QP deltas, scaling deltas, HRD and VUI limits), a NAL unit with the element at either end of its range is decoded, and one with the element beyond it is reported as not parsed and stores nothing. '
  'Other elements of the unit do not affect this.',
  ['inputs'], 'every bounded element, at and around both ends of its range, with random values of everything else',
  'Tests check almost no out-of-range values.',
  ['src/h264_sps_parser.cc', 'src/h264_pps_parser.cc', 'src/h264_vui_parameters_parser.cc', 'src/h264_hrd_parameters_parser.cc', 'src/h264_slice_header_parser.cc', 'include/h264_common.h'],
  'kXxxMin/kXxxMax checks after each read', 'whether the payload is null')
p('P26', 'Parsing is a function of the bytes and the caller\'s own state',
  'The result of a call depends only on its bytes, options and the parser state passed in: repeating a history gives the same results, parsing with one state never affects another, calls with internal state leave nothing behind, and results already returned do not change when later units are parsed or stored sets replaced. '
  'Threads with states of their own get the results they would get alone.',
  ['histories', 'schedules'], 'every interleaving of calls on several states, every repetition, any number of threads',
  'Tests parse each input once, on one thread.',
  ['src', 'include/h264_bitstream_parser_state.h'], 'no static state but the unimplemented counter; shared_ptr ownership', 'all entry points')
p('P30', 'SPS extensions decode to 7.3.2.1.2',
  'For every SPS extension RBSP, each element (auxiliary format, bit depth, alpha values of bit_depth_aux_minus8+9 bits) is the value syntax table 7.3.2.1.2 assigns to the bits, and truncated or out-of-range ones are refused.',
  ['inputs'], 'every auxiliary format and bit depth, every truncation',
  'Tests parse one.',
  ['src/h264_sps_extension_parser.cc'], 'reads guarded by aux_format_idc', 'H264SpsExtensionParser::ParseSpsExtension')

CLI = 'tools/h264nal.cc'
p('P20', 'The exit status of the tool tells whether the stream was fully parsed',
  'For every file and every valid combination of options, h264nal exits 0 if and only if every NAL unit of the stream was parsed, 1 if some unit was dropped (in Annex B mode; in length-prefixed mode dropped units go uncounted, as documented) or has a payload that could not be parsed, and 2 if (and whenever) unimplemented syntax was met; --quiet and the output options do not change this. '
  'Unusable arguments and files that cannot be read or are empty give 255 and no output.',
  ['inputs', 'configurations'], 'every stream: valid, damaged, truncated, unsupported, empty; every option and option order; Annex B and every length size; from a file or from standard input',
  'Tests never run the tool.',
  [CLI, 'src/h264_bitstream_parser.cc'], 'counts of dropped, unparsed and unimplemented units', 'exit status of the command line tool')
p('P22', 'The length table lists every NAL unit and the bit rate of every frame',
  'For every stream, --dump-length prints one row per parsed NAL unit, in stream order, with its number, its frame, its type and type name, its length in bytes and, for slices, the first macroblock; slices with first macroblock 0 open a new frame, and each frame is closed by a row with 8 * frames-per-second * (bytes of its slices) exactly. '
  'Type names and the slice, reserved and unspecified classes are those of Table 7-1 for all 32 types.',
  ['inputs', 'configurations'], 'every sequence of NAL unit types and sizes, any number of slices per frame, any frame rate, both framings',
  'Tests never run the tool; the bit rate exceeds 32 bits only for large frames.',
  [CLI, 'src/h264_common.cc', 'include/h264_common.h'], 'running sum, flushed at each first slice and at the end', 'standard output of h264nal --dump-length; NalUnitTypeToString, IsSliceSegment, IsNalUnitTypeReserved, IsNalUnitTypeUnspecified')
p('P27', 'h264nal-split cuts exactly where the resolution changes and loses nothing',
  'For every Annex B file whose units all parse, h264nal-split.py writes one numbered file per run of equal resolutions, each but the first beginning at the start code of the SPS that changed the (cropped) resolution, and the files joined in order are the input byte for byte. '
  'With no change of resolution, or a file h264nal reports as invalid, nothing is written.',
  ['inputs'], 'every sequence of SPSs and other units, repeated and returning resolutions, croppings, sample aspect ratios, three- and four-byte start codes, zero bytes between units',
  'There is no test of the script.',
  ['tools/h264nal-split.py', CLI], 'regular expressions over the text rendering', 'names and contents of the files written')
p('P28', 'The conformance summary states what each stream contains',
  'For every directory of streams, h264nal-conformance.py writes one row per stream in name order with the distinct resolutions, profiles and levels of its SPSs and subset SPSs in order of appearance, the number of NAL units, of slice NAL units and of slice headers parsed, and a status that is 0 only if h264nal parsed everything and said nothing. ',
  ['inputs'], 'every mixture of streams: several parameter sets, every profile and level (1b included), damaged slices, unsupported extensions, empty files',
  'There is no test of the script.',
  ['tools/h264nal-conformance.py', CLI], 'regular expressions over the text rendering', 'the CSV file written')
p('P29', 'The DPB table simulates reference marking as the standard defines it',
  'For every conforming stream of frames with one SPS, h264nal-dpb_parse.py writes one row per picture whose reference frames before and after the picture are those of the decoded reference picture marking process (sliding window, memory_management_control_operation 1 to 6, IDR, frame_num wrapping around), whatever the slice_type numbering and however many PPSs and slices there are. '
  'For P and SP pictures the row lists the active entries of reference list 0 after modification; the marking operations, picture type, frame_num and numbering within the stream and its GOPs are those of the stream.',
  ['inputs', 'histories'], 'every history of marking operations, list modifications and frame_num wraps that a conforming stream of frames can contain',
  'There is no test of the script; errors show only after particular histories (an index assigned twice, frame_num wrapped, long-term frames filling the buffer).',
  ['tools/h264nal-dpb_parse.py', CLI], 'dpb bookkeeping per picture', 'the rows of the CSV table written')
p('P31', 'The small footprint build parses like the full build',
  'Built with H264NAL_SMALL_FOOTPRINT (no text rendering, no RTP, no messages), library and tool compile, every remaining entry point gives the answers the full build gives, and the tool, which then writes no text, exits with the same status. ',
  ['inputs', 'configurations'], 'every stream and option of the other properties, in the other configuration',
  'The tests are built in the full configuration only.',
  ['src', 'include', CLI, 'src/CMakeLists.txt'], '#ifdef FDUMP_DEFINE / RTP_DEFINE / FPRINT_ERRORS', 'all entry points of the small build, and its exit status')
p('P32', 'The tool prints every parsed NAL unit, once, in order, as asked for',
  'For every stream, h264nal --dump-all prints the text rendering of each parsed NAL unit, in stream order, one line per unit (or indented with --no-as-one-line), with offset, length, parsed length, checksum, resolution and hexadecimal contents exactly when asked for; --add-contents shows precisely the bytes of the unit. '
  'A later option overrides an earlier one, and -o FILE receives what standard output would.',
  ['inputs', 'configurations'], 'every stream and every sequence of options, Annex B and every length size, files and standard input',
  'Tests never run the tool.',
  [CLI], 'loop over the parsed units', 'output of h264nal')

P.sort(key=lambda x: x['id'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
