#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they are easy to review."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("B01", "Bit fields, flags and Exp-Golomb codes are read and written exactly",
  "Reading any sequence of bit fields, flags and signed or unsigned Exp-Golomb codes from a buffer returns exactly the values that a bit-by-bit reading gives and advances the position by exactly the bits consumed, and fields written one after another read back unchanged. A read that needs more bits than remain, or a code whose value does not fit into 32 bits, returns an error and never touches memory outside the buffer.",
  ["inputs", "histories"], "all buffers, bit offsets, widths 0-64 and sequences of reads and writes",
  "the unit tests read five fields from one buffer; offset, width, value and end-of-buffer combinations are a product space",
  ["pkg/bits/read.go", "pkg/bits/write.go"],
  [("ReadBits/ReadFlag/ReadGolombUnsigned/ReadGolombSigned/HasSpace", "pkg/bits/read.go"), ("WriteBitsUnsafe/WriteFlagUnsafe", "pkg/bits/write.go")])
p("B02", "A rewound reader replays exactly the recorded bytes, then continues",
  "Whatever the sizes of the reads made before and after rewinding and however the underlying source splits, delays or fails its reads, the bytes returned after the rewind are the complete source stream from its beginning, in order, without loss, duplication or modification, followed by the source's own error. Reading more than the documented recording limit before rewinding is an error, never a silent truncation.",
  ["histories", "fault_sequences"], "all sequences of read sizes before and after the rewind, all short reads, empty reads, data-with-error reads and error points of the source",
  "the test uses one source and one read size; the property quantifies over the source's behaviour and the caller's read sizes",
  ["pkg/rewindablereader/reader.go"], [("Reader.Read / Reader.Rewind", "pkg/rewindablereader/reader.go")])

p("H01", "Annex-B and AVCC framing return exactly the NAL units that were framed",
  "Any access unit of NAL units encoded to Annex-B or to length-prefixed (AVCC) form and decoded again gives the same NAL units in the same order; decoding splits at every 3-byte and 4-byte start code (or length field), skips empty units and never alters, merges, drops or truncates a unit. Malformed input, an access unit without NAL units and input over the documented size or count limits give an error.",
  ["inputs"], "all lists of NAL units and all byte strings made of start codes, length fields and payload bytes, up to and across the documented limits",
  "tests hold a few hand-written access units; the delimiter logic depends on every alignment of zero bytes around start codes",
  ["pkg/codecs/h264/annexb.go", "pkg/codecs/h264/avcc.go", "pkg/codecs/h264/h264.go"],
  [("AnnexB.Unmarshal/Marshal", "pkg/codecs/h264/annexb.go"), ("AVCC.Unmarshal/Marshal", "pkg/codecs/h264/avcc.go")])
p("H02", "Removing emulation prevention exactly inverts its insertion",
  "For every payload, inserting emulation prevention bytes as the H.264/H.265 specifications require and removing them with the library gives the payload back, bit for bit, leaving the input untouched; bytes that are not emulation prevention bytes are never removed.",
  ["inputs"], "all byte strings (exhaustively over the alphabet that matters, 00-04 and FF)",
  "tests hold three strings; the rule depends on overlapping runs of zero bytes",
  ["pkg/codecs/h264/emulation_prevention.go"], [("EmulationPreventionRemove", "pkg/codecs/h264/emulation_prevention.go")])
p("H03", "H.264 SPS decoding returns every coded field and correct size and frame rate",
  "For every conformant H.264 sequence parameter set, decoding returns exactly the coded value of every exposed field, and the derived width, height and frame rate are those that the specification derives from them (chroma format, interlacing, cropping, timing). Anything that is not a sequence parameter set or is truncated is rejected with an error.",
  ["inputs"], "all combinations of profile, optional sections, flags and boundary field values",
  "tests decode about a dozen real-world SPSs; the syntax is a tree of optional sections whose combinations are exponential",
  ["pkg/codecs/h264/sps.go"], [("SPS.Unmarshal, Width, Height, FPS", "pkg/codecs/h264/sps.go")])
p("H04", "H.265 SPS and PPS decoding return every coded field and correct size and rate",
  "For every conformant H.265 sequence or picture parameter set, decoding returns exactly the coded value of every exposed field, and the derived width, height and frame rate are those that the specification derives from them (conformance window, chroma format, timing). Anything that is not such a parameter set or is truncated is rejected with an error.",
  ["inputs"], "all combinations of sub-layer counts, optional sections, scaling lists, reference picture sets (explicit and predicted), flags and boundary values",
  "tests decode about ten real-world SPSs and two PPSs; sections nest and depend on each other",
  ["pkg/codecs/h265/sps.go", "pkg/codecs/h265/pps.go"], [("SPS.Unmarshal, Width, Height, FPS", "pkg/codecs/h265/sps.go"), ("PPS.Unmarshal", "pkg/codecs/h265/pps.go")])
p("H05", "H.264 DTS extraction never goes back and follows reordered streams",
  "For every progressive constant-frame-rate H.264 stream whose picture order count advances by two per frame (any P, B and pyramid group-of-pictures structure, POC wrap-around, repeated IDRs, slice header layout), every access unit from the first IDR on gets a DTS; a stream that follows a change of SPS is handled as one that starts there; DTSs never decrease, are not later than the PTS (except for a 90-tick hold-back per picture while a deeper reordering depth is being discovered) and advance by one frame duration in the steady state. Streams whose picture order count advances by one per frame are followed in the same way once the first pictures have revealed it. Streams with POC type 2 get DTS = PTS. Whatever the access units, the result is an error or a DTS that is not less than the previous one, never a panic, and there is no DTS before the first SPS or, for reordered streams, before the first IDR.",
  ["histories", "configurations"], "all sequences of mini GOPs up to a bound over all reordering structures, POC widths and wrap-arounds; all short sequences of arbitrary access units",
  "tests replay a few recorded streams; correctness depends on the whole history of pictures (expected POC, reorder depth, pauses)",
  ["pkg/codecs/h264/dts_extractor.go"], [("DTSExtractor.Extract", "pkg/codecs/h264/dts_extractor.go")],
  state=[("DTSExtractor", "prevDTS, expectedPOC, reordered frames, pause counter", "pkg/codecs/h264/dts_extractor.go")])
p("H06", "H.265 DTS extraction never goes back and is never later than the PTS",
  "For every progressive constant-frame-rate H.265 stream made of IDR, CRA, trailing and RASL pictures (any P, B and pyramid group-of-pictures structure, predicted or explicit reference picture sets in the SPS or in the slice, any number of sub-layers, leading pictures, parameter set changes, slice header layout), every access unit from the first random access point on gets a DTS; DTSs never decrease, are not later than the PTS and are the decoding slots in the steady state. Whatever the access units, the result is an error or a DTS that is neither less than the previous one nor later than the PTS, never a panic, and there is no DTS before the first random access point with its parameter sets.",
  ["histories", "configurations"], "all sequences of picture groups up to a bound over all reordering structures and slice header layouts; all short sequences of arbitrary access units",
  "tests replay a few recorded streams; correctness depends on the whole history of pictures and on bit-exact slice header parsing",
  ["pkg/codecs/h265/dts_extractor.go"], [("DTSExtractor.Extract", "pkg/codecs/h265/dts_extractor.go")],
  state=[("DTSExtractor", "prevDTS, reordering depth, pause counter", "pkg/codecs/h265/dts_extractor.go")])
p("H07", "Random access points are recognised exactly, for every video codec",
  "An H.264, H.265, AV1, VP8 or VP9 access unit is reported as randomly accessible exactly when it contains a picture of a type from which decoding can start (H.264 IDR; H.265 IDR or CRA; AV1 sequence header; VP8 or VP9 key frame), wherever that unit is within the access unit and whatever the other header bits are.",
  ["inputs"], "all NAL/OBU header bytes at every position of access units of up to 3 units; all frame header prefixes",
  "tests check one positive and one negative case per codec",
  ["pkg/codecs/h264/is_random_access.go", "pkg/codecs/h265/is_random_access.go", "pkg/codecs/av1/is_random_access.go", "pkg/codecs/vp8/is_random_access.go", "pkg/codecs/vp9/is_random_access.go"],
  [("IsRandomAccess / IsRandomAccess2", "pkg/codecs/*/is_random_access.go")])
p("V01", "AV1 temporal units survive bitstream encoding and decoding",
  "Any temporal unit (list of AV1 OBUs) encoded to the low-overhead bitstream and decoded again gives the same OBUs; decoding accepts any legal LEB128 spelling of sizes and any OBU header, and returns exactly the OBU payloads with their size field removed. LEB128 values round-trip with the exact length reported; truncated sizes, sizes that exceed the data and sizes beyond 32 bits give an error.",
  ["inputs"], "all OBU lists over all headers with or without extension and size boundaries; all LEB128 strings up to 9 bytes over a boundary alphabet",
  "tests hold two temporal units and a few LEB128 values",
  ["pkg/codecs/av1/bitstream.go", "pkg/codecs/av1/leb128.go", "pkg/codecs/av1/obu_header.go"],
  [("Bitstream.Unmarshal/Marshal", "pkg/codecs/av1/bitstream.go"), ("LEB128", "pkg/codecs/av1/leb128.go"), ("OBUHeader", "pkg/codecs/av1/obu_header.go")])
p("V02", "AV1 sequence header decoding returns every coded field",
  "For every conformant AV1 sequence header made of supported features, with or without OBU size field, decoding returns exactly the coded value of every exposed field and the derived width and height, both into a fresh value and into a value used before. Headers that are truncated, have the wrong OBU type or use unsupported features are rejected with an error.",
  ["inputs", "histories"], "all combinations of optional sections (reduced header, timing, operating points, order hints, color config) and boundary values, decoded alone and in pairs",
  "tests decode three headers", ["pkg/codecs/av1/sequence_header.go"], [("SequenceHeader.Unmarshal, Width, Height", "pkg/codecs/av1/sequence_header.go")])
p("V03", "VP9 frame header decoding returns every coded field",
  "For every VP9 uncompressed key or non-key frame header in any profile, decoding returns exactly the coded frame type, profile, bit depth, color space, subsampling and frame size; shown-existing-frame headers are recognised. Truncated headers, wrong markers or sync codes are rejected with an error.",
  ["inputs"], "all profiles, color configurations, flags and boundary sizes, and every truncation",
  "tests decode a handful of headers", ["pkg/codecs/vp9/header.go"], [("Header.Unmarshal, Width, Height, ChromaSubsampling", "pkg/codecs/vp9/header.go")])
p("V04", "JPEG segments and MPEG-4 Video configurations are coded exactly",
  "JPEG marker segments written by the library decode back to the same tables, sizes, precisions and types, and are laid out as the JPEG specification says. An MPEG-4 Video configuration is accepted exactly when it is a sequence of start-code-delimited units that begins with a visual object sequence and contains no picture data, and no byte string makes the decoders fail other than by returning an error.",
  ["inputs"], "all field values at their boundaries, all table layouts, every truncation, all short byte strings over a start code alphabet",
  "tests hold one instance of each", ["pkg/codecs/jpeg", "pkg/codecs/mpeg4video/is_valid_config.go"],
  [("Unmarshal/Marshal of DefineQuantizationTable, StartOfFrame1, DefineRestartInterval, ...", "pkg/codecs/jpeg"), ("IsValidConfig", "pkg/codecs/mpeg4video/is_valid_config.go")])
p("A01", "MPEG-4 Audio configurations round-trip and match their bit syntax",
  "Every valid AudioSpecificConfig, ProgramConfigElement and StreamMuxConfig is encoded to the bit syntax of ISO 14496-3 (sample rate index or explicit rate, channel configuration, SBR/PS signalling, frame length, dependencies, layers, other data, CRC), in exactly the announced number of bytes, and decodes back to the same value; decoding any conformant encoding (hierarchical SBR and PS signalling included) gives its coded values. Configurations that are cut inside their mandatory part, and unsupported ones, are rejected with an error.",
  ["inputs"], "all object types, the 13 indexed and boundary explicit sample rates, all channel configurations, program config elements, extension signalling, program/layer structures",
  "tests hold a dozen configurations; optional sections combine freely",
  ["pkg/codecs/mpeg4audio/audio_specific_config.go", "pkg/codecs/mpeg4audio/program_config_element.go", "pkg/codecs/mpeg4audio/stream_mux_config.go"],
  [("AudioSpecificConfig", "pkg/codecs/mpeg4audio/audio_specific_config.go"), ("ProgramConfigElement", "pkg/codecs/mpeg4audio/program_config_element.go"), ("StreamMuxConfig", "pkg/codecs/mpeg4audio/stream_mux_config.go")])
p("A02", "ADTS streams carry every access unit and its parameters unchanged",
  "Any list of non-empty MPEG-4 Audio access units with any supported object type, sample rate and channel count encoded to ADTS and decoded again gives the same list; the encoded header is the one ISO 14496-3 prescribes, so that an independent parser finds the same frames. Access units that do not fit the 13-bit frame length, truncated frames, bad sync words and unsupported fields are reported as errors and never mangle neighbouring frames.",
  ["inputs"], "all sample rate and channel pairs, payload sizes at and across every boundary, packet lists up to 3, every header bit flip and truncation",
  "tests hold three lists", ["pkg/codecs/mpeg4audio/adts.go"], [("ADTSPackets.Unmarshal/Marshal", "pkg/codecs/mpeg4audio/adts.go")])
p("A03", "LATM and LOAS streams carry every payload unchanged",
  "Any audio mux element of frame length type 0 without other data (with the stream configuration in band or out of band, kept or repeated, any number of programs, layers and subframes, every payload length coding) and any audio sync stream of such elements, encoded and decoded again, gives the same payloads and configuration, and its encoded size is the announced one. Elements that do not fit the 13-bit length of the sync stream, truncated input, unsupported frame length types and bad sync words give an error.",
  ["inputs", "histories"], "all stream structures up to 2 programs, 2 layers and 3 subframes, payload sizes 0-1100 around multiples of 255, sequences that reuse the previous configuration",
  "tests hold a handful of elements", ["pkg/codecs/mpeg4audio/audio_mux_element.go", "pkg/codecs/mpeg4audio/audio_sync_stream.go", "pkg/codecs/mpeg4audio/payload_length_info.go", "pkg/codecs/mpeg4audio/payload_mux.go"],
  [("AudioMuxElement", "pkg/codecs/mpeg4audio/audio_mux_element.go"), ("AudioSyncStream", "pkg/codecs/mpeg4audio/audio_sync_stream.go")])
p("A05", "MPEG-1/2 audio frame headers give the right length, rate and duration",
  "For every 32-bit MPEG audio frame header, decoding accepts exactly the headers of supported layers with valid bitrate and sample rate codes, and gives the version, layer, bitrate, sample rate, channel mode, frame length and samples per frame that the MPEG-1 and MPEG-2 audio specifications define; the frame length always lands on the next frame of a valid stream.",
  ["inputs"], "all 2^20 significant header bit patterns (exhaustive)",
  "tests hold a few headers out of 2^20", ["pkg/codecs/mpeg1audio/frame_header.go"], [("FrameHeader.Unmarshal, FrameLen, SampleCount", "pkg/codecs/mpeg1audio/frame_header.go")])
p("A06", "AC-3 and E-AC-3 headers give the right frame size, rate and channels",
  "For every AC-3 sync frame and bit stream information header and every E-AC-3 sync info, decoding accepts exactly those with a valid sync word, sample rate code, frame size code and stream identification and returns the frame size, sample rate, number of blocks or samples and channel count that the ATSC A/52 tables define.",
  ["inputs"], "all values of all header bits (exhaustive)",
  "tests hold a few headers; the size tables have 114 entries that depend on the sample rate", ["pkg/codecs/ac3", "pkg/codecs/eac3"],
  [("SyncInfo, BSI", "pkg/codecs/ac3"), ("SyncInfo", "pkg/codecs/eac3")])
p("A07", "G.711 coding matches the reference tables for every sample",
  "Decoding every A-law and mu-law byte gives the linear sample of ITU-T G.711; encoding a decoded sample gives the original byte back (or the code of the same value), encoding any 16-bit sample picks a code whose value is nearest at the 14-bit resolution G.711 defines, and lengths are exactly two bytes of linear PCM per coded byte.",
  ["inputs"], "all 256 codes and all 65536 samples, at every position of buffers of several lengths (exhaustive)",
  "tests hold a few samples", ["pkg/codecs/g711"], [("Alaw/Mulaw Marshal/Unmarshal", "pkg/codecs/g711")])
p("A08", "Opus and FLAC headers and Opus packet durations are coded exactly",
  "The Opus packet duration is the one RFC 6716 defines for every configuration and frame count, the Opus identification header and the FLAC stream info block decode to exactly their coded fields and encode back to the same bytes, and truncated input gives an error.",
  ["inputs"], "all TOC bytes and frame count bytes (exhaustive), all channel counts and mapping families, boundary field values, every truncation",
  "tests hold a few packets and headers", ["pkg/codecs/opus", "pkg/codecs/flac"],
  [("PacketDuration2, IDHeader", "pkg/codecs/opus"), ("StreamInfo", "pkg/codecs/flac/stream_info.go")])
p("A09", "AAC channel counts follow from the configuration and the coded elements",
  "The channel count and channel configuration of MPEG-4 Audio agree in every direction and, when the configuration does not tell, the channel count of a program config element is the number of channels of its elements, and that of a raw data block is the count of its program config element or else that of its first single, pair or LFE element, wherever fill and data elements are placed. Blocks that end before that give an error, never a crash or an endless loop.",
  ["inputs"], "all element sequences up to a bound, all tags and all program config layouts, every truncation",
  "tests hold a few raw data blocks", ["pkg/codecs/mpeg4audio/count_channels.go", "pkg/codecs/mpeg4audio/program_config_element.go"],
  [("CountChannelsFromRawDataBlock", "pkg/codecs/mpeg4audio/count_channels.go"), ("ProgramConfigElement", "pkg/codecs/mpeg4audio/program_config_element.go")])

p("T01", "MPEG-TS: what is written is what is read, for every codec and interleaving",
  "Any set of tracks of any supported codec and any interleaved sequence of samples written to an MPEG-TS stream and read back gives the same tracks (codec, parameters, PID) and, on each track, the same samples in the same order with the same PTS and DTS, modulo the 33-bit clock and the documented framing of each codec; an asynchronous KLV unit, which has no timestamp on the wire, gets the one of the sample read before it. Samples are not empty. No sample is delivered to another track's callback.",
  ["histories", "configurations", "inputs"], "all track sets and sample interleavings up to a bound, all payload sizes around packet boundaries, timestamps around the 33-bit wrap",
  "tests write one or two samples per codec; packetization depends on sizes modulo 184, clock fields and interleaving",
  ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/track.go"],
  [("Writer.WriteXXX", "pkg/formats/mpegts/writer.go"), ("Reader.Initialize/Read/OnDataXXX", "pkg/formats/mpegts/reader.go"), ("Track marshal/unmarshal", "pkg/formats/mpegts/track.go")])
p("T02", "MPEG-TS output is a conformant transport stream on the wire",
  "Every stream the writer produces is a sequence of 188-byte packets in which program tables with valid checksums come first and are repeated before each random access sample of the leading track and at least every 40 samples, and give stream type, PID, descriptors and language of each track as their specifications prescribe, the continuity counter of each PID increases by one per payload packet, PES headers and lengths match the samples, and clock references are present on the leading track (unless it is asynchronous KLV), do not go back and are not later than the DTS of the sample that carries them. A failed write is reported to the caller.",
  ["histories", "configurations", "fault_sequences"], "all track sets, sample sequences and sizes up to a bound; every failing write call of the output",
  "tests compare one golden stream per codec", ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/track.go"],
  [("Writer.Initialize, writeVideo/writeAudio/writeData, PCR", "pkg/formats/mpegts/writer.go")])
p("T03", "MPEG-TS reading does not depend on how the source delivers its bytes",
  "Reading a transport stream gives the same tracks and samples whatever the sizes in which the source returns its bytes, whether it reports end of file together with the last bytes or after them, and whatever bytes that contain no sync pattern precede the first packet or stand between two packets. When the source fails, every sample that is known to be complete before the failure is delivered and the failure is returned. A BufferedReader in front of a source of datagrams returns their bytes and its error.",
  ["fault_sequences", "inputs"], "all partitions of the stream with a bounded number of short reads, every length of leading garbage up to two packets, every failure point",
  "tests read from a buffer that always returns full reads", ["pkg/formats/mpegts/pre_demuxer.go", "pkg/formats/mpegts/buffered_reader.go", "pkg/formats/mpegts/robust_demuxer.go", "pkg/rewindablereader/reader.go"],
  [("preDemuxer, robustDemuxer", "pkg/formats/mpegts"), ("rewindablereader", "pkg/rewindablereader/reader.go")])
p("T04", "MPEG-TS loss and corruption never alter other samples",
  "When packets of a transport stream are lost, duplicated, swapped or corrupted, reading terminates at the end of the stream without crashing and delivers, intact and with its own timestamps, every sample of which no packet was affected and that was not in progress on a PID at the moment a damaged packet of that PID (or claiming to be of it) arrived. After losses and duplications nothing is delivered that was not written, except what lacks its end at the end of the stream; a duplicated packet changes nothing. A PES packet whose content breaks the structure of its format (units cut short or followed by something else, wrong marks and lengths, cells out of sequence, missing or impossible timestamps) is reported through OnDecodeError and nothing of it is delivered.",
  ["fault_sequences"], "every loss of up to 3 packets, pair of bursts, pair of duplications and swaps, and every header bit and byte corruption of a set of streams; every cut and broken mark of units of each format, every sequence of up to 3 metadata cells",
  "tests contain a handful of damaged streams", ["pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/reader.go"],
  [("robustDemuxer", "pkg/formats/mpegts/robust_demuxer.go"), ("Reader.OnDecodeError", "pkg/formats/mpegts/reader.go")])
p("T05", "Decoded timestamps follow the 33-bit clock across any number of wraps",
  "Feeding the time decoder the 33-bit remainders of any sequence of times, in which consecutive times are less than half the clock range apart in either direction, returns times whose differences are exactly the original differences, starting from zero.",
  ["histories"], "all sequences up to a bound over steps at and around 0, one tick, a quarter and half of the range, in both directions, from starting points around the wrap",
  "tests check four values", ["pkg/formats/mpegts/time_decoder.go"], [("TimeDecoder.Decode", "pkg/formats/mpegts/time_decoder.go")],
  state=[("TimeDecoder", "overall time and previous 33-bit value", "pkg/formats/mpegts/time_decoder.go")])
p("T06", "MPEG-TS descriptors and in-stream headers round-trip byte-exactly",
  "Every metadata descriptor, metadata STD descriptor, metadata access unit cell, Opus audio descriptor, Opus control header and Opus access unit is encoded in exactly the announced size following its specification and decodes back to the same value; the decoder consumes exactly what the encoder wrote. Truncated or inconsistent input gives an error.",
  ["inputs"], "all combinations of optional parts, flags and boundary sizes and values, every truncation",
  "tests hold one or two instances of each", ["pkg/formats/mpegts/substructs"], [("Marshal/Unmarshal", "pkg/formats/mpegts/substructs")])
p("T07", "The MPEG-TS reader accepts conformant streams of other multiplexers",
  "A conformant single-program transport stream made by any multiplexer is read as what it carries, whatever freedom ISO 13818-1 and the carried formats leave: PIDs, table versions, extra programs and network entries in the PAT, tables that span packets or are repeated anywhere, descriptors the reader does not know, adaptation fields of any shape, null packets, clock-only packets, clock references on any PID, PES packets with any optional header field, stream id or stuffing, split over transport packets at any point and interleaved with other PIDs, 3- or 4-byte start codes, access unit delimiters or not, ADTS header bits, Opus trims and extensions, any cell sizes and numbering of synchronous KLV. The tracks (PID, codec, parameters, language) and every sample with its timestamps are those put into the stream and nothing is reported as an error. Tracks whose codec is not supported are announced as such and, like tracks without a callback, do not affect the others.",
  ["inputs"], "streams of an independent multiplexer under all combinations of up to 2 (thorough: 3) deviations from a plain layout at every place where the standards leave a choice",
  "the tests read the output of the package's own writer and one or two recordings; layouts of other multiplexers differ in dozens of independent, rarely combined ways",
  ["pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/track.go", "pkg/formats/mpegts/robust_demuxer.go"],
  [("Reader", "pkg/formats/mpegts/reader.go"), ("Track.unmarshal", "pkg/formats/mpegts/track.go"), ("robustDemuxer", "pkg/formats/mpegts/robust_demuxer.go")])
p("M01", "Fragmented MP4 initialization segments round-trip for every codec",
  "Any set of tracks of any supported codec with any valid parameters, time scale, identifiers and user data, written as a fragmented MP4 initialization segment and read back, gives the same tracks and parameters, and writing the result again gives the same bytes. The configuration records of the file carry the values of the parameters. Parameters that do not fit into their fields give an error.",
  ["configurations", "inputs"], "all codecs with parameters at their boundaries, all pairs of codecs, ID and time scale boundaries",
  "tests hold one instance of each codec", ["pkg/formats/fmp4/init.go", "pkg/formats/fmp4/init_track.go", "internal/mp4/codec_boxes.go"],
  [("Init.Marshal/Unmarshal", "pkg/formats/fmp4/init.go"), ("codec boxes", "internal/mp4/codec_boxes.go")])
p("M02", "Fragmented MP4 parts round-trip samples, timing and offsets exactly",
  "Any list of parts with any number of tracks and samples (up to the 19200 samples per track and part the reader accepts), any payload sizes (including empty), durations, PTS offsets (including negative), sync flags, base times and sequence numbers, written as movie fragments and read back, gives the same parts, and an independent reader that follows the offsets in the file finds the same bytes. Parts whose data does not fit into the offsets of the file give an error.",
  ["histories", "inputs"], "all track/sample structures up to a bound with values at the boundaries of their fields; parts marshalled alone and concatenated",
  "tests hold two part layouts", ["pkg/formats/fmp4/part.go", "pkg/formats/fmp4/part_track.go", "pkg/formats/fmp4/parts.go", "pkg/formats/fmp4/sample.go"],
  [("Part.Marshal, Parts.Marshal/Unmarshal", "pkg/formats/fmp4")])
p("M03", "Progressive MP4 files round-trip tracks, samples and timing exactly",
  "Any presentation with any number of tracks of any supported codec and samples with any payload sizes, durations, PTS offsets, sync flags and start offsets, written as a progressive MP4 and read back, gives the same tracks, timing and payloads, and an independent reader that follows the tables in the file finds the same samples at the same times. Samples are laid out in the file in decoding-time order across tracks. What does not fit into the tables of the file (data beyond 32-bit offsets, durations beyond 32 bits of milliseconds, a payload of another size than announced) gives an error.",
  ["histories", "inputs"], "all track/sample structures up to a bound with values at the boundaries of their fields",
  "tests hold two presentations; chunk, run-length and offset tables depend on the whole interleaving", ["pkg/formats/pmp4/presentation.go", "pkg/formats/pmp4/track.go", "pkg/formats/pmp4/sample.go"],
  [("Presentation.Marshal/Unmarshal", "pkg/formats/pmp4/presentation.go"), ("stts/ctts/stsc/stsz/stco/stss/elst tables", "pkg/formats/pmp4/track.go")])
p("M04", "The seekable buffer behaves like a file for writes, seeks and resets",
  "After any sequence of writes (by any writing method: Write, WriteString, WriteByte, WriteRune, ReadFrom), seeks (from start, current position and end), truncations and resets, the buffer's content, length and position are those of an in-memory file in which seeking past the end extends the content with zeros; seeking before the start or from an unknown origin is an error that changes nothing.",
  ["histories"], "all operation sequences up to a bound", "the test holds one sequence",
  ["pkg/formats/fmp4/seekablebuffer/seekablebuffer.go"], [("Buffer.Write/Seek/Reset", "pkg/formats/fmp4/seekablebuffer/seekablebuffer.go")])
p("M05", "MP4 writing and reading report every I/O failure",
  "If a write or seek of the destination of an MP4 initialization segment, part or presentation fails at any point, after accepting nothing or part of the data, marshalling returns an error; so does the payload callback of a sample. If the source fails at any read or seek while unmarshalling or while fetching a payload, an error is returned (when the failure does not last, the complete and right result may be returned instead); data is never wrong, and payloads can be fetched once the source works again. Sources that deliver any number of bytes per call give the same result. No failure is swallowed and none causes a crash.",
  ["fault_sequences"], "every single failing write, seek and read call of a set of files",
  "tests never inject I/O failures", ["internal/mp4/writer.go", "pkg/formats/fmp4", "pkg/formats/pmp4"], [("Writer", "internal/mp4/writer.go"), ("Marshal/Unmarshal", "pkg/formats")])

p("M06", "Fragmented MP4 of other writers is read as what it carries",
  "A well-formed initialization segment or sequence of fragments made by any writer, with the boxes the library supports, is read as what it carries, whatever freedom the format leaves: boxes to be skipped (free, uuid, unknown types, boxes of a later use) at any place, 64-bit box sizes, header versions, handler names and their place, edit lists, 64-bit chunk offsets, sample groups, user data and metadata at movie and track level, movie extends before the tracks, boxes around codec configurations, descriptor length sizes; in fragments, sample fields given per sample or as defaults of the track fragment, flags of the first sample, composition offsets of either version, optional positions and unused bytes, one or more runs and tracks. The tracks (ID, time scale, codec with its parameters), the user data of the movie and the fragments (sequence numbers, base times, and every sample with duration, offset, sync flag and payload) are those put into the file. Tracks whose codec is not supported (captions) are left out without affecting the others, and fragments without sequence number, track identifier or decode time are refused.",
  ["inputs"], "files of an independent writer under all combinations of up to 2 (thorough: 3) deviations from a plain layout at every place where the format leaves a choice",
  "the tests read what the package itself wrote and a handful of recordings; layouts of other writers differ in dozens of independent, rarely combined ways",
  ["pkg/formats/fmp4/init.go", "pkg/formats/fmp4/parts.go", "internal/mp4/codec_boxes.go"],
  [("Init.Unmarshal", "pkg/formats/fmp4/init.go"), ("Parts.Unmarshal", "pkg/formats/fmp4/parts.go"), ("CodecBoxesReader", "internal/mp4/codec_boxes.go")])

p("R01", "No byte string crashes or hangs a codec decoder",
  "Every codec-level decoding function returns a value or an error for every input byte string: it never panics, never reads outside its input, always terminates and allocates memory in proportion to the input.",
  ["inputs"], "all strings up to 2 bytes, and every truncation, every single-byte substitution by boundary values, every byte insertion and deletion, and pairs of substitutions of valid encodings that cover every section of each syntax",
  "fuzz seeds only sample; a panic needs one specific length or field value", ["pkg/codecs", "pkg/bits", "pkg/formats/mpegts/substructs"], [("Unmarshal functions", "pkg/codecs")])
p("R02", "No byte string crashes, hangs or exhausts memory in an MP4 reader",
  "Reading any byte string as an initialization segment, as parts or as a presentation, and fetching the payloads of what was read, returns a value or an error: it never panics, always terminates and allocates memory in proportion to the input.",
  ["inputs", "fault_sequences"], "every truncation, every single-byte substitution by boundary values, every 32-bit boundary value at every offset, and every box removal, duplication, swap and resize of files covering every codec and table",
  "fuzz seeds only sample; box nesting and table values interact", ["pkg/formats/fmp4", "pkg/formats/pmp4", "internal/mp4"], [("Unmarshal functions", "pkg/formats")])
p("R03", "No byte stream crashes or hangs the MPEG-TS reader",
  "Initializing a reader on any byte stream and reading it to the end returns samples and errors only: it never panics, always terminates once the source ends and allocates memory in proportion to the input.",
  ["inputs", "fault_sequences"], "every truncation, removal, insertion and substitution by boundary values of streams covering every codec, every pair of them within tables, descriptors and PES packets (checksums left broken and recomputed), every sequence of up to 4 packets of 20 kinds, every part repeated 3000 times",
  "fuzz seeds only sample", ["pkg/formats/mpegts"], [("Reader", "pkg/formats/mpegts/reader.go")])
p("R04", "Whatever a decoder accepts, the encoder reproduces",
  "If a decoder that has an encoder accepts an input, encoding the decoded value succeeds and decoding that again gives the same value; the announced size equals the encoded size. This holds for every format of the library that can be both read and written, save for what a writer declares not to support (MPEG-4 Audio with unknown channel count, E-AC-3 with reduced sample rates in MP4, durations that exceed 32 bits).",
  ["inputs"], "all accepted inputs among every truncation and substitution of valid encodings of every two-way format",
  "tests compare fixed pairs; accepted but unusual inputs are not in them", ["pkg/codecs", "pkg/formats"], [("Marshal/Unmarshal pairs", "pkg")])
p("R05", "Encoding and decoding depend only on their inputs and leave them untouched",
  "Encoding or decoding the same input always gives the same result, whatever was encoded or decoded before with the same or another value: a value decoded into a used variable equals one decoded into a fresh variable, encoding does not change the value or the buffers it refers to, decoding does not change its input, and results obtained earlier are not changed by later calls.",
  ["histories"], "all sequences of up to 3 calls over a menu of inputs for every encoder and decoder, reusing values and not",
  "tests use fresh values once", ["pkg/codecs", "pkg/formats", "internal/mp4"], [("Marshal/Unmarshal functions", "pkg")])
p("R06", "Independent values can be used concurrently",
  "Calls on independent values made from different goroutines do not interfere: under every interleaving, each call gives the result it gives alone.",
  ["schedules"], "118 operations (every encoder, decoder, reader and writer) in pairs; one preemption before each of the first two executions of every statement; equal operations with two preemptions; conflicting memory accesses of every pair (thorough: up to three preemptions, every execution of every statement)",
  "tests run sequentially", ["pkg", "internal"], [("absence of shared mutable package state", "pkg")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
