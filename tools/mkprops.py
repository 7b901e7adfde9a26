#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})
S = 'source/'
p("P01", "Binary (.hmpg) save and load are inverse",
  "Saving any haptic document whose values fit the binary field widths to a .hmpg file and loading that file gives back the same document (avatars, reference devices, perceptions, libraries, channels, bands, effects, keyframes, composite children), with quantised numbers off by at most half a quantisation step or single-precision rounding. Left out is only what the format has no field for: the timescale (1000 ticks per second is assumed), syncs, priorities, semantics, ids of effects that are not references, the mesh of an avatar that is not Custom; absent fields that the format always stores come back as their defaults. The loader consumes exactly the bits the writer produced, and saving what was loaded gives the same bytes again.",
  ["inputs"], "every document structure: any number of perceptions, channels, bands, effects, keyframes and every combination of absent/present optional values within the field ranges",
  "the tests save and load a handful of hand-built documents; the guarantee is over every shape, every optional combination and every value of each field",
  [S+"IOHaptics/src/IOBinary.cpp", S+"IOHaptics/src/IOBinaryBands.cpp", S+"IOHaptics/src/IOBinaryPrimitives.cpp", S+"IOHaptics/include/IOBinaryFields.h"],
  [("paired writers and readers per structure", "IOBinary.cpp write*/read*"), ("band body writers and readers", "IOBinaryBands.cpp"), ("field bit widths shared by both sides", "IOBinaryFields.h")],
  ["loaded document", "bytes of the .hmpg file"])
p("P02", "Fixed-width bit fields read back exactly, at any alignment",
  "A value written as an n-bit field, at whatever bit alignment the stream is in, is read back as the same value by the matching read, which consumes exactly n bits and leaves the following data intact. Quantised decimal fields come back within one quantisation step of the (clamped) original (and single-precision rounding) and never outside the declared range; strings come back byte for byte.",
  ["inputs", "histories"], "all values and widths, every number (0-7) of pending bits left by previous reads and writes",
  "tests cover a few values at a few alignments; the claim is over every value, width and pending-bit state",
  [S+"IOHaptics/src/IOBinaryPrimitives.cpp", S+"IOHaptics/include/IOBinaryPrimitives.h"],
  [("bit writers and readers", "IOBinaryPrimitives.cpp readNBits/writeNBits/fillBitset/writeBitset/readFNBits/writeFNBits/readString/writeString")],
  ["returned value", "bits appended / consumed"])
p("P03", "Streaming metadata packets decode to what was encoded",
  "Each metadata packet of the streaming format (experience, perception, reference device, channel, band, library effect), once read back, gives the same identifiers, descriptions, counts, units, gains and geometry that were written, and its declared length is the number of bits it occupies.",
  ["inputs"], "every metadata value that fits its field, all optional fields present or absent",
  "tests round-trip a few fixed objects",
  [S+"IOHaptics/src/IOStream.cpp", S+"IOHaptics/include/IOHaptics/IOStream.h"],
  [("packet writers/readers", "IOStream.cpp writeMetadata*/readMetadata*, writeLibrary/readLibrary"), ("bit converters", "IOBinaryPrimitives.cpp bitset based")],
  ["decoded metadata structures", "declared packet length"])
p("P04", "Streaming effect data decodes to the encoded effects",
  "Effects put in streaming data packets (transient, curve, vectorial-wave keyframes, wavelet payload) come back with the same identifiers, positions, waveform parameters and keyframes, quantised values off by at most one step, for every band type and effect kind. A reader never takes bits of a neighbouring packet: it consumes exactly the declared number of bits.",
  ["inputs"], "every effect and keyframe list whose values fit the stream fields",
  "tests encode a couple of effects per band type with fixed keyframes",
  [S+"IOHaptics/src/IOStream.cpp"],
  [("effect and keyframe writers/readers", "IOStream.cpp write*/read* Effect, Keyframe, SpatialData, TemporalData")],
  ["decoded effects", "number of bits consumed"])
p("P05", "Packet CRC detects corruption and accepts intact packets",
  "The CRC computed for a sequence of protected bits is accepted when the bits are unchanged and rejected when any single bit, or any burst no longer than the checksum, has been altered. This holds for the 16-bit and the 32-bit checks, for one packet and for groups of 2 to 255 packets taken in order, and whatever the value of the checksum, zero included.",
  ["inputs", "fault_sequences"], "every message, every error pattern that is a burst of at most 16 (32) bits",
  "tests check one or two messages, and no error pattern exhaustively",
  [S+"IOHaptics/src/IOStream.cpp"],
  [("generator polynomials and modulo-2 division", "IOStream.cpp computeCRC / checkCRC / writeCRC")],
  ["CRC value", "accept or reject verdict"])
p("P06", "Interchange (.hjif JSON) save and load are inverse",
  "Saving any valid haptic document as .hjif JSON and loading it gives back the same document, field for field, optional values included.",
  ["inputs"], "every document with any combination of optional fields",
  "tests use a few documents; a dropped or mis-keyed optional field is only visible for inputs that set it",
  [S+"IOHaptics/src/IOJson.cpp"],
  [("JSON extractors and loaders", "IOJson.cpp extract*/load*")],
  ["loaded document"])
p("P07", "Document containers stay ordered, bounded and framed under edits",
  "Adding, replacing or removing perceptions, channels, bands, effects, avatars, devices or libraries changes exactly the addressed element; an out-of-range index is reported as failure and changes nothing. Effects added to a band are kept in non-decreasing position order with none lost.",
  ["inputs", "histories"], "every container content, every index (also negative and past the end), every sequence of edits",
  "tests try a few indices on small containers; the frame (nothing else changes) and ordering hold for every history",
  [S+"Types/src/Haptics.cpp", S+"Types/src/Perception.cpp", S+"Types/src/Channel.cpp", S+"Types/src/Band.cpp", S+"Types/src/Effect.cpp"],
  [("index-checked mutators", "Types/src/*.cpp replace*At/remove*At/get*At"), ("ordered insertion", "Band::addEffect")],
  ["container contents after the edit", "returned verdict"])
p("P08", "Keyframes stay time-ordered and merge without loss",
  "Adding an amplitude or a frequency point to an effect keeps its keyframes in strictly increasing position order, places the value at its position (merged with a keyframe already there), and leaves every other keyframe and attribute unchanged.",
  ["inputs", "histories"], "every keyframe list, every position (before, between, at, after existing keyframes), every insertion history",
  "tests insert a few points; ordering must hold for every history",
  [S+"Types/src/Effect.cpp", S+"Types/src/Keyframe.cpp"],
  [("ordered merge of amplitude and frequency", "Effect::addAmplitudeAt / addFrequencyAt")],
  ["keyframe list"])
p("P09", "Inlining library references preserves the signal description",
  "Replacing library references in a document by copies of the referenced library effects keeps, for every effect, its start position and its content (the library effect's waveform parameters, keyframes and timeline), references inside timelines and inside library effects included; effects that are not references are untouched, and no reference to an existing library effect remains unless the library refers to itself in a circle.",
  ["inputs"], "every document and every library, nested timelines included",
  "tests use one or two libraries with a single reference",
  [S+"Types/src/Haptics.cpp", S+"Types/src/Perception.cpp", S+"Types/src/Effect.cpp"],
  [("reference inlining", "Haptics::linearize, Perception::linearizeLibrary / getEffectById")],
  ["document after inlining"])
p("P10", "Entropy coding of wavelet blocks is lossless",
  "Any bit sequence passed through the arithmetic encoder, whatever the context of each bit, is returned unchanged by the decoder, and any wavelet coefficient block coded to its full bit depth is decoded to the same coefficients.",
  ["inputs"], "every bit sequence and context assignment, every coefficient block of every supported length",
  "tests code a few fixed or random blocks",
  [S+"Spiht/src/ArithEnc.cpp", S+"Spiht/src/ArithDec.cpp", S+"Spiht/src/Spiht_Enc.cpp", S+"Spiht/src/Spiht_Dec.cpp"],
  [("interval coder and adaptive models", "ArithEnc.cpp / ArithDec.cpp"), ("set partitioning lists", "Spiht_Enc.cpp / Spiht_Dec.cpp")],
  ["decoded bits", "decoded block"])
p("P11", "Wavelet transform is perfectly invertible",
  "The inverse wavelet transform applied to the forward wavelet transform of a block gives back the block, up to floating-point rounding, for every block content, every block length that is a power of two and every number of decomposition levels that never splits a block shorter than 8 samples. Conversely, analysing the signal synthesised from any coefficients, quantised ones included, gives those coefficients back.",
  ["inputs"], "every real-valued block, every power-of-two length, every level count the transform is used with (the shortest block split has 8 samples, the filters reach 7)",
  "tests try a few signals; linearity makes the claim one over all inputs",
  [S+"FilterBank/src/Wavelet.cpp", S+"FilterBank/include/FilterBank/Wavelet.h"],
  [("CDF 9/7 filters, symmetric extension, down/up-sampling", "Wavelet.cpp DWT / inv_DWT / symconv1D")],
  ["reconstructed block"])
p("P12", "Interpolation passes through its points and stays between them",
  "Linear interpolation between two keyframes gives exactly the two end values at the two end positions and, in between, a value that moves monotonically from one to the other; the smoother interpolants pass through the given points.",
  ["inputs"], "every pair or list of increasing points and every evaluation time inside the range",
  "tests evaluate a few times on a few points",
  [S+"Tools/src/Tools.cpp", S+"Types/src/Effect.cpp"],
  [("linear / cubic / Akima / Bezier / B-spline interpolation", "Tools.cpp")],
  ["interpolated value"])
p("P13", "Synthesis only sounds effects within their time range",
  "Evaluating an effect, a band or a channel at a time outside its effects gives silence; inside, a band gives the signal of the effect that started last (effects in time order), a sampled band the sum of the signals of its effects, a channel the sum of its bands clipped to [-1,1]. The signals follow the keyframes: the amplitude lies on the line (or smooth cubic) between neighbouring amplitude keyframes, the carrier's phase is the sum over the frequency intervals before, each transient is two periods of a sine over 22 ms, wavelet effects give the sample at that time. Reported lengths cover every keyframe-based effect, band and sampled channel of the document.",
  ["inputs"], "every effect list, keyframe list and time",
  "tests evaluate at a few times",
  [S+"Types/src/Band.cpp", S+"Types/src/Channel.cpp", S+"Types/src/Effect.cpp", S+"Synthesizer/src/Helper.cpp"],
  [("evaluation and time-length accumulation", "Band::Evaluate*, Effect::Evaluate*, Channel::Evaluate*, get*TimeLength")],
  ["evaluated sample", "reported length"])
p("P14", "OHM metadata files read back as written",
  "Writing object-haptic metadata to an .ohm file and reading it gives back the same header, element and channel metadata, for every number of elements and channels, every body-part mask and every string within its field.",
  ["inputs"], "every metadata content; every 32-bit body-part mask, 16-bit counts and versions, bounded strings",
  "tests read one file and write one object",
  [S+"Tools/src/OHMData.cpp", S+"Tools/include/Tools/OHMData.h"],
  [("field readers and writers", "OHMData.cpp loadFile/writeFile")],
  ["loaded metadata"])
p("P15", "Descriptive imports preserve event timing and intensity",
  "Importing an AHAP pattern turns each event into an effect that starts at the event's time, with the event's duration and intensity mapped monotonically into the document's range, in the right band; malformed input is rejected rather than imported partially.",
  ["inputs"], "every event list with any parameters, and malformed files",
  "tests import two sample files",
  [S+"Encoder/src/AhapEncoder.cpp", S+"Encoder/src/IvsEncoder.cpp"],
  [("event extraction and curve modulation", "AhapEncoder.cpp extract*")],
  ["resulting bands and effects"])
p("P16", "Command-line options are found exactly where they were given",
  "Asking for a command-line option tells whether it appears and returns the argument that directly follows it (empty when it is last); an option never takes another option's value, and asking again gives the same answer.",
  ["inputs"], "every argument vector",
  "tests use two or three argument vectors",
  [S+"Tools/src/InputParser.cpp"],
  [("token search", "InputParser.cpp cmdOptionExists/getCmdOption")],
  ["returned option text or flag"])
p("P17", "Base64 and bit-string conversions are inverse",
  "Converting a bit string to its Base64 text, or to bytes, and back gives the same bits up to trailing zero bits (which these formats do not keep), and never fails, whatever the length, including empty and all-zero data; converting bytes or Base64 text to bits and back gives the same bytes or text up to trailing zeros; an integer written as bits of any width in use is read back exactly.",
  ["inputs"], "every bit string and every integer of every width in use",
  "tests convert a few values",
  [S+"IOHaptics/src/IOJson.cpp", S+"IOHaptics/src/IOBinaryPrimitives.cpp", S+"Spiht/src/Spiht_Enc.cpp", S+"Spiht/src/Spiht_Dec.cpp", S+"WaveletDecoder/src/WaveletDecoder.cpp"],
  [("converters", "IOJson.cpp base64/bits helpers; Spiht_Enc/Dec int2bit, bit2de, convert2Bits/convert2int")],
  ["converted value"])
p("P18", "Loading arbitrary bytes never crashes the reader",
  "Feeding the readers any byte sequence terminates, reporting success or failure, without a crash, out-of-bounds access or unbounded loop.",
  ["inputs"], "every byte sequence",
  "tests load well-formed files only",
  [S+"IOHaptics/src/IOBinary.cpp", S+"IOHaptics/src/IOStream.cpp", S+"IOHaptics/src/IOJson.cpp"],
  [("guards in the readers", "IOBinary.cpp / IOStream.cpp / IOJson.cpp loadFile")],
  ["process outcome"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
