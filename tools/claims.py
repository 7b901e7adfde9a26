BASE = 'Every listed obligation is discharged for all inputs; floats are reals, signed overflow excluded. '
CLAIMED = {
 'P01': ('proof', BASE + 'Every writer/reader pair of the .hmpg format, from keyframes to the file header and body, is proved inverse by structural induction over the real bodies (any number of perceptions, channels, bands, effects, keyframes, composite nesting), the reader consuming exactly the bits of the writer, and re-writing the decoded object giving the same bits. Opening and closing the files (writeFile/loadFile/loadMemory) is exercised by the bounded harness only.'),
 'P02': ('proof', BASE + 'Contracts on every instantiation of writeNBits/readNBits (bit vectors, all values, all pending-bit alignments), the decimal fields, strings, vectors, fillBitset/writeBitset/readNBytes and the bit-vector readers for widths 1-32.'),
 'P03': ('proof', BASE + 'Every metadata packet (avatar, experience, reference device, perception, library and its effects, channel, band, both timings) is proved to be read back from the bits its writer appends, followed by anything, with the cursor exactly behind them; packet headers give type and length; writeMIHSPacket is proved to frame single packets, perceptions, libraries and channels (band packets: harness only). Assumed: values fit their fields, unique identifiers, no empty components.'),
 'P05': ('proof', BASE + 'computeCRC is proved to leave the remainder register after all bits (16 and 32 bits, any length); lemmas show that data altered by a burst within the checksum length leaves another remainder; writeCRC, readCRC and checkCRC are proved to protect, code and compare exactly the given packets (1, or 2 to 255). The step from the one-step lemmas to any length is induction on the number of bits (DESIGN.md).'),
 'P07': ('proof', BASE + 'Contracts on every index-checked mutator/accessor and on Band::addEffect (ordered insertion, frame).'),
 'P08': ('proof', BASE + 'Contracts on addAmplitudeAt/addFrequencyAt/keyframe edits.'),
 'P09': ('proof', BASE + 'getEffectById is proved to find the first library effect with an id; resolveReferences is proved, by induction over nesting (recursive calls under contract), to replace an effect and every effect of its timeline by the copy the library gives; linearizeLibrary and Haptics::linearize are proved to apply it to every effect of every band, channel and perception and to change nothing else but empty the library. Termination (no reference is followed twice at a time) is on paper; libraries larger than int are excluded.'),
 'P10': ('proof', BASE + 'The arithmetic coder is proved lossless: the decoder (initDecoding, decode) is proved to follow a recursively defined state, and ArithEnc::encode with its remainder is proved, for any symbols and contexts (up to 2^27 symbols), to write bits that drive that state through exactly the given symbols; statistics resets are proved equal on both sides; the depth and scale fields are proved to read back. The SPIHT block coder (Spiht_Enc::encode, Spiht_Dec::decode) is bounded: random blocks of 8 to 2048 samples coded and decoded natively.'),
 'P11': ('proof', BASE + 'DWT and inv_DWT are proved level by level, for any block length and number of levels, to split the block into the two filtered halves and to rebuild it from them; symconv1D, symconv1DAdd and conv1D (each size the library instantiates) are proved to filter the symmetrically extended block; lemmas over those contracts show with the taps in the header that one level is undone within 1e-12 and that the extension of a subband is the subband of the extension. The composition over the levels is an induction on paper from the per-level lemma; doubles are reals.'),
 'P12': ('proof', BASE + 'Line, smooth cubic, normalisation, chirp and the sampled interpolants with written loop invariants; natural cubic, Akima, Bezier and B-spline interpolants are bounded (sampled) only.'),
 'P13': ('proof', BASE + 'Effect lengths, curve, vectorial (amplitude and frequency parts, each with the other absent), transient and wavelet signals, the dispatch on the band type, the choice of the effect, sampled bands (sums over any number of effects; curves: the points handed to the interpolation and where its samples are added), channels and Helper::getTimeLength, each against its callees\' contracts. Akima, Bezier and B-spline samples are whatever the interpolation returns; overlapping effects only in sampled bands; keyframes in order and positioned.'),
 'P16': ('proof', BASE + 'Contracts on the constructor, getCmdOption, cmdOptionExists, getFileExt.'),

 'P14': ('proof', BASE + 'writeFile followed by loadFile on a ghost disk is proved to give back the same metadata for any number of elements and channels, any 32-bit mask, any text that fits its field and does not end in NUL. Not covered: documents of 32768 or more elements or channels.'),
 'P17': ('proof', BASE + 'Contracts on bits2base64, base642bits, bits2bytes, bytes2bits, convert2bytes, convert2bits, de2bi, bi2de and round-trip lemmas over those contracts.'),
}
NA = {}
