#!/usr/bin/env python3
# Writes /verif/properties.jsonl.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

RSF = ["reed_solomon_encoder.hh", "reed_solomon_decoder.hh", "reed_solomon_error_correction.hh", "galois_field.hh"]
BCHF = ["bose_chaudhuri_hocquenghem_encoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "reed_solomon_error_correction.hh", "bitman.hh", "galois_field.hh"]

p("C01", "Reed-Solomon repairs every damage pattern within its capacity",
  "Whatever is written with the Reed-Solomon encoder is a systematic codeword, and the decoder restores it exactly, data and parity, after any mixture of e corrupted symbols at unknown places and f flagged erasures with 2e+f no larger than the number of parity symbols, and returns how many symbols it changed. This holds for every field, parity size, first root and shortened length the templates accept, and for every sequence of damage, repair, re-damage and restart of a stored word. An undamaged word is returned untouched with result 0.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "all supported fields/polynomials, parity sizes, first consecutive roots, shortened lengths, data, and all histories of damage (bit rot, torn and lost writes, flagged bad symbols), scrubbing and restarts that stay within capacity at each read",
  "rs_regression_test samples three codes with full and random shortened length, one damage per word, never an odd parity size, a first root above 1, another primitive polynomial, or a decoder facing a repaired or re-damaged word.",
  RSF, [("encoder LFSR", "reed_solomon_encoder.hh operator()"), ("errors-and-erasures Berlekamp-Massey, closed forms / Chien search, Forney", "reed_solomon_error_correction.hh"), ("shortening offsets", "reed_solomon_decoder.hh operator()")],
  ["ReedSolomonEncoder::operator()", "ReedSolomonDecoder::operator()", "ReedSolomonDecoder::compute_syndromes"])
p("C02", "Binary BCH repairs every damage pattern within its capacity",
  "Whatever is written with the BCH encoder is a systematic binary codeword, and the decoder restores it exactly after any e flipped bits at unknown places and f flagged erasures with 2e+f no larger than the designed number of roots, returning the number of bits it changed. The packed-bit and the one-bit-per-symbol reference implementations give the same parity, the same corrections and the same results on the same word. This holds for every field, generator, and shortened length the templates accept and over every history of damage, repair and restart, and bits outside the word's length are never disturbed.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "all supported fields, generators, shortened lengths, payloads, and all histories of bit rot, burst damage, torn writes, flagged bad bits, scrubbing and restarts within capacity",
  "bch_regression_test samples a handful of narrow-sense codes with one damage per fresh word; it never compares the two implementations on the same word, nor repeats damage and repair.",
  BCHF, [("packed LFSR encoder", "bose_chaudhuri_hocquenghem_encoder.hh"), ("syndromes + shared algebraic decoder", "bose_chaudhuri_hocquenghem_decoder.hh")],
  ["BoseChaudhuriHocquenghemEncoder::operator()", "BoseChaudhuriHocquenghemDecoder::operator()", "...Reference::operator()"])
p("C03", "Algebraic decoders are honest beyond their capacity",
  "When a Reed-Solomon or BCH word is damaged beyond what the code can correct, the decoder either reports failure and leaves data and parity bit for bit as they were, or leaves a valid codeword, reports exactly how many symbols it changed, which are never more than there are parity symbols. It never reports success while leaving an invalid word and never changes padding or symbols outside the shortened word. This holds for every received word whatsoever.",
  ["inputs", "fault_sequences", "configurations"],
  "every received word: arbitrary noise, mixtures of codewords from torn writes, any count of wrong erasure flags up to the parity size, any shortened length",
  "the regression tests only ever damage words within capacity (erasures + errors <= limit); the failure paths are never executed with an oracle.",
  RSF + BCHF[:2], [("degree/root-count consistency checks", "reed_solomon_error_correction.hh ReedSolomonErrorCorrection"), ("location range and magnitude checks", "reed_solomon_decoder.hh, bose_chaudhuri_hocquenghem_decoder.hh")],
  ["decoder return value and buffers"])
p("C04", "Cauchy Reed-Solomon: any k distinct blocks recover the data",
  "For every data set split into k blocks, any k distinct encoded blocks, arriving in any order, reconstruct every data block exactly. This holds for every legal choice of block identifiers, block count, block length, buffer alignment and processor back end, even if encoder and decoder run on different back ends, blocks are regenerated from a reconstruction, or one coder object is reused or interrupted between blocks.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "all fields, k, identifiers up to the field size, block lengths (vector-friendly or not), alignments, arrival orders, subsets surviving node crashes, disk losses, network loss/duplication/reordering, and repair histories",
  "crs_regression_test draws one random subset per geometry with aligned buffers and a length that is a multiple of the SIMD width, and decodes on the same back end in block order.",
  ["cauchy_reed_solomon_erasure_coding.hh", "galois_field.hh"],
  [("Cauchy matrix and its cached-row inverse", "cauchy_reed_solomon_erasure_coding.hh inverse_cauchy_matrix"), ("vector / scalar multiply-accumulate", "cauchy_reed_solomon_erasure_coding.hh mac_simd, multiply_accumulate")],
  ["encode()", "decode()"], [("row_num,row_den", "row products cached at the first column of each row", "cauchy_reed_solomon_erasure_coding.hh")])
p("C05", "Cauchy prime field: any k distinct blocks recover the data",
  "For every data set split into k blocks, any k distinct encoded blocks with their substitution values, arriving in any order, reconstruct every data block exactly, including when encoded symbols take the one field value that does not fit the stored symbol. The substitution value returned with a block never occurs as a genuine symbol of that block. This holds for every legal identifier set, block count and block length and when a coder object is reused, interrupted or shared between encoding and decoding.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "both prime fields, all k, identifiers, lengths up to the declared maximum, payloads (including adversarial ones that force the unrepresentable value), arrival orders and surviving subsets",
  "cpf_regression_test uses one random payload per geometry; the unrepresentable value appears by chance only, and repair histories, identifier extremes and partial blocks are not visited.",
  ["cauchy_prime_field_erasure_coding.hh", "prime_field.hh"],
  [("lazy-reduction multiply-accumulate", "cauchy_prime_field_erasure_coding.hh mac, mac_sub"), ("substitution search", "cauchy_prime_field_erasure_coding.hh find_unused")],
  ["encode()", "decode()"], [("temp,used,row_num,row_den", "scratch shared by encode and decode", "cauchy_prime_field_erasure_coding.hh")])
p("C06", "Hadamard and simplex decoding is maximum likelihood, ties declared",
  "For every received soft word, including full-scale and saturated values, the augmented Hadamard and simplex decoders return the message whose codeword has the strictly largest correlation with it, and -1 exactly when no message with positive correlation is strictly best. In particular a message survives any channel damage that leaves it strictly most likely. This holds frame after frame on one decoder whatever was received before.",
  ["inputs", "fault_sequences", "configurations"],
  "all supported message sizes, all messages, all soft words (noise, erasures, jamming, saturation, repeated-frame combining) and frame histories",
  "the regression tests measure error rates under Gaussian noise for a few sizes; ties, the most negative soft value and adversarial words are not checked against a reference.",
  ["hadamard_encoder.hh", "hadamard_decoder.hh", "simplex_encoder.hh", "simplex_decoder.hh"],
  [("fast Hadamard transform and best/next tracking", "hadamard_decoder.hh, simplex_decoder.hh")], ["encoder/decoder operator()"])
p("C07", "Short BCH: exact hard radius, sound soft decisions",
  "The hard-decision decoder of a short BCH code maps every word within the radius of a codeword to that codeword and otherwise returns -1 or a codeword no farther than the radius. The soft-decision decoder returns -1 or a codeword; for codes with at most four message bits it is maximum likelihood with ties declared as -1; for larger codes its answer is never less likely than the hard decision, nor than the codeword reached by flipping any subset of the radius-many least reliable positions first. A clean word of any amplitude always decodes to what was sent.",
  ["inputs", "fault_sequences", "configurations"],
  "all listed codes (radius 1 to 3, perfect, quasi-perfect and sparse), all messages, all hard words, all soft words and frame histories",
  "the regression tests check random patterns up to the radius and Gaussian error rates; words beyond the radius, ties and weak positions at the edges of the word are not checked.",
  ["short_bch_code_encoder.hh", "short_bch_code_decoder.hh"],
  [("syndrome table", "short_bch_code_decoder.hh constructor"), ("Chase test patterns / exhaustive search", "short_bch_code_decoder.hh operator()(const int8_t *)")], ["encoder/decoder operator()"])
p("C08", "LDPC decoding reports truthfully and converges on good channels",
  "The LDPC encoder's parity satisfies every check equation of the table. The decoder returns a non-negative number of remaining trials exactly when the soft values it leaves behind have no undecided bit and satisfy every check equation, a negative number otherwise, and a valid received word is returned unchanged without spending a trial. If the channel only erases, no decided bit is ever wrong, and what can be resolved one check at a time is resolved. Once a link's noise is clearly below the code's threshold, every frame is decoded to what was sent within a bounded number of trials, whatever frames that decoder object failed on before.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "all tables (standard and custom geometries, with and without repeated block columns), trial budgets from zero, attenuations, noise, erasure bursts, jammed frames and frame histories on every vector width",
  "ldpc_regression_test runs four tables at one noise point per run and only counts errors; the returned trial count, custom geometries, narrow vector back ends and post-failure frames are not checked.",
  ["ldpc_encoder.hh", "ldpc_decoder.hh", "rotate.hh", "simd.hh"],
  [("layered update with write-disable masks for repeated columns", "ldpc_decoder.hh update"), ("check evaluation", "ldpc_decoder.hh bad"), ("lane rotation", "rotate.hh")],
  ["LDPCEncoder::operator()", "LDPCDecoder::operator()"], [("wd", "which repeated link may write back", "ldpc_decoder.hh")])
p("C09", "Polar successive cancellation follows the textbook decoder",
  "For every frozen set, level and received word the successive-cancellation decoder takes the decisions of the textbook min-sum decoder in the same arithmetic as long as no intermediate value ties at zero; so a word whose signs are all correct decodes to the message sent whatever its amplitudes. If the only damage is erasures, every output is the sent value or undecided (zero), never wrong. Systematic encoding yields a codeword of the same code carrying the message at the information positions for reliability-ordered frozen sets.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "all levels 5 to 20 up to the object's maximum, frozen sets (arbitrary, all/no bits frozen in aligned blocks, reliability ordered), fixed and floating point, noise, erasures, level changes between frames",
  "polar_regression_test decodes one level (20) with one construction and counts errors; other levels, irregular frozen sets and the word-level pruning boundaries are not covered.",
  ["polar_encoder.hh", "polar_decoder.hh", "polar_helper.hh"],
  [("recursive tree with rate-0/rate-1 pruning", "polar_decoder.hh"), ("saturating helpers", "polar_helper.hh")], ["PolarEncoder/PolarSysEnc/PolarDecoder operator()"])
p("C10", "Polar list decoding keeps the L best paths, ordered and ranked",
  "As long as path metrics do not tie, list and parity-aided list decoding of a received word return exactly the candidates, in order of likelihood, of the textbook min-sum list decoder with the same list size, for every frozen set that leaves the last position open, level, list width, number type and parity spacing. The returned candidates, as many as the code has or the list holds, are distinct messages of the (parity-extended) code in order of likelihood; equal rank means equal metric, and ranks never decrease. A word whose signs are all correct has the sent message first, alone; one whose only damage is erasures that never leave more candidates open than the list holds has it among those ranked first.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "levels 5 to 16, list widths 4 to 64 in 8-bit fixed and floating point, any receiver gain, arbitrary frozen sets, parity strides and offsets including zero, noise, erasures and frame histories",
  "polar_list_regression_test runs one level, one list size, one construction, relies on a CRC to pick a candidate and tolerates errors; ordering, ranks, distinctness and other widths are unchecked.",
  ["polar_list_decoder.hh", "polar_parity_aided.hh", "polar_helper.hh", "sort.hh", "simd.hh"],
  [("path forking, sorting and lane maps", "polar_list_decoder.hh PolarListNode"), ("parity tracking", "polar_parity_aided.hh")],
  ["PolarListDecoder::operator()", "PolarParityEncoder/Decoder::operator()"], [("maps", "lane permutations replayed to trace survivors", "polar_list_decoder.hh")])
p("C11", "Ordered statistics decoding returns codewords, best first",
  "Ordered statistics decoding always outputs codewords of the given generator matrix, at least as likely as re-encoding the most reliable independent positions with up to the configured number of flips; with the order covering all message bits it is maximum likelihood. It reports success exactly when its best candidate is strictly more likely than every other it examined. The list variant returns distinct codewords in order of likelihood, equal rank exactly for equal likelihood, and its first entry matches the single-answer decoder. Generated BCH generator matrices span exactly the code of the given minimal polynomials, systematic when asked to be.",
  ["inputs", "fault_sequences", "configurations"],
  "several linear codes, orders 0 to 4 and beyond the dimension, list sizes up to the number of candidates, all soft words (noise, erasures, saturation, rank-deficient reliable sets) and frame histories",
  "the OSD tests count errors for two codes under Gaussian noise; negative-likelihood candidates, ties, ranks and list contents beyond the first entry are unchecked.",
  ["osd.hh", "sort.hh", "bitman.hh"],
  [("reliability sort, Gaussian elimination with column swaps", "osd.hh row_echelon/systematic"), ("candidate enumeration and list insertion", "osd.hh update")],
  ["OrderedStatisticsDecoder::operator()", "OrderedStatisticsListDecoder::operator()"])
p("C12", "CRC is independent of segmentation and detects what it must",
  "However a byte stream is cut into bits, bytes and 16, 32 or 64 bit words before being fed in, with retransmission and reset at any point, the checksum after any prefix is the same polynomial remainder. A message followed by its checksum leaves the register at zero. Any corruption confined to a burst no longer than the checksum, and any single-bit corruption, changes the checksum.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "register widths 8, 16, 32 and 64 bits, all polynomials with a non-zero constant term, initial values, segmentations chosen by the network, restarts and burst faults",
  "crc_test checks a few fixed check values; it never mixes update widths within one stream or resumes after a reset.",
  ["crc.hh"], [("byte table and bit update", "crc.hh")], ["CRC::operator()", "CRC::reset"])
p("C13", "Bit stream container behaves like an array of bits",
  "After any history of puts, writes, gets, reads, seeks and resets of bits, bytes, byte runs and variable-width fields at any bit offset, the container returns what an ideal array of bits would: each write changes exactly the addressed bits, each read returns the last value written there, and the position advances by exactly the width transferred. Reading with a different segmentation than was used to write returns the same bits. The single-bit accessors for byte arrays read, set and flip exactly the addressed bit, counted from either end of a byte.",
  ["histories", "schedules", "inputs"],
  "all operation histories by interleaved writers and readers within the container's size, all offsets, widths 0..64 and sizes including non-multiples of eight, with crash/restart from the raw bytes",
  "no test in the repository touches the bit stream container.",
  ["bitstream.hh", "bitman.hh"], [("bit masks and carry between bytes", "bitstream.hh"), ("single-bit accessors", "bitman.hh")], ["Bitstream member functions", "set_be_bit, get_be_bit, xor_be_bit, set_le_bit, get_le_bit, xor_le_bit"], [("pos_", "bit position", "bitstream.hh")])
p("C14", "Interleavers and permutations are lossless and spread bursts",
  "Every interleaver and permutation is undone exactly by its inverse, in either order, on any element type, also when sender and receiver are restarted independently; the bit reversal moves every element to the index with its bits reversed. With an interleaver of a given order, any channel burst no longer than that order times the correction radius leaves every interleaved codeword correctable, so a burst-damaged transmission is received intact.",
  ["inputs", "fault_sequences", "configurations", "histories"],
  "all listed sizes and orders, element types, payloads, burst positions and lengths, and independent restarts of either side",
  "no test in the repository touches the interleavers; the permutations are exercised only through round trips inside other code.",
  ["interleave.hh", "permute.hh", "xorshift.hh"],
  [("row/column index maps", "interleave.hh"), ("seeded shuffle replayed backwards, bit reversal", "permute.hh")], ["Interleave/Deinterleave", "FisherYatesShuffle/ReverseFisherYatesShuffle", "BitReversalPermute"])
p("C15", "Results depend on the request, not on history or stale memory",
  "What any encoder or decoder produces for a request is a function of that request alone: it is the same for a freshly constructed object in memory with arbitrary prior contents, for an object that has served any other requests including failed and abandoned ones, and for an object rebuilt after a crash. Abandoning an operation at any instruction leaves the object able to serve the next request correctly. Objects whose contract is a running state (generators, checksums, bit streams) are covered by returning to the initial state on reset.",
  ["histories", "crash_points", "schedules", "inputs"],
  "all codecs, all request histories, all abort points inside operations, and all initial memory contents",
  "tests construct each object once in whatever memory the process has, never abandon an operation, and never compare a reused object with a fresh one.",
  ["ldpc_decoder.hh", "polar_list_decoder.hh", "polar_parity_aided.hh", "cauchy_reed_solomon_erasure_coding.hh", "cauchy_prime_field_erasure_coding.hh", "osd.hh", "galois_field.hh", "crc.hh"],
  [("per-call initialisation of scratch members", "decoder operator() bodies"), ("table registration in constructors/destructors", "galois_field.hh Tables")], ["any public operation, fresh versus reused"])
p("C16", "Separate objects may be used from separate threads",
  "Operations on distinct encoder and decoder objects, sharing only read-only inputs and the field tables, give the same results under every interleaving of the threads that run them as when run alone. No thread's abort or restart disturbs another's operation.",
  ["schedules", "crash_points"],
  "all interleavings, at basic-block granularity, of several threads working on distinct objects of any mix of codecs with shared read-only inputs",
  "all tests are single threaded.",
  ["galois_field.hh", "reed_solomon_error_correction.hh", "cauchy_reed_solomon_erasure_coding.hh", "ldpc_decoder.hh", "polar_list_decoder.hh", "osd.hh"],
  [("all mutable state lives in the object or on the stack; static tables are written only at construction", "all headers")], ["any public operation under preemption"])
p("C17", "All processor back ends compute the same results",
  "Nodes built for different processor back ends (AVX2, SSE4.1, NEON on AArch64 and ARMv7, and plain scalar) agree: given the same requests they produce identical encodings, decisions, rankings and vector results, and words encoded on one are decoded on any other. Replicas applying the same log of vector operations on different back ends never diverge, from each other or from what each operation means lane by lane, also across crash, snapshot and replay.",
  ["configurations", "schedules", "inputs", "histories"],
  "every vector width the library specialises (and its fall-back), every element-wise operation it exports, all codecs, all operand values including extremes, all replica crash/replay histories; back ends AVX2, SSE4.1, NEON (on stand-in intrinsics) and generic",
  "the tests are compiled for AVX2 only; the SSE4.1, NEON and generic code paths are never executed.",
  ["simd.hh", "avx2.hh", "avx2_double.hh", "sse4_1.hh", "sse4_1_double.hh", "sse4_1_triple.hh", "sse4_1_quadruple.hh", "neon.hh", "neon_double.hh", "neon_triple.hh", "neon_quadruple.hh", "rotate.hh", "cauchy_reed_solomon_erasure_coding.hh", "polar_helper.hh"],
  [("template specialisations per instruction set with equal semantics", "avx2*.hh, sse4_1*.hh, neon*.hh, simd.hh")], ["SIMD free functions", "codec operator()"])
p("C18", "Operations touch only the memory their contract names",
  "Every operation writes only to its object and to the output ranges its parameters describe, and leaves inputs it takes as read-only unchanged, for every legal parameter combination including shortened, minimal and maximal lengths, any buffer alignment, failed decodes and zero counts. Nothing adjacent to a buffer is ever modified, and operations work when the memory next to it is inaccessible.",
  ["inputs", "configurations", "fault_sequences"],
  "all codecs, all legal lengths, alignments, erasure counts, list sizes and parity offsets, successful and failing operations, under hostile memory layouts with guarded neighbours",
  "the tests allocate generous or exactly sized buffers and never look beside them.",
  ["reed_solomon_decoder.hh", "bose_chaudhuri_hocquenghem_encoder.hh", "cauchy_reed_solomon_erasure_coding.hh", "cauchy_prime_field_erasure_coding.hh", "polar_parity_aided.hh", "bitstream.hh", "osd.hh", "ldpc_decoder.hh"],
  [("loop bounds derived from template and call parameters", "all headers")], ["memory around every buffer"])
p("C19", "A concatenated link delivers everything, in order, uncorrupted",
  "A link that stacks the library's scrambler, checksum, outer code, interleaver and inner soft-decision code under a stop-and-wait retransmission protocol never delivers a corrupted, duplicated, missing or reordered frame, whatever the channel does and wherever either end crashes and restarts. Once the faults stop, every submitted frame is delivered within a bounded number of transmissions.",
  ["fault_sequences", "schedules", "crash_points", "histories"],
  "all channel fault sequences (noise, bursts, erasures, jamming, loss, duplication, reordering, delay), endpoint crashes and restarts, timer skew, and combinations of inner and outer codes",
  "no test composes two components, and none has a sender and a receiver with a lossy channel between them.",
  ["crc.hh", "xorshift.hh", "reed_solomon_encoder.hh", "reed_solomon_decoder.hh", "bose_chaudhuri_hocquenghem_encoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "interleave.hh", "polar_list_decoder.hh", "ldpc_decoder.hh", "hadamard_decoder.hh", "bitstream.hh"],
  [("composition of the public encoders and decoders", "all headers")], ["frames handed to the receiving application"])
p("C20", "Generators stay in step across resets and restarts",
  "Two parties that seed the library's pseudo-random and maximum-length sequence generators alike produce the same published sequence for ever, and a party that crashes or loses step and returns to a known state by reset or by re-seeding and skipping is in step again. Scrambling with a generator and descrambling with its twin returns the data unchanged. Resetting with defaults equals construction with defaults.",
  ["histories", "crash_points", "schedules", "configurations"],
  "all generators, seeds and polynomials, and all histories of draws, resets, crashes, checkpoints and skips by several parties",
  "mls_test checks one period property; no test resets or restarts a generator.",
  ["xorshift.hh", "mls.hh"], [("state update and reset", "xorshift.hh, mls.hh")], ["operator()", "reset()"])
# Not simulation targets
p("C21", "Field arithmetic satisfies the field axioms",
  "Addition, multiplication, division and reciprocals in every supported binary extension field and prime field satisfy the field axioms, and table-driven and bitwise implementations agree on every operand pair.",
  ["inputs", "configurations"], "all field elements of all supported fields",
  "gf_test and pf_test sample or enumerate some fields; they cannot cover every polynomial.",
  ["galois_field.hh", "prime_field.hh"], [("log/exp tables, carry-less reduction", "galois_field.hh"), ("modular reduction", "prime_field.hh")])
p("C22", "Sorting is stable and correct",
  "The sorting routines return a stable, ordered permutation of their input, and report that permutation where asked to, for every length and comparison.",
  ["inputs"], "all arrays and comparison functions", "sort_regression_test samples random arrays of a few lengths.",
  ["sort.hh", "simd_sort.hh"], [("insertion and merge sort", "sort.hh")])
p("C23", "Polar code construction ranks channels by reliability",
  "The freezing and sequence constructions rank synthetic channels by their erasure probability and freeze exactly the requested number of least reliable ones.",
  ["inputs", "configurations"], "all levels, rates and design parameters", "the tests use a few fixed rates.",
  ["polar_freezer.hh", "polar_sequence.hh"], [("recursive erasure probabilities and selection", "polar_freezer.hh, polar_sequence.hh")])
p("C24", "Exclusive reductions combine all other elements",
  "The exclusive reduction delivers, at each place, the combination of all other elements, for every associative and commutative operation and every length it supports.",
  ["inputs"], "all arrays and operations", "no test covers it.",
  ["exclusive_reduce.hh"], [("prefix/suffix combination", "exclusive_reduce.hh")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
