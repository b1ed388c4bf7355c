"""What each check is made of: wrapper families, back ends, world, number of simulated runs per tier."""
CHECKS = {
 "C01": dict(wrap=["rs"], isa=["v3"], world=["world_sector.cc"], quick=100000, thorough=2500000,
   rule="distinct sequences of faults and of (damage load, flags, outcome) over all reads of a run, per code",
   real=["ReedSolomonEncoder", "ReedSolomonDecoder", "ReedSolomonErrorCorrection", "GaloisField tables"],
   stub=["media, bit rot, grown-defect list, power, clock: simulated"]),
 "C02": dict(wrap=["bch"], isa=["v3"], world=["world_sector.cc"], quick=80000, thorough=2000000,
   rule="distinct sequences of faults and of (damage load, flags, outcome) over all reads of a run, per code",
   real=["BoseChaudhuriHocquenghemEncoder/Decoder and their Reference twins", "ReedSolomonErrorCorrection", "GaloisField tables", "bitman"],
   stub=["media, bit rot, grown-defect list, power, clock: simulated"]),
 "C03": dict(wrap=["rs", "bch"], isa=["v3"], world=["world_sector.cc"], quick=100000, thorough=2500000,
   rule="distinct sequences of faults and of (damage load, flags, outcome) over all reads of a run, per code",
   real=["ReedSolomonEncoder/Decoder", "BoseChaudhuriHocquenghemEncoder/Decoder and their Reference twins", "ReedSolomonErrorCorrection"],
   stub=["media, torn/lost/misdirected writes, bit rot, power, clock: simulated"]),
 "C04": dict(wrap=["crs"], isa=["v3", "v2", "v1", "a64", "a32"], world=["world_store.cc"], quick=100000, thorough=2500000,
   rule="distinct sequences of faults, geometries and (ordered) sets of block identifiers used for reconstruction",
   real=["CauchyReedSolomonErasureCoding on AVX2, SSE4.1, NEON and generic builds", "GaloisField tables"],
   stub=["NEON intrinsics: lane-by-lane stand-ins", "network, nodes, disks, clock: simulated"]),
 "C05": dict(wrap=["cpf"], isa=["v3", "v2", "v1"], world=["world_store.cc"], quick=100000, thorough=2500000,
   rule="distinct sequences of faults, geometries and (ordered) sets of block identifiers used for reconstruction",
   real=["CauchyPrimeFieldErasureCoding", "PrimeField"],
   stub=["network, nodes, disks, clock: simulated"]),
 "C06": dict(wrap=["word"], isa=["v3", "v1"], world=["world_words.cc"], quick=120000, thorough=3000000,
   rule="distinct sequences of channel faults and decisions over the frames of a run, per code",
   real=["HadamardEncoder/Decoder", "SimplexEncoder/Decoder"], stub=["radio channel, combining, power: simulated"]),
 "C07": dict(wrap=["word"], isa=["v3", "v1"], world=["world_words.cc"], quick=18000, thorough=450000,
   rule="distinct sequences of channel faults and decision outcomes over the frames of a run, per code",
   real=["ShortBCHCodeEncoder/Decoder"], stub=["radio channel, power: simulated"]),
 "C08": dict(wrap=["ldpc"], isa=["v3", "v2", "v1", "a64", "a32"], world=["world_radio.cc"], quick=60000, thorough=1500000,
   rule="distinct sequences of channel faults and of (trials left, word valid, errors) over the frames of a run, per table, attenuation and back end",
   real=["LDPCEncoder", "LDPCDecoder on AVX2, SSE4.1, NEON and generic builds", "Rotate", "SIMD"], stub=["NEON intrinsics: lane-by-lane stand-ins", "radio channel, weather, combining, power: simulated"]),
 "C09": dict(wrap=["polar"], isa=["v3", "v1"], world=["world_polar.cc"], quick=60000, thorough=1600000,
   rule="distinct sequences of codes (level, frozen set size), channel faults and outcomes over the frames of a run",
   real=["PolarEncoder", "PolarSysEnc", "PolarDecoder (8-bit fixed and floating point)"], stub=["radio channel, rate adaptation, power: simulated"]),
 "C10": dict(wrap=["list"], isa=["v3", "v2", "v1", "a64", "a32"], world=["world_polar.cc"], quick=24000, thorough=600000, weight={"list": 10},
   rule="distinct sequences of codes (level, size, parity layout), channel faults and positions of the sent message over the frames of a run",
   real=["PolarListDecoder", "PolarParityEncoder", "PolarParityDecoder", "PolarEncoder", "SIMD on AVX2, SSE4.1, NEON and generic builds", "insertion_sort"], stub=["NEON intrinsics: lane-by-lane stand-ins", "radio channel, rate adaptation, power: simulated"]),
 "C11": dict(wrap=["osd"], isa=["v3", "v1"], world=["world_osd.cc"], quick=150000, thorough=4000000,
   rule="distinct sequences of codes, channel faults and decision outcomes over the frames of a run",
   real=["OrderedStatisticsDecoder", "OrderedStatisticsListDecoder", "LinearEncoder", "BoseChaudhuriHocquenghemGenerator", "MergeSort"], stub=["radio channel, code changes, power: simulated"]),
 "C12": dict(wrap=["crc"], isa=["v3", "v1"], world=["world_stream.cc"], quick=100000, thorough=2500000,
   rule="distinct sequences of segmentations, restarts, retransmissions and damage over the frames of a run, per width, polynomial and preset",
   real=["CRC"], stub=["sender and receiver segmentation, channel, checkpointing, power: simulated"]),
 "C13": dict(wrap=["bits"], isa=["v3", "v1"], world=["world_stream.cc"], quick=150000, thorough=4000000,
   rule="distinct sequences of operations, bit offsets and faults, per container size",
   real=["Bitstream", "bit accessors of bitman.hh"], stub=["writers and readers, checkpoint storage, bit rot, power: simulated"]),
 "C14": dict(wrap=["intlv", "rs"], isa=["v3", "v1"], world=["world_stream.cc"], quick=100000, thorough=2500000,
   rule="distinct (interleaver or permutation, code, burst position and length, delivery order, restarts)",
   real=["Interleave", "Deinterleave", "FisherYatesShuffle", "ReverseFisherYatesShuffle", "BitReversalPermute", "ReedSolomonEncoder/Decoder"], stub=["burst channel, delivery order, power: simulated"]),
 "C20": dict(wrap=["prng"], isa=["v3", "v1"], world=["world_stream.cc"], quick=150000, thorough=4000000,
   rule="distinct sequences of key exchanges, lost and duplicated frames and restarts, per generator and seed form",
   real=["Xorshift32", "Xorshift64", "Xorwow", "Xorshift128", "MLS"], stub=["channel, key exchange, power: simulated"]),
 "C15": dict(wrap=["rs", "bch", "crs", "cpf", "word", "ldpc", "polar", "list", "osd", "crc", "bits", "intlv", "prng", "misc", "vec"], isa=["v3", "v2", "v1"], world=["world_services.cc", "services.cc"], quick=15000, thorough=450000, instr=True, weight={"list": 10, "ldpc": 5, "vec": 4},
   rule="distinct sequences of (operation, times served, fault, abandonment point) over the history of a run",
   real=["every class template of the library on AVX2, SSE4.1 and generic builds"], stub=["clients, process and node crashes, memory contents: simulated"]),
 "C16": dict(wrap=["rs", "bch", "crs", "cpf", "word", "ldpc", "polar", "list", "osd", "crc", "bits", "intlv", "prng", "misc", "vec"], isa=["v3", "v2", "v1"], world=["world_services.cc", "services.cc"], quick=30000, thorough=250000, instr="stores", weight={"list": 10, "ldpc": 5, "vec": 4},
   rule="distinct interleavings: sequences of (thread, edges executed) over all slices of a run, with the results of its operations",
   real=["every class template of the library on AVX2, SSE4.1 and generic builds"], stub=["thread scheduler and thread death: simulated (one thread runs at a time, switched at instrumented edges)"]),
 "C17": dict(wrap=["rs", "bch", "crs", "cpf", "word", "ldpc", "polar", "list", "osd", "crc", "bits", "intlv", "prng", "misc", "vec"], isa=["v3", "v2", "v1", "a64", "a32"], world=["world_services.cc", "services.cc"], quick=50000, thorough=1500000, weight={"list": 10, "ldpc": 5, "vec": 4},
   rule="distinct sequences of (operation, delivery, fault) over the nodes of a run, or of (vector operation, fault) over the replicas",
   real=["every class template of the library on AVX2, SSE4.1, NEON (AArch64, ARMv7) and generic builds", "vector layer also against a lane-by-lane definition"], stub=["NEON intrinsics: lane-by-lane stand-ins", "network, log, node crashes, snapshots: simulated"]),
 "C18": dict(wrap=["rs", "bch", "crs", "cpf", "word", "ldpc", "polar", "list", "osd", "crc", "bits", "intlv", "prng", "misc", "vec"], isa=["v3", "v2", "v1"], world=["world_services.cc", "services.cc"], quick=30000, thorough=1200000, weight={"list": 10, "ldpc": 5, "vec": 4},
   rule="distinct sequences of (operation, parameters, placement) of a run",
   real=["every class template of the library on AVX2, SSE4.1 and generic builds"], stub=["memory placement, guard zones, inaccessible pages: simulated"]),
 "C19": dict(wrap=["rs", "bch", "word", "ldpc", "polar", "list", "osd", "crc", "bits", "intlv", "prng"], isa=["v3", "v1"], world=["world_link.cc"], quick=24000, thorough=300000, weight={"list": 10, "ldpc": 5},
   rule="distinct (link configuration, sequence of channel faults, crashes, transmissions and answers)",
   real=["scramblers", "CRC-64", "Bitstream", "Reed-Solomon / BCH outer codes", "Interleave", "FisherYatesShuffle, ReverseFisherYatesShuffle, BitReversalPermute", "Hadamard, simplex, short BCH, polar, polar list, ordered statistics and LDPC inner codes"],
   stub=["air in both directions, timers, stop-and-wait protocol, durable counters, crashes: simulated"]),
}
