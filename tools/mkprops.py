import json
H="lib/high/"; L="lib/low/"; K=H+"Keccak/"
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CFG="every implementation offered for the platform (reference, compact, 32- and 64-bit generic, SSSE3, AVX, AVX2, AVX-512, XOP, ARM, AVR8; little- and big-endian)"
p("C01","Keccak-p[1600] state functions are exact in every implementation",
 "For any sequence of initialise, add, overwrite, overwrite-with-zeroes, permute (any number of rounds up to 24), extract, extract-and-add and fast absorbing calls at any byte offset and length inside the state, what is extracted is what the specification of Keccak-p[1600] gives. This holds identically in every implementation of the state functions.",
 ["inputs","histories","configurations"],"All sequences of state calls, all offsets, lengths, data, buffer alignments and round counts; "+CFG+".",
 "The unit tests compare one checksum of one fixed sequence per implementation; offsets, alignments, round counts, lane counts of the fast loop and their order are only sampled, and lane-complementing or interleaved states make the bytes depend on the history.",
 [L+"KeccakP-1600",L+"common/SnP-Relaned.h"],
 [("byte and lane access to the state",L+"KeccakP-1600/common/KeccakP-1600-64.macros, "+L+"common/SnP-Relaned.h"),("permutation",L+"KeccakP-1600/plain-64bits/KeccakP-1600-opt64.c, plain-32bits-inplace, compact, AVX512, x86-64, ARM, ARMv8A"),("fast absorbing loop","KeccakF1600_FastLoop_Absorb and KeccakP1600_12rounds_FastLoop_Absorb in each implementation")],
 [("1600-bit state","25 lanes, possibly complemented or bit-interleaved","state structure of each implementation")],["Extract and ExtractAndAdd after any history"])
p("C02","Parallel Keccak-p[1600] equals independent single-state permutations",
 "Operating on 2, 4 or 8 Keccak-p[1600] states in parallel gives for every state exactly what the same operations on a state of its own give, for single instances and for all instances at once, with any lane count, lane offset and distance between instances. The bulk operations built on it (fast absorbing, KangarooTwelve leaves, Kravatte compression and expansion) equal their definition one state at a time.",
 ["inputs","histories","configurations"],"All sequences of parallel-state calls, instance indices, offsets, lane counts and offsets, data; SIMD (SSSE3, AVX2, AVX-512, NEON) and fallback implementations of each degree of parallelism.",
 "The unit tests use one fixed pattern of offsets with one checksum per implementation, and exercise the bulk operations only through a few message lengths.",
 [L+"KeccakP-1600-times2",L+"KeccakP-1600-times4",L+"KeccakP-1600-times8",L+"common/PlSnP-Fallback.inc"],
 [("SIMD lanes",L+"KeccakP-1600-times4/AVX2, "+L+"KeccakP-1600-times{2,4,8}/AVX512, "+L+"KeccakP-1600-times2/SIMD128, "+L+"KeccakP-1600-times4/SSSE3"),("fallback on narrower parallelism",L+"common/PlSnP-Fallback.inc")],None,["extraction from each instance","bulk operation outputs"])
p("C03","Xoodoo state functions and parallel Xoodoo are exact in every implementation",
 "For any sequence of state calls on Xoodoo, alone or 4, 8 or 16 at a time, with any number of rounds up to 12, what is extracted is what the specification of Xoodoo gives. The Xoodyak full-block operations and the Xoofff bulk compression and expansion equal their definition one block at a time.",
 ["inputs","histories","configurations"],"All sequences of state calls, offsets, lengths, data, alignments, round counts and instance indices; reference, generic, SSE2, SSSE3, AVX2, AVX-512, NEON and ARM implementations.",
 "The unit tests compare one checksum of a fixed sequence per implementation; the full-block operations are reached only with the lengths of the Xoodyak tests and with aligned buffers.",
 [L+"Xoodoo",L+"Xoodoo-times4",L+"Xoodoo-times8",L+"Xoodoo-times16"],
 [("single-state functions",L+"Xoodoo/*/Xoodoo-SnP.h and sources"),("parallel functions",L+"Xoodoo-times{4,8,16}"),("full-block functions","Xoodyak-full-blocks.c and Xoodyak-*-armv*.s next to the permutation")],None,["Extract after any history","full-block outputs and the state after them"])
p("C04","FIPS 202 one-shot functions compute SHA-3 and SHAKE",
 "For every message and, for the extendable-output functions, every output length, the one-shot hash calls return exactly the FIPS 202 value, write exactly that many bytes, and do so in every implementation.",
 ["inputs","configurations"],"All message contents and lengths, output lengths and alignments; "+CFG+".",
 "The known-answer files have one message per length up to about 255 bytes; block-boundary combinations of message and output lengths, long outputs and alignments are not among them.",
 [K+"FIPS202/SimpleFIPS202.c",K+"FIPS202/SimpleFIPS202.h",K+"KeccakSponge.inc"],
 [("one-shot functions",K+"FIPS202/SimpleFIPS202.c"),("one-shot sponge",K+"KeccakSponge.inc: *_Sponge")],None,["returned digest"])
p("C05","Sponge output depends only on the concatenated input and its last bits",
 "For any valid rate and capacity, any way of cutting the input into absorb calls and the output into squeeze calls, with or without explicit last bits, yields exactly the Keccak sponge function of the whole input, and the same as the one-shot call. Successive squeezes continue one output stream.",
 ["inputs","histories","configurations"],"All rates that are multiples of 8, capacities, call sequences and sizes (including empty calls), last-bit values, data; "+CFG+".",
 "The unit tests run rates and cutting patterns from a fixed generator into one checksum, on one instance at a time; the combinations of partial block, fast loop, last-bit byte and copied instance are unbounded.",
 [K+"KeccakSponge.inc",K+"KeccakSponge.c",K+"KeccakSponge.h"],
 [("absorb with partial-block queue",K+"KeccakSponge.inc: *_SpongeAbsorb"),("last bits and padding",K+"KeccakSponge.inc: *_SpongeAbsorbLastFewBits"),("squeeze",K+"KeccakSponge.inc: *_SpongeSqueeze")],
 [("byte position and squeezing flag","where the next byte goes","KeccakWidth1600_SpongeInstance")],["squeezed bytes, return values"])
p("C06","Bit-level incremental hashing computes the FIPS 202 functions",
 "For any cutting of a bit string into update calls whose last one may end inside a byte, the incremental hash interface yields the FIPS 202 digest of that bit string with the chosen suffix, and its squeeze continues one extendable output; SHA-3 and SHAKE digests equal those of the one-shot calls.",
 ["inputs","histories","configurations"],"All instances (rate, capacity, hash length, suffix), message bit lengths, cuttings and squeeze sequences; "+CFG+".",
 "The bit-level known answers give one message per bit length in one update; cuttings and the merge of suffix, last bits and padding at block ends are only sampled.",
 [K+"FIPS202/KeccakHash.c",K+"FIPS202/KeccakHash.h"],
 [("partial last byte merged with the suffix",K+"FIPS202/KeccakHash.c: Keccak_HashUpdate"),("final and squeeze",K+"FIPS202/KeccakHash.c: Keccak_HashFinal, Keccak_HashSqueeze")],
 [("delimited suffix","suffix with the last message bits","Keccak_HashInstance")],["digest","squeezed bytes"])
p("C07","TurboSHAKE gives one output stream for any cutting",
 "For any capacity up to 512 bits that is a multiple of 8 and any domain separation byte from 0x01 to 0x7F (or the maximal one), incremental TurboSHAKE yields the specified value of the concatenated input for every cutting of input and output, equal to the one-shot call.",
 ["inputs","histories","configurations"],"All capacities, domain bytes, call sequences and lengths; "+CFG+".",
 "The unit tests check a few RFC vectors and one checksum per capacity; cuttings around block ends with the 12-round fast loop are only sampled.",
 [H+"TurboSHAKE/TurboSHAKE.c",H+"TurboSHAKE/TurboSHAKE.h",K+"KeccakSponge.inc"],
 [("12-round sponge",K+"KeccakSponge.inc with prefix KeccakWidth1600_12rounds"),("interface",H+"TurboSHAKE/TurboSHAKE.c")],None,["squeezed bytes"])
p("C08","cSHAKE, KMAC and TupleHash follow SP 800-185",
 "For all names, customization strings, keys, messages, tuples and output lengths, the one-shot and the incremental functions return the SP 800-185 value (with fixed or arbitrary-length output), for any cutting into update and squeeze calls, including strings that end inside a byte where the interface takes bit lengths. TupleHash distinguishes tuples by their element boundaries.",
 ["inputs","histories","configurations"],"All bit lengths of the strings, call sequences and output lengths for both security strengths; "+CFG+".",
 "The unit tests have the handful of NIST samples and a fixed checksum; encodings of lengths, the empty name and customization case, bit-aligned strings and squeeze continuation are unbounded.",
 [K+"SP800-185/SP800-185.inc",K+"SP800-185/SP800-185.c",K+"SP800-185/SP800-185.h"],
 [("left_encode, right_encode, bytepad",K+"SP800-185/SP800-185.inc"),("phases",K+"SP800-185/SP800-185.inc, lib/high/common/Phases.h")],
 [("phase","absorbing, final, squeezing","cSHAKE_Instance, KMAC_Instance, TupleHash_Instance")],["output, return values"])
p("C09","ParallelHash equals its definition for any block length and cutting",
 "For every message, block length that the interface accepts, customization string and output length, ParallelHash returns the SP 800-185 value, whether computed at once or in any cutting, and however many blocks are processed in parallel.",
 ["inputs","histories","configurations"],"All block lengths (powers of two of at least 8, far below or above the message length), message lengths, cuttings, output lengths; "+CFG+".",
 "The unit tests use a few block lengths and one kind of cutting; the number of blocks ready for 8-, 4- and 2-fold parallel processing at each call depends on the whole history.",
 [K+"SP800-185/SP800-185.inc"],
 [("blocks in parallel","ParallelHash: ParallelHash_Update in "+K+"SP800-185/SP800-185.inc"),("queue of a partial block","queueAbsorbedLen, blockLen")],
 [("inner sponge and number of blocks","block being filled, blocks done","ParallelHash_Instance")],["output"])
p("C10","KangarooTwelve equals its specification for any length and cutting",
 "For both security levels, all messages, customization strings and output lengths, KangarooTwelve returns the specified value, at once or with any cutting into update and squeeze calls, across the one-chunk limit and however many leaves are processed in parallel.",
 ["inputs","histories","configurations"],"All message and customization lengths around multiples of 8192 bytes, cuttings, output lengths; "+CFG+".",
 "The unit tests use fixed patterns at a few lengths; the leaves that are processed 8, 4, 2 or 1 at a time depend on the cutting, and the customization string continues the chunk the message ends in.",
 [H+"KangarooTwelve/KangarooTwelve.c",H+"KangarooTwelve/KangarooTwelve.h"],
 [("tree hashing with queued chunk",H+"KangarooTwelve/KangarooTwelve.c: KangarooTwelve_Update"),("parallel leaves","ProcessLeaves in KangarooTwelve.c and "+L+"KeccakP-1600-times*"),("final node and right_encode","KangarooTwelve_Final")],
 [("final node, queue node, block number","tree progress","KangarooTwelve_Instance")],["output"])
p("C11","Duplex calls equal the duplex construction",
 "For any valid rate and capacity and any history of duplexing, partial input (fed, zero, overwriting) and further-output calls within the rate, every output byte equals that of the duplex construction on the equivalent padded inputs, and the calls accept exactly what fits in the rate.",
 ["inputs","histories","configurations"],"All rates (including those that are not multiples of 8), call sequences, partial lengths, last-bit values, further outputs with or without addition; "+CFG+".",
 "The unit tests walk fixed patterns into a checksum; partial input, then output, then overwriting within one round of duplexing at arbitrary byte positions has unbounded orders.",
 [K+"KeccakDuplex.inc",K+"KeccakDuplex.c",K+"KeccakDuplex.h"],
 [("duplexing and partial input/output",K+"KeccakDuplex.inc")],
 [("input and output byte index","position in the current duplexing round","KeccakWidth1600_DuplexInstance")],["outputs, return values"])
p("C12","Pseudo-random generator equals its duplex definition and forgets",
 "For any valid capacity and any sequence of feed, fetch and forget calls, the bytes fetched equal those of the specified duplex-based generator, independently of how feeding and fetching are cut. After forget, the state no longer determines the bytes fetched before it.",
 ["inputs","histories","configurations"],"All capacities, call sequences and lengths; "+CFG+".",
 "The unit tests have one fixed sequence per rate and never compare the state after forgetting with a definition for other positions.",
 [K+"PRG/KeccakPRG.inc",K+"PRG/KeccakPRG.c",K+"PRG/KeccakPRG.h"],
 [("feed, fetch, forget over the duplex",K+"PRG/KeccakPRG.inc")],None,["fetched bytes"])
p("C13","Kravatte is one keyed function of the input strings for any cutting",
 "For every key length, sequence of input strings of any bit length and output length and offset, Kravatte (Farfalle with Keccak-p[1600]) yields the specified output, independently of how each string is cut into compress calls and the output into expand calls; bits of the last byte beyond the end of a string have no effect.",
 ["inputs","histories","configurations"],"All key bit lengths below the block, numbers and bit lengths of strings, cuttings, output bit lengths, several output requests; SIMD and generic implementations.",
 "The unit tests compare checksums for a few fixed patterns; the queue, the rolling masks and the 8-, 4-, 2-fold parallel paths meet in combinations that depend on the history.",
 [H+"Kravatte/Kravatte.c",H+"Kravatte/Kravatte.h",L+"KeccakP-1600-times8"],
 [("mask derivation, compression with queue, expansion with queue",H+"Kravatte/Kravatte.c: Kravatte_MaskDerivation, Kra_Compress, Kra_Expand"),("rolling functions",H+"Kravatte/Kravatte.c and KravatteCompress/Expand in parallel implementations")],
 [("rolled masks, accumulators, queue","position in input and output","Kravatte_Instance")],["expanded bytes, return values"])
p("C14","Kravatte-SANE and SANSE sessions encrypt and authenticate as specified",
 "In a session of any number of wraps and unwraps with any bit lengths of plaintext and associated data, ciphertexts and tags equal the specification, the other side recovers exactly the plaintext and accepts every message, each tag authenticates the whole session so far, a rejected message counts as part of it and the session goes on as specified, and bits of the last byte beyond the end of a string have no effect.",
 ["inputs","histories","configurations"],"All keys, nonces, sessions of messages, bit lengths, empty parts, both roles; SIMD and generic implementations.",
 "The unit tests do fixed round trips into a checksum; empty plaintext or associated data, partial bytes and the session history combine without bound.",
 [H+"Kravatte/KravatteModes.c",H+"Kravatte/KravatteModes.h"],
 [("history, phases and tag",H+"Kravatte/KravatteModes.c: Kravatte_SANE_*, Kravatte_SANSE_*")],
 [("attribute bit and history","what has been compressed so far","Kravatte_SANE_Instance, Kravatte_SANSE_Instance")],["ciphertext, tag, recovered plaintext"])
p("C15","Kravatte-WBC and WBC-AE are length-preserving invertible ciphers as specified",
 "For all keys, tweaks or associated data and all plaintext lengths in bits the interface accepts, enciphering gives the specified ciphertext of that length and deciphering returns the plaintext, in place of any buffer alignment; the authenticated variant additionally recovers and checks its redundancy.",
 ["inputs","configurations"],"All bit lengths from empty to many blocks (around every split boundary), tweak lengths, data; SIMD and generic implementations.",
 "The unit tests cover some lengths with one pattern; the left/right split depends on the length in a way with many special cases.",
 [H+"Kravatte/KravatteModes.c"],
 [("split and four Feistel steps",H+"Kravatte/KravatteModes.c: Kravatte_WBC_Encipher, Kravatte_WBC_Decipher, Kravatte_WBCAE_*")],None,["ciphertext, deciphered plaintext, return value"])
p("C16","Xoofff is one keyed function of the input strings for any cutting",
 "For every key length, sequence of input strings of any bit length and output length, Xoofff (Farfalle with Xoodoo) yields the specified output, independently of how each string is cut into compress calls and the output into expand calls; bits of the last byte beyond the end of a string have no effect.",
 ["inputs","histories","configurations"],"All key bit lengths below the block, strings, cuttings and output requests; SSE2/SSSE3, AVX2, AVX-512, NEON and generic implementations.",
 "The unit tests compare checksums for a few fixed patterns; queue, rolling and the 16-, 8-, 4-fold parallel paths meet in combinations that depend on the history.",
 [H+"Xoofff/Xoofff.c",H+"Xoofff/Xoofff.h",L+"Xoodoo-times4",L+"Xoodoo-times8",L+"Xoodoo-times16"],
 [("mask derivation, compression and expansion with queues",H+"Xoofff/Xoofff.c"),("rolling and bulk functions","Xooffftimes* in the parallel implementations")],
 [("rolled keys, accumulators, queue","position in input and output","Xoofff_Instance")],["expanded bytes, return values"])
p("C17","Xoofff-SANE and SANSE sessions encrypt and authenticate as specified",
 "In a session of any number of wraps and unwraps with any bit lengths of plaintext and associated data, ciphertexts and tags equal the specification, the other side recovers exactly the plaintext and accepts every message, each tag authenticates the whole session so far, a rejected message counts as part of it and the session goes on as specified, and bits of the last byte beyond the end of a string have no effect.",
 ["inputs","histories","configurations"],"All keys, nonces, sessions, bit lengths, empty parts, both roles; SIMD and generic implementations.",
 "The unit tests do fixed round trips into a checksum; empty parts, partial bytes and the session history combine without bound.",
 [H+"Xoofff/XoofffModes.c",H+"Xoofff/XoofffModes.h"],
 [("history, phases and tag",H+"Xoofff/XoofffModes.c: Xoofff_SANE_*, Xoofff_SANSE_*")],
 [("attribute bit and history","what has been compressed so far","Xoofff_SANE_Instance, Xoofff_SANSE_Instance")],["ciphertext, tag, recovered plaintext"])
p("C18","Xoofff-WBC and WBC-AE are length-preserving invertible ciphers as specified",
 "For all keys, tweaks or associated data and all plaintext lengths in bits the interface accepts, enciphering gives the specified ciphertext of that length and deciphering returns the plaintext; the authenticated variant additionally recovers and checks its redundancy.",
 ["inputs","configurations"],"All bit lengths from empty to many blocks (around every split boundary), tweak lengths, data; SIMD and generic implementations.",
 "The unit tests cover some lengths with one pattern; the left/right split depends on the length in a way with many special cases.",
 [H+"Xoofff/XoofffModes.c"],
 [("split and four Feistel steps",H+"Xoofff/XoofffModes.c: Xoofff_WBC_*, Xoofff_WBCAE_*")],None,["ciphertext, deciphered plaintext, return value"])
p("C19","Xoodyak equals the Cyclist specification for any sequence of calls",
 "For any sequence of absorb, encrypt, decrypt, squeeze, squeeze-key and ratchet calls in hash or keyed mode, with any key, identifier, counter and lengths, Xoodyak's outputs equal the Cyclist specification, and decrypting what was encrypted from the same state returns the plaintext and the same state.",
 ["inputs","histories","configurations"],"All call sequences, lengths around the absorb and squeeze rates, key/identifier/counter lengths, alignments; reference, generic, SSE2, AVX-512 and ARM implementations.",
 "The unit tests use fixed sequences with one length pattern into a checksum; the up/down phase, colour bytes and full-block shortcuts depend on the history.",
 [H+"Xoodyak/Cyclist.inc",H+"Xoodyak/Xoodyak.c",H+"Xoodyak/Xoodyak-parameters.h",L+"Xoodoo"],
 [("Cyclist up/down",H+"Xoodyak/Cyclist.inc"),("full-block shortcuts",L+"Xoodoo/*/Xoodyak-full-blocks.c, Xoodyak-*-armv*.s")],
 [("phase and mode","whether the next call starts with Up or Down","Xoodyak_Instance")],["every output"])
p("C20","Authenticated decryption accepts only genuine messages and wipes the rest",
 "The authenticated modes accept every genuine cryptogram and return a failure for one whose ciphertext, tag, associated data, lengths (to the bit, whatever the bits beyond the end), key, nonce or place in the session was altered (but for the negligible chance of guessing a tag). When the session modes return failure, no part of the decrypted plaintext is left in the output buffer.",
 ["inputs","histories","configurations","fault_sequences"],"All sessions and all alterations: any bit of ciphertext, tag or associated data, changed lengths, swapped, replayed or foreign messages, another key or nonce; SIMD and generic implementations.",
 "The unit tests only unwrap genuine messages; none of them looks at a rejected one or at the buffer after it.",
 [H+"Kravatte/KravatteModes.c",H+"Xoofff/XoofffModes.c"],
 [("tag comparison and wipe","*_SANE_Unwrap, *_SANSE_Unwrap"),("redundancy check","*_WBCAE_Decipher")],None,["return value","plaintext buffer after failure"])
p("C21","Invalid parameters and calls in the wrong phase are refused without effect",
 "A call whose parameters the interface documents as invalid (rates, capacities, lengths, domain or last bits, block lengths, security levels) or that comes in the wrong phase (absorbing after the output began, output before the end of the input, a second end, a partial byte that is not last) returns failure. It writes no output and leaves the instance as it was, so that the history continues as if the call had not been made.",
 ["inputs","histories","configurations"],"All refused calls of the sponge, hash, TurboSHAKE, SP 800-185, KangarooTwelve, duplex, generator and Farfalle interfaces, at every point of any valid history; "+CFG+".",
 "Hardly any unit test makes a refused call, and none continues with the instance afterwards.",
 [K+"KeccakSponge.inc",K+"FIPS202/KeccakHash.c",H+"TurboSHAKE/TurboSHAKE.c",K+"SP800-185/SP800-185.inc",H+"KangarooTwelve/KangarooTwelve.c",K+"KeccakDuplex.inc",K+"PRG/KeccakPRG.inc",H+"Kravatte/Kravatte.c",H+"Xoofff/Xoofff.c"],
 [("parameter and phase checks at the start of each function","the files above; phases in lib/high/common/Phases.h")],None,["return value, outputs and instance after a refused call, outputs of the rest of the history"])
p("C22","Calls touch only the memory they are given and use no uninitialised data",
 "For every valid sequence of calls, with buffers of exactly the stated sizes at any alignment, no call reads or writes outside its arguments, changes an input, writes outside an instance or beyond an output, or goes out of the bounds of its own objects. No result depends on memory that nobody initialised.",
 ["inputs","histories","configurations"],"All interfaces, histories, lengths (including zero), alignments and placements of buffers; "+CFG+", also under address, bounds and memory checkers.",
 "The unit tests use large static buffers that are rarely full, so that an access past the end is invisible, and run without checkers.",
 [H,L],
 [("length arithmetic of partial blocks and lanes","all modules"),("word-wise access to byte buffers",L+"KeccakP-1600, "+L+"Xoodoo and their parallel versions")],None,["accesses outside guarded buffers, sanitizer reports, canaries around outputs and instances"])
p("C23","Instances used in different threads do not influence each other",
 "When several threads use the library at the same time, each with instances of its own, every call returns what it returns in a single thread and there is no data race.",
 ["schedules","inputs","histories","configurations"],"All functions and histories in up to eight threads, the same or different functions, all optimised x86-64 implementations (the reference implementation, which fills its tables at initialisation, is left out).",
 "All tests are single-threaded.",
 [H,L],
 [("no shared mutable state: constants are read-only, all state is in instances or on the stack","all modules of the optimised implementations")],None,["outputs of each thread, data race reports"])
p("C24","The stand-alone implementations compute the same functions",
 "Each stand-alone implementation (two compact and one tweetable C program, two Python modules and the Rust KangarooTwelve) returns, for all messages and all parameters it accepts, the same value as the specification of SHA-3, SHAKE, cSHAKE-free Keccak sponge or KangarooTwelve.",
 ["inputs","configurations"],"All message lengths, rates and capacities, suffixes and output lengths of each stand-alone implementation.",
 "Their tests use known answers with short messages and one output length each; the Python modules and the Rust program are run on a handful of inputs or only parsed.",
 ["Standalone/CompactFIPS202/C","Standalone/CompactFIPS202/Python","Standalone/KangarooTwelve/Rust/k12.rs"],
 [("complete implementations of the sponge","the files above")],None,["returned digests"])
p("C25","KeccakSum prints the digest of every file and string under the options in effect",
 "For every command line, KeccakSum prints, in order, for each file, standard input and string the digest of exactly its bytes under the function, customization string, output length and format (hexadecimal, base64, quiet) that the options preceding it put into effect. A file that cannot be read is reported and does not change the other digests.",
 ["inputs","histories","configurations"],"All sequences of options, files and strings; files of any length, in particular around the size of the read buffer; 64-bit and 32-bit builds and SIMD implementations.",
 "Nothing in the tests runs the utility.",
 ["util/KeccakSum/KeccakSum.c","util/KeccakSum/base64.c"],
 [("option handling and choice of the function","util/KeccakSum/KeccakSum.c"),("reading in pieces","util/KeccakSum/KeccakSum.c"),("base64 output","util/KeccakSum/base64.c")],None,["printed lines"])
p("C26","The C++ model of the low-level interfaces is exact and keeps to its bounds",
 "For every Keccak-p width from 25 to 1600 bits and for Xoodoo, the SnP and PlSnP objects of the C++ model in doc give, for any sequence of their calls, what the specification of the permutation and the description of the interface give, for one and for several instances in parallel. A call whose offset, length, byte or lane count, instance index or number of rounds is outside what the object supports throws an Exception, writes nothing and leaves all states as they were. The steps of the rounds, their inverses and transposes, on states and on positions, agree with each other and with the permutation.",
 ["inputs","histories"],"All widths, sequences of calls, offsets, lengths up to 2^32-1, sets of supported rounds and numbers of instances; PlSnP::FastLoop_Absorb, which is marked as to be written, is left out; fast loops have lanes of whole bytes.",
 "The model is not built or run by the tests. Its own program prints one checksum per width for someone to compare, and makes no call that has to be refused.",
 ["doc/Low level model/src/SnP.cpp","doc/Low level model/src/PlSnP.cpp","doc/Low level model/src/Keccak-p.cpp","doc/Low level model/src/Keccak-p.h","doc/Low level model/src/Xoodoo.cpp","doc/Low level model/src/Xoodoo.h","doc/Low level model/src/Permutations.h"],
 [("checks of offsets and lengths before each access","SnP.cpp, PlSnP.cpp"),("lanes of 1 to 64 bits, packed into bytes","Keccak-p.cpp"),("planes stored lane by lane, inverse steps","Xoodoo.cpp")],
 [("state / states","the bytes of the permutation state, of each instance","SnP.h, PlSnP.h")],["extracted bytes, exceptions, queries"])
p("C27","Lengths beyond 4 GiB and 2^32 bits are processed correctly",
 "For inputs and outputs whose length in bytes or bits does not fit in 32 bits, hashing at once, in large pieces and in small pieces gives the same, specified result wherever the interface takes the length as a size.",
 ["inputs","histories","configurations"],"Lengths around 2^29 bytes, 2^32 bits and 2^32 bytes in one or several calls, for the functions that take such lengths; 64-bit and 32-bit builds.",
 "No test input is longer than a few hundred kilobytes.",
 [K+"KeccakSponge.inc",K+"FIPS202/KeccakHash.c",K+"SP800-185/SP800-185.inc",H+"KangarooTwelve/KangarooTwelve.c",H+"Kravatte/Kravatte.c",H+"Xoofff/Xoofff.c",H+"Xoodyak/Cyclist.inc"],
 [("length arithmetic in size_t, unsigned int and bit counts","the files above")],None,["digests"])
p("C28","Every selection of services and implementations gives a working library",
 "For any subset of the services together with any combination of the permutation implementations offered for the processor (including combinations that no predefined target uses), the library builds, and each service it contains gives the specified results.",
 ["inputs","histories","configurations"],"Subsets of the services of lib/HighLevel.build combined with one implementation per permutation and any set of parallel ones from lib/LowLevel.build, with gcc and clang, on 64 and 32 bits.",
 "Tests are run on some predefined targets, which all contain every service and only a few combinations of implementations.",
 ["lib/HighLevel.build","lib/LowLevel.build",K+"KeccakSponge.h",H+"Kravatte/Kravatte.c",H+"Xoofff/Xoofff.c",H+"KangarooTwelve/KangarooTwelve.c",H+"TurboSHAKE/TurboSHAKE.c",L+"common/PlSnP-Fallback.inc"],
 [("XKCP_has_* conditional compilation of services","lib/high"),("parallel permutations absent, fallback or native","lib/high, lib/low")],None,["digests","MACs","ciphertexts"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
