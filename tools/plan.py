"""What each check generates, on which targets, how much, and what makes a case non-trivial."""
import drivers

# targets of Makefile.build on this machine, then low-level combinations (MIX) and other compilers / processors.
# name/k: the target gets every k-th case
TARGETS = ("reference reference32bits compact generic64 generic64lc generic32 SSSE3 AVX AVX2 AVX2noAsm AVX512 AVX512noAsm "
           "generic32lc mixA mixB mixC mixD mixE xopA XOP generic64@asan reference@asan AVX2@asan AVX512noAsm@asan generic64@i686 generic32@i686 "
           "SSSE3@i686/2 SSSE3@i686s/2 AVX2noAsm@i686/2 AVX512noAsm@i686/2 SSSE3@v3/2 AVX2@v3/2 AVX512noAsm@v4/2 "
           "generic32@armv6/2 generic32lc@armv6/4 generic64@aarch64/4 ARMv6@armv6/2 ARMv6M@thumb/2 ARMv7M@thumb/2 ARMv7A@armv7a/2 ARMv8A@aarch64/2 arm8a@aarch64/2 armM1@thumb/2 armM2@thumb/4").split()
BE = TARGETS + "generic64@be64/3 generic64lc@be64/4 compact@be64/4 reference@be64/4 generic32@be32/3 generic32lc@be32/4 generic64@be32/4".split()
AVR = "AVR8@avr/24 avrC@avr/40".split()        # the second only differs in Keccak-p[1600]
def avr(k): return [f"AVR8@avr/{k}"]
X86 = [t for t in TARGETS if "@" not in t]


DRIVERS = drivers.DRIVERS
MODEL = "The oracle is an independent model written from the specification; it is validated against published test vectors and other implementations (see DESIGN.md)."
QEMU = "ARM and big-endian code runs under qemu user-mode emulation, i686 code natively, XOP code with its two rotation instructions replaced by SSE2; AVR8 code (assembly, and C compiled by clang) in an interpreter of our own."


GROUPS = {
    # decoders, executor modules, high-level fragments, sources not needed
    "snp": (["props_snp"], ["snp"], ["Kravatte", "KangarooTwelve"], r"Xoodoo|lib/high/(Kravatte|Kangaroo)"),
    "xsnp": (["props_snp"], ["xsnp"], ["Xoofff", "Xoodyak"], r"KeccakP-1600"),
    "sponge": (["props_hash"], ["keccak"], ["KeccakSponge", "TurboSHAKE", "FIPS202"], r"Xoodoo|-times[248]-"),
    "sp800": (["props_hash"], ["keccak"], ["SP800-185"], r"Xoodoo"),
    "k12": (["props_hash"], ["keccak"], ["KangarooTwelve"], r"Xoodoo"),
    "duplex": (["props_duplex"], ["keccak"], ["KeccakPRG"], r"Xoodoo|-times[248]-"),
    "kravatte": (["props_ff"], ["kravatte"], ["Kravatte"], r"Xoodoo"),
    "xoofff": (["props_ff"], ["xoofff"], ["Xoofff"], r"KeccakP-1600"),
    "xoodyak": (["props_xdk"], ["xoodyak"], ["Xoodyak"], r"KeccakP-1600|Xoodoo-times"),
    "misuse": (["props_misuse", "props_hash", "props_duplex", "props_ff"], ["keccak", "kravatte", "xoofff"],
               ["KeccakSponge", "TurboSHAKE", "FIPS202", "SP800-185", "KangarooTwelve", "KeccakDuplex", "KeccakPRG", "Kravatte", "Xoofff"], None),
    "all": (["props_misuse", "props_hash", "props_duplex", "props_ff", "props_snp", "props_xdk"], ["snp", "xsnp", "keccak", "kravatte", "xoofff", "xoodyak"], ["All"], None),
    "alone": (["props_alone"], [], [], None),
    "doc": (["props_doc"], [], [], None),
    "ae": (["props_ff"], ["kravatte", "xoofff"], ["Kravatte", "Xoofff"], None),
}


def spec(group, cases, rule, targets=TARGETS, **kw):
    drv, execs, highs, skip = GROUPS[group]
    return dict(cases=cases, rule=HIST + "Non-trivial: " + rule, drv=drv, highs=highs, execs=execs, skip=skip, targets=list(targets), assumptions=[MODEL, QEMU], **kw)


HIST = "A choice sequence generated by rapidcheck is decoded into a history of API calls with generated arguments; every target must give the outcome the model predicts. "
PLAN = {
    "C01": spec("snp", (40000, 1000000), "a permutation and an access to part of a lane.", BE + AVR),
    "C02": spec("snp", (24000, 600000), "a permutation and accesses to several lanes, or a bulk operation."),
    "C03": spec("xsnp", (60000, 1500000), "a permutation and an access to part of a lane or to several lanes, or a bulk operation.", BE + avr(2)),
    "C04": spec("sponge", (40000, 1000000), "a message of at least one block less one byte.", BE + avr(32)),
    "C05": spec("sponge", (40000, 1000000), "input or output going beyond one block.", BE + avr(40)),
    "C06": spec("sponge", (40000, 1000000), "a message ending inside a byte, or output going beyond one block.", BE + avr(40)),
    "C07": spec("sponge", (40000, 1000000), "input or output going beyond one block.", BE + avr(40)),
    "C08": spec("sp800", (36000, 900000), "input or output going beyond one block, or a tuple of several elements, or a one-shot call.", BE + avr(40)),
    "C09": spec("sp800", (24000, 600000), "at least two blocks, or output going beyond eight of them, or a block length far above the data.", BE + avr(40)),
    "C10": spec("k12", (14000, 350000), "a message and customization string longer than one chunk of 8192 bytes.", BE + avr(40)),
    "C11": spec("duplex", (40000, 1000000), "at least two duplexing calls, with queued partial input or at the limits of the rate.", BE + AVR),
    "C12": spec("duplex", (20000, 500000), "input or output going beyond one block, or a forget.", BE + avr(96)),
    "C13": spec("kravatte", (24000, 600000), "input or output of at least two blocks.", TARGETS + avr(24)),
    "C14": spec("kravatte", (24000, 600000), "a later message in a session that is longer than one block or ends inside a byte.", TARGETS + avr(40)),
    "C15": spec("kravatte", (20000, 500000), "a message of more than two blocks or ending inside a byte.", TARGETS + avr(40)),
    "C16": spec("xoofff", (32000, 800000), "input or output of at least two blocks.", TARGETS + avr(24)),
    "C17": spec("xoofff", (30000, 750000), "a later message in a session that is longer than one block or ends inside a byte.", TARGETS + avr(24)),
    "C18": spec("xoofff", (24000, 600000), "a message of more than two blocks or ending inside a byte.", TARGETS + avr(24)),
    "C19": spec("xoodyak", (40000, 1000000), "at least three calls, one of them longer than two blocks.", BE + avr(12)),
    "C20": spec("ae", (20000, 500000), "a cryptogram altered in at least one place.", TARGETS + avr(24)),
    "C21": spec("misuse", (24000, 600000), "at least one refused call on an instance in use.", TARGETS + avr(24)),
    "C22": spec("all", (12000, 300000), "at least two calls and some data.",
                "generic64@asan reference@asan compact@asan generic32@asan SSSE3@asan AVX2@asan AVX512@asan AVX512noAsm@asan generic64@msan generic32@msan AVX2noAsm@msan "
                "SSSE3 AVX AVX512 generic32lc SSSE3@i686/2 SSSE3@i686s/2 AVX2noAsm@i686/2 AVX512noAsm@i686/2 SSSE3@v3/2 AVX2@v3/2 mixA mixB mixC mixD mixE ARMv6@armv6/2 ARMv6M@thumb/2 ARMv7M@thumb/2 ARMv7A@armv7a/2 ARMv8A@aarch64/2".split()),
    "C23": spec("all", (8000, 200000), "at least two threads.", "generic64@thr AVX2@thr AVX512@thr SSSE3@thr compact@thr generic32@thr generic64@tsan AVX512noAsm@tsan AVX2noAsm@tsan".split()),
    "C24": spec("alone", (16000, 400000), "a message of at least one block less one byte, several chunks, or output going beyond one block, or a file hashed.",
                "saMore saReadable saReadableLE saTweet saRust saRust@dbg saMore@asan saReadable@asan saTweet@asan saMore@i686 saReadable@i686 saTweet@i686 saMore@be32/2 saReadable@be32/2 saReadable@be64/2 saTweet@be64/2 saPython/3 saNumpy/4 saSum".split()),
    "C25": spec("alone", (5600, 140000), "a change of the algorithm between two files or strings, or a file of at least 64 KiB.",
                "ksum-generic64 ksum-reference ksum-compact ksum-generic32 ksum-generic64lc ksum-AVX2 ksum-AVX512 ksum-SSSE3 ksum-generic64@asan ksum-generic64@i686".split()),
    "C26": spec("doc", (40000, 1000000), "a permutation, and a call that is refused or touches part of a lane; or steps of the rounds.", "docModel docModel@clang docModel@asan".split()),
    "C27": dict(driver="big", rule="Cases are call histories with generated lengths; each output is compared with a streaming reference. Non-trivial: an input or output of at least 2^28 bytes (2^31 bits).",
                assumptions=["The oracle is a streaming reference written from the specifications; short cases of the same shapes run in the same check tie it to the library.",
                             "The inputs repeat with a period of 2134016 bytes.", "64-bit code runs on x86-64, 32-bit code on i686; other processors are not run with such lengths."]),
    "C28": dict(driver="conf", drv=GROUPS["all"][0], rule="A selection (services, one implementation of each primitive needed, any of the parallel ones, compiler) is generated and built; histories of calls decoded from "
                "choice sequences run on every selection that has the service. Non-trivial: at least two calls and some data.", assumptions=[MODEL, "Selections are for x86-64 and i686; XOP code runs with its two rotation instructions replaced by SSE2."]),
}
