#!/usr/bin/env python3
"""Builds the executors (one per XKCP target) and drivers from /repo's working tree into a scratch directory.

XKCP's own build description (/repo/Makefile.build and what it includes) says which sources, flags and config.h macros
make up a target; this script turns the fragments it needs into a ninja file."""
import hashlib, os, re, subprocess, sys, xml.etree.ElementTree as ET

REPO = os.environ.get("XV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
XI = "{http://www.w3.org/2001/XInclude}include"

TOOLS = {
    "x86_64": ("/usr/bin/gcc", "-fPIC", ""),
    "asan": ("/usr/bin/gcc", "-fPIC -g -fsanitize=address,bounds-strict -fno-sanitize-recover=all -fno-omit-frame-pointer", "-fsanitize=address,bounds-strict"),
    "clang": ("/usr/bin/clang", "-fPIC", ""),
    "msan": ("/usr/bin/clang", "-fPIC -g -fsanitize=memory -fno-omit-frame-pointer", "-fsanitize=memory"),
    "tsan": ("/usr/bin/gcc", "-fPIC -g -fsanitize=thread -DXV_THREADS -pthread", "-fsanitize=thread -pthread"),
    "thr": ("/usr/bin/gcc", "-fPIC -DXV_THREADS -pthread", "-pthread"),
    "i686": ("/usr/bin/i686-linux-gnu-gcc", "-msse2", "-static"),
    "i686s": ("/usr/bin/i686-linux-gnu-gcc", "-msse4.1", "-static"),
    # as with -march=native, which the build files ask for
    "v3": ("/usr/bin/gcc", "-fPIC -march=x86-64-v3", ""),
    "v4": ("/usr/bin/gcc", "-fPIC -march=x86-64-v4", ""),
    "armv6": ("/usr/bin/arm-linux-gnueabi-gcc", "-DNO_MISALIGNED_ACCESSES -march=armv6 -mtune=arm1136j-s", "-static"),
    "armv7a": ("/usr/bin/arm-linux-gnueabi-gcc", "-DNO_MISALIGNED_ACCESSES -march=armv7-a -mtune=cortex-a15", "-static"),
    "thumb": ("/usr/bin/arm-linux-gnueabi-gcc", "-DNO_MISALIGNED_ACCESSES -mthumb -march=armv7-a -mfloat-abi=softfp -mfpu=vfpv3-d16", "-static"),
    "aarch64": ("/usr/bin/aarch64-linux-gnu-gcc", "-march=armv8.6-a -mtune=cortex-a75", "-static"),
    "avr": ("/usr/bin/clang --target=avr -mmcu=atmega1280", f"-ffreestanding -fno-jump-tables -I{HERE}/exec/avr", ""),      # interpreted by exec/avr.c
    # big-endian, with our own C library
    "be64": ("/usr/bin/aarch64-linux-gnu-gcc", f"-mbig-endian -U_FORTIFY_SOURCE -fno-stack-protector -fno-builtin -fno-pie -I{HERE}/exec/be", "-nostdlib -static"),
    "be32": ("/usr/bin/arm-linux-gnueabi-gcc", f"-mbig-endian -DNO_MISALIGNED_ACCESSES -march=armv7ve -mtune=cortex-a15 -marm -U_FORTIFY_SOURCE -fno-stack-protector -fno-builtin -fno-pie -I{HERE}/exec/be", "-nostdlib -static -Wl,--be8"),
}
# low-level combinations that are no target of Makefile.build but are offered by LowLevel.build
MIX = {
    "mixA": "K1600-plain-64bits-u6 K1600x2-SSSE3-ua K1600x4-AVX2-u6 K1600x8-AVX512-ua Xoodoo-ref Xoodoox4-SSSE3",
    "mixB": "K1600-plain-64bits-lcu6 K1600x2-AVX512-u4 K1600x4-AVX2-ua Xoodoo-plain-ua Xoodoox8-AVX2",
    "mixC": "K1600-x86-64 K1600x2-AVX512-ua K1600x4-AVX512-u4 Xoodoo-SSE2 Xoodoox16-AVX512",
    "mixD": "K1600-x86-64-shld K1600x4-AVX512-ua K1600x8-AVX512-ua Xoodoo-AVX512 Xoodoox4-AVX512",
    "mixE": "K1600-AVX512-C K1600x8-AVX512-ua Xoodoo-plain-ua Xoodoox8-AVX512",
    "avrC": "K1600-AVR8-compact Xoodoo-AVR8",
    "armM1": "K1600-ARMv6M-u1 Xoodoo-ARMv6M",
    "xopA": "K1600-XOP-u6 K1600x2-XOP-u2 Xoodoo-plain-ua",
    "armM2": "K1600-ARMv6M-inplace Xoodoo-ARMv6M",
    "arm8a": "K1600-ARMv8A Xoodoo-plain-ua",
}
EXECS = {"snp": "exec_snp.c", "xsnp": "exec_xsnp.c", "keccak": "exec_keccak.c", "xoodyak": "exec_xoodyak.c",
         "kravatte": "exec_kravatte.c", "xoofff": "exec_xoofff.c", "big": "big_xkcp.c", "bigx": "big_xoofff.c", "cheap": "big_cheap.c"}


def fragments():
    found = {}
    def walk(node):
        for child in node:
            if child.tag == XI:
                walk(ET.parse(f"{REPO}/{child.get('href')}").getroot())
            elif child.tag == "fragment":
                found[child.get("name")] = child
            else:
                walk(child)
    walk(ET.parse(f"{REPO}/Makefile.build").getroot())
    return found


class Build:
    def __init__(self, out):
        self.out = out
        os.makedirs(out, exist_ok=True)
        self.frag = fragments()
        self.lines = ["rule cc", "  command = $cc $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
                      "rule asm", "  command = $cc $flags -c $in -o $out",
                      "rule avras", "  command = gcc -E -P -x assembler-with-cpp -o $out.s $in && avr-as -mmcu=atmega1280 -o $out $out.s",
                      "rule avr", f"  command = python3 {HERE}/exec/avr_image.py $dir $in",
                      "rule rust", "  command = rustc --edition 2015 --cap-lints allow --crate-type staticlib $flags -o $out $in",
                      "rule link", "  command = $cc -o $out $in $flags", ""]
        self.objs = set()
        self.defaults = []

    def resolve(self, names):
        seen, out = set(), []
        def visit(name):
            if name in seen:
                return
            seen.add(name)
            node = self.frag[name]
            for parent in (node.get("inherits") or "").split():
                visit(parent)
            for e in node:
                if isinstance(e.tag, str):
                    item = (e.tag, (e.text or "").strip(), e.get("gcc") or "")
                    if item not in out:
                        out.append(item)
        for n in names:
            visit(n)
        return out

    def cc(self, cc, src, flags, rule="cc", needs=""):
        key = hashlib.sha1(f"{cc} {flags} {src}".encode()).hexdigest()[:10]
        obj = f"{self.out}/o/{os.path.basename(src)}.{key}.o"
        if obj not in self.objs:
            self.objs.add(obj)
            self.lines += [f"build {obj}: {rule} {src}{needs and ' | ' + needs}", f"  cc = {cc}", f"  flags = {flags}"]
        return obj

    def executor(self, spec, highs, execs, skip=None, program=None, link=""):
        """spec: NAME[@TOOL]; NAME a target of Makefile.build or a MIX entry"""
        name, _, tool = spec.partition("@")
        tool = tool or "x86_64"
        cc, extra, ld = TOOLS[tool]
        low = MIX[name].split() if name in MIX else [name]
        items = self.resolve(list(highs) + low)
        gcc = [t for tag, t, _ in items if tag == "gcc" and not t.endswith("=native")]
        if tool == "avr":
            gcc = ["-O2"]
        if tool in ("asan", "msan", "tsan"):
            gcc = [g if g != "-O3" else "-O1" for g in gcc]
        gas = [t for tag, t, _ in items if tag == "gas"]
        libs = [f for f in gcc if f.startswith("-l")]
        gcc = [f for f in gcc if not f.startswith("-l")]
        defines = [f"-D{t}" for tag, t, _ in items if tag == "define"]
        dirs = list(dict.fromkeys(f"{REPO}/" + os.path.dirname(t) for tag, t, _ in items if tag in ("h", "inc")))
        config = "".join(f"#define {t}\n" for tag, t, _ in items if tag == "config")
        cdir = f"{self.out}/c/{hashlib.sha1(config.encode()).hexdigest()[:8]}"
        os.makedirs(cdir, exist_ok=True)
        if not os.path.exists(f"{cdir}/config.h"):
            open(f"{cdir}/config.h", "w").write(config)
        inc = f"-I{cdir} " + " ".join(f"-I{d}" for d in dirs)
        objs = []
        for tag, src, own in items:
            if skip and re.search(skip, src):       # code that nothing in this executor calls
                continue
            if tool in ("be32", "be64") and re.search(r"lib/high/(Kravatte|Xoofff)/", src):   # says "todo" on these processors
                continue
            own = own.replace("-mxop", f"-msse4.1 -include {HERE}/exec/xop.h")     # nothing here runs XOP
            if tag == "c":
                objs.append(self.cc(cc, f"{REPO}/{src}", " ".join([*gcc, own, *defines, extra, inc, "-w"])))
            elif tag == "s" and tool == "avr":          # first, because their constants are within reach of lpm
                objs.insert(0, self.cc(cc, f"{REPO}/{src}", "", "avras"))
            elif tag == "s":
                ex = extra if tool not in ("asan", "msan", "tsan", "thr") else "-fPIC"
                objs.append(self.cc(cc, f"{REPO}/{src}", " ".join(["-x assembler", *gas, ex]), "asm"))
        eflags = " ".join(["-O1", *[g for g in gcc if not g.startswith("-O")], *defines, extra, inc, f"-I{HERE}/exec", "-w"])
        for e in execs:
            if tool in ("be32", "be64") and e in ("kravatte", "xoofff"): continue
            if e == "xsnp" and "XKCP_has_Xoodoo\n" not in config: continue
            objs.append(self.cc(cc, f"{HERE}/exec/{EXECS[e]}", eflags))
        if tool == "avr":
            adir = f"{self.out}/avr/{spec}"
            os.makedirs(adir, exist_ok=True)
            self.lines += [f"build {adir}/avr_image.h {adir}/avr_mods.h: avr {' '.join(objs)} | {HERE}/exec/avr_image.py", f"  dir = {adir}"]
            cc, extra, _ = TOOLS["x86_64"]
            eflags = f"-O2 -w -I{HERE}/exec"
            objs = [self.cc(cc, f"{HERE}/exec/avr.c", f"{eflags} -I{adir}", needs=f"{adir}/avr_image.h")]
            libs = []
        if not program:
            objs.append(self.cc(cc, f"{HERE}/exec/exec_main.c", eflags))
        if tool in ("be32", "be64"):
            objs.append(self.cc(cc, f"{HERE}/exec/be/libc.c", eflags))
        exe = program or f"{self.out}/x/{spec}"
        self.lines += [f"build {exe}: link {' '.join(objs)}", f"  cc = {cc}", f"  flags = {extra} {ld} {link} {' '.join(libs)}"]
        self.defaults.append(exe)
        return exe

    def standalone(self, spec):
        """the programs of the Standalone directory and the KeccakSum utility"""
        name, _, tool = spec.partition("@")
        cc, extra, ld = TOOLS[tool or "x86_64"] if tool not in ("dbg", "clang") else TOOLS["x86_64"]
        exe, sa = f"{self.out}/x/{spec}", f"{REPO}/Standalone"
        C = {"saMore": ("MORE", ["Keccak-more-compact.c"], ""), "saReadable": ("READABLE", ["Keccak-readable-and-compact.c"], ""),
             "saReadableLE": ("READABLE", ["Keccak-readable-and-compact.c"], "-DLITTLE_ENDIAN"), "saTweet": ("TWEET", ["TweetableFIPS202.c"], ""), "saRust": ("RUST", [], "")}
        if name == "docModel":
            src = f"{REPO}/doc/Low level model/src"
            cxx = {"": "g++", "asan": "g++", "clang": "clang++", "msan": "clang++"}[tool]
            fl = {"": "-O3", "asan": "-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all", "clang": "-O2"}[tool]
            ln = f"{self.out}/doc-src"                     # ninja and blanks
            os.makedirs(self.out, exist_ok=True)
            if not os.path.islink(ln):
                os.symlink(src, ln)
            objs = [self.cc(cxx, f"{ln}/{f}", f"-std=c++17 -w {fl}") for f in sorted(os.listdir(src)) if f.endswith(".cpp") and f != "main.cpp"]
            objs.append(self.cc(cxx, f"{HERE}/exec/exec_doc.cpp", f"-std=c++17 -w {fl} -I{HERE}/exec -I{ln}"))
            objs.append(self.cc({"g++": "gcc", "clang++": "clang"}[cxx], f"{HERE}/exec/exec_main.c", f"-O1 -w {'-fsanitize=address' if tool == 'asan' else ''} -I{HERE}/exec"))
            self.lines += [f"build {exe}: link {' '.join(objs)}", f"  cc = {cxx}", f"  flags = {'-fsanitize=address,undefined' if tool == 'asan' else ''}"]
            self.defaults.append(exe)
            return exe
        if name in C:
            define, srcs, own = C[name]
            objs = [self.cc(cc, f"{sa}/CompactFIPS202/C/{s}", f"-O2 -w {own} {extra}") for s in srcs]
            for s in ("exec_sa.c", "exec_main.c"):
                objs.append(self.cc(cc, f"{HERE}/exec/{s}", f"-O1 -w -DSA_{define} {extra} -I{HERE}/exec"))
            if tool in ("be32", "be64"):
                objs.append(self.cc(cc, f"{HERE}/exec/be/libc.c", f"-O1 -w {extra}"))
            if define == "RUST":
                src = f"{self.out}/{spec.replace(chr(64), chr(95))}.rs"
                os.makedirs(self.out, exist_ok=True)
                open(src, "w").write(open(f"{HERE}/exec/rust_k12.rs").read().replace("@K12@", f"{sa}/KangarooTwelve/Rust/k12.rs"))
                lib = f"{self.out}/{spec.replace(chr(64), chr(95))}.a"
                how = "-C debug-assertions=yes -C overflow-checks=yes -C opt-level=1" if tool == "dbg" else "-O"
                self.lines += [f"build {lib}: rust {src} | {sa}/KangarooTwelve/Rust/k12.rs", f"  flags = {how}"]
                objs.append(lib)
                ld += " -lpthread -ldl -lm"
            self.lines += [f"build {exe}: link {' '.join(objs)}", f"  cc = {cc}", f"  flags = {extra} {ld}"]
        else:
            py = {"saPython": ("python3", "fips", f"{sa}/CompactFIPS202/Python", "CompactFIPS202"), "saNumpy": ("python3-vt", "fips", f"{sa}/CompactFIPS202/Python", "CompactFIPS202_numpy"),
                  "saSum": ("python3", "sacli", f"{sa}/CompactFIPS202/Python", "-")}.get(name) or ("python3", "ksum", f"{self.out}/prog/{spec}", "-")
            names = re.search(r"enum \{(.*?)M_COUNT", open(f"{HERE}/exec/ops.h").read(), re.S).group(1)
            names = re.findall(r"M_\w+", re.sub(r"/\*.*?\*/", "", names, flags=re.S)) + ["M_COUNT"]
            os.makedirs(f"{self.out}/x", exist_ok=True)
            with open(exe, "w") as f:
                f.write(f"#!/bin/sh\nexec {py[0]} -B {HERE}/exec/exec_py.py {py[1]} {py[2]} {py[3]} {','.join(f'{n}={i}' for i, n in enumerate(names))}\n")
            os.chmod(exe, 0o755)
            if py[1] == "ksum":
                self.executor(spec[5:], ["KeccakSum"], [], r"Xoodoo", f"{self.out}/prog/{spec}")
        if name in C:
            self.defaults.append(exe)
        return exe

    def program(self, exe, cc, srcs, flags, ld=""):
        objs = [self.cc(cc, s, flags) for s in srcs]
        out = f"{self.out}/{exe}"
        self.lines += [f"build {out}: link {' '.join(objs)}", f"  cc = {cc}", f"  flags = {flags} {ld}"]
        self.defaults.append(out)
        return out

    def run(self, quiet=True):
        open(f"{self.out}/build.ninja", "w").write("\n".join(self.lines) + "\ndefault " + " ".join(self.defaults) + "\n")
        r = subprocess.run(["ninja", "-C", self.out, "-k", "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
        return r.returncode


if __name__ == "__main__":
    b = Build(sys.argv[1])
    for s in sys.argv[2].split(","):
        b.executor(s, sys.argv[3].split(",") if sys.argv[3] else [], list(EXECS))
    sys.exit(b.run())
