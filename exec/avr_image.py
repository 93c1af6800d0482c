"""avr_image.py OUTDIR OBJECT...: links objects for AVR8; writes the bytes and the executor modules for avr.c"""
import os, struct, subprocess, sys
out, BASE, RAM = sys.argv[1], 0xc8, 0x0240
NAMES = "__udivmodhi4 __udivdi3 __umoddi3 __udivmodsi4 memcpy memmove memset memcmp strlen __mulhi3 __mulsi3 __muldi3 __mulqi3 __udivmodqi4 xv_inst".split()
def sh(*c, **k):
    return subprocess.run(c, check=True, stdout=subprocess.PIPE, text=True, **k).stdout
rt = ".text\n" + "".join(f".global {n}\n{n}:\n.word {0xF808 | k >> 3 << 4 | k & 7}\nret\n" for k, n in enumerate(NAMES))
sh("avr-as", "-mmcu=atmega1280", "-o", f"{out}/rt.o", input=rt)
sh("avr-ld", "-mavr51", f"-Ttext={BASE:#x}", f"-Tdata={0x800000 + RAM:#x}", "-e", "0", "--defsym", "__do_copy_data=0", "--defsym", "__do_clear_bss=0",
   "-o", f"{out}/image.elf", *sys.argv[2:], f"{out}/rt.o")
sections = {l.split()[1]: [int(x, 16) for x in l.split()[2:4]] for l in sh("avr-objdump", "-h", f"{out}/image.elf").splitlines() if l.strip()[:1].isdigit()}
def get(name):
    if name not in sections:
        return b""
    sh("avr-objcopy", "-O", "binary", "-j", name, f"{out}/image.elf", f"{out}/s.bin")
    return open(f"{out}/s.bin", "rb").read()
text, data = get(".text"), get(".data")
if set(sections) & {".rodata"}:
    sys.exit("constants outside .data")
bss = sections.get(".bss", [0])[0]
assert len(text) < 0x20000 - BASE and (".bss" not in sections or sections[".bss"][1] == 0x800000 + RAM + len(data))
with open(f"{out}/avr_image.h", "w") as f:
    f.write(f"#define AVR_BASE {BASE:#x}\n#define AVR_RAM {RAM:#x}\n#define AVR_BSS {bss}\n#define AVR_TEXT " + ",".join(map(str, text)) + "\n#define AVR_DATA " + "".join(f"{b}," for b in data) + "\n")
    f.write("#define AVR_BITS(m) ((m) == M_TUPLE128 || (m) == M_TUPLE256 || (m) == M_KRAWBC || (m) == M_XFFWBC)\n")
with open(f"{out}/avr_mods.h", "w") as f:
    for line in sh("avr-nm", f"{out}/image.elf").splitlines():
        w = line.split()
        if len(w) == 3 and w[2].startswith("xv_mod_"):
            a = int(w[0], 16) - 0x800000 - RAM
            module, fn, size, align = struct.unpack("<4H", data[a:a + 8])
            f.write(f"MOD({w[2]}, {module}, 0x{fn:04x}, {size})\n")
