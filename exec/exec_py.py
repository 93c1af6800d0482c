"""Executor for what is run from Python: exec_py.py fips DIR MODULE | sacli DIR | ksum PROGRAM
(protocol of exec_main.c; the numbers are those of ops.h, given on the command line by xbuild.py)"""
import contextlib, importlib, io, os, runpy, shutil, struct, subprocess, sys, tempfile
sys.dont_write_bytecode = True
kind, where, module, consts = sys.argv[1:5]
K = {k: int(v) for k, v in (x.split("=") for x in consts.split(","))}
inp, outp = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
FN = ["SHAKE128", "SHAKE256", "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512"]
mod = None


def load():
    global mod
    if mod is None:
        sys.path.insert(0, where)
        mod = importlib.import_module(module)
    return mod


def files(ins):
    for k in (1, 2):
        with open(f"f{k}", "wb") as f:
            f.write(ins[k])


def run(m, ii, ins, sizes):
    if m == K["M_SAFIPS"]:
        f = getattr(load(), FN[ii[0]])
        return 0, f(ins[0], sizes[0]) if ii[0] < 2 else f(ins[0])
    if m == K["M_SAKECCAK"]:
        return 0, load().Keccak(ii[0], 1600 - ii[0], ins[0], ii[1], sizes[0])
    args = ins[0].split(b"\n") if ins[0] else []
    files(ins)
    if m == K["M_SACLI"]:
        text, old = io.StringIO(), sys.argv
        sys.argv = ["KeccakSum.py"] + [a.decode("latin-1") for a in args]
        if where not in sys.path:
            sys.path.insert(0, where)
        try:
            with contextlib.redirect_stdout(text):
                runpy.run_path(where + "/KeccakSum.py", run_name="__main__")
        finally:
            sys.argv = old
        out, rc = text.getvalue().encode("latin-1"), 0
    else:
        r = subprocess.run([where] + args, input=ins[3], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        out, rc = r.stdout, r.returncode & 255
    return len(out) << 8 | rc, out


def main():
    caps = bytearray(K["M_COUNT"])
    for m in {"fips": ["M_SAFIPS", "M_SAKECCAK"], "sacli": ["M_SACLI"], "ksum": ["M_KSUM"]}[kind]:
        caps[K[m]] = 1
    outp.write(struct.pack("<II", 0x584B4350, K["M_COUNT"]) + caps)
    outp.flush()
    tmp = tempfile.mkdtemp(prefix="xvpy-", dir=os.environ.get("XV_SCRATCH"))
    os.chdir(tmp)
    try:
        while True:
            h = inp.read(4)
            if len(h) < 4:
                break
            b = inp.read(struct.unpack("<I", h)[0])
            p, ans = 0, b""
            while p < len(b):
                op, slots, flags, counts = struct.unpack_from("<IIII", b, p)
                p += 16
                ni, nb, no = counts & 255, counts >> 8 & 255, counts >> 16 & 255
                ii = struct.unpack_from(f"<{ni}Q", b, p)
                p += 8 * ni
                ins, sizes = [], []
                for _ in range(nb):
                    n, = struct.unpack_from("<I", b, p)
                    ins.append(b[p + 4:p + 4 + n])
                    p += 4 + n
                for _ in range(no):
                    sizes.append(struct.unpack_from("<I", b, p)[0])
                    p += 4
                ret, out = run(op // 64, ii, ins, sizes)
                if len(out) != sizes[0] and op // 64 in (K["M_SAFIPS"], K["M_SAKECCAK"]):
                    ret = 1      # a digest of another length
                ans += struct.pack("<Bq", 0, ret) + bytes(out[:sizes[0]]).ljust(sizes[0], b"\xAA")
            outp.write(struct.pack("<I", len(ans)) + ans)
            outp.flush()
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)


main()
