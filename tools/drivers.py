"""C27: very long inputs and outputs.  Cases are generated here, run by the programs built from exec/big_xkcp.c (one per
target) and compared with exec/big_ref.c."""
import hashlib, json, os, random, re, shutil, signal, subprocess, time
import conf, xbuild

G = 1 << 32
FAST = ["AVX512", "AVX2", "AVX512noAsm"]
ALL64 = ["AVX512", "AVX2", "generic64", "SSSE3", "generic64lc", "AVX512noAsm", "AVX2noAsm", "compact", "generic32"]
I686 = ["generic32@i686", "generic64@i686"]
# stand-ins for the permutations (exec/big_cheap.c)
CHEAP = " ".join("-Wl,--wrap=" + f for f in "KeccakP1600_Permute_24rounds KeccakP1600_Permute_12rounds KeccakP1600_Permute_Nrounds Xoodoo_Permute_6rounds Xoodoo_Permute_12rounds".split())
# seconds per 2^30 bytes of the reference; a target gets at most a few times as long
SPEED = {"turbo": 2, "turbo1": 2, "k12": 2.2, "k121": 2.2, "kravatte": 1.5, "xoofff": 3, "xoodyak": 7, "prg": 5}


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.tight = False

    def near(self, base):
        """a length next to a power of two, next to a block boundary next to it, or a little above"""
        r = self.r
        if self.tight:
            return base + r.choice([0, 1, r.randrange(40), r.randrange(200)])
        k = r.randrange(4)
        if k == 0:
            return base + r.randrange(0, 3)
        if k == 1:
            return base + r.choice([168, 136, 200, 48, 44, 24, 16, 8192, 192, 1600]) * r.randrange(0, 3) + r.randrange(-1, 2) * r.randrange(2) + 1
        if k == 2:
            return base + r.randrange(0, 5000)
        return base + r.randrange(0, 1 << 20)

    def small(self):
        r = self.r
        if self.tight:                # part of a block, so that the long one starts with something queued
            return r.choice([1, r.randrange(1, 40), r.randrange(1, 130)])
        return r.choice([0, 1, r.randrange(1, 48), r.randrange(1, 400), r.randrange(1, 20000)])

    def pre(self, ops, op, sfx=""):
        """operations before and after the long one"""
        n = 1 if self.tight else self.r.randrange(0, 3)
        return [f"{op}:{self.small()}{sfx}" for _ in range(n)] + ops + [f"{op}:{self.small()}{sfx}" for _ in range(self.r.randrange(0, 3))]

    def bits(self):
        return self.r.choice(["", "", f".{self.r.randrange(1, 8)}"])

    # each returns a case; `big` is the long length in bytes; `what` says what is long
    def sponge(self, what, big):
        r = self.r
        rate = r.choice([1344, 1088, 1152, 832, 576, 1600 - 256, 1408])
        if what == "in1":
            return f"sponge1 {rate},{1600 - rate},{r.choice([1, 6, 31])} A:{big} S:{r.randrange(1, 300)}"
        if what == "out1":
            return f"sponge1 {rate},{1600 - rate},{r.choice([1, 6, 31])} A:{self.small()} S:{big}"
        a = self.pre([f"A:{big}"], "A") if what == "in" else [f"A:{self.small()}"]
        s = self.pre([f"S:{big}"], "S") if what == "out" else [f"S:{r.randrange(1, 300)}"]
        return f"sponge {rate},{1600 - rate} " + " ".join(a + [f"L:{r.choice([1, 6, 31])}"] + s)

    def fips(self, what, big, k=None):
        r = self.r
        if what == "out":
            return f"fips {r.randrange(2) if k is None else k} A:{self.small()} S:{big}"
        k = r.randrange(6) if k is None else k
        return f"fips {k} A:{big} S:{[r.randrange(1, 300), r.randrange(1, 300), 28, 32, 48, 64][k]}"

    def hash(self, what, big):
        r = self.r
        rate, fix, d = r.choice([(1344, 0, 31), (1088, 0, 31), (1152, 28, 6), (1088, 32, 6), (832, 48, 6), (576, 64, 6)])
        if what == "in":
            return f"hash {rate},{1600 - rate},0,{d} " + " ".join([f"A:{self.small()}" for _ in range(1 if self.tight else r.randrange(3))] + [f"A:{big}"] + [f"A:{self.small()}" for _ in range(r.randrange(2))]
                                                               + [f"A:{r.randrange(300)}{self.bits()}"] + [f"F:{fix}"] + ([f"S:{r.randrange(1, 300)}"] if not fix else []))
        if what == "final":       # a fixed output length below 2^32 bits
            return f"hash 1344,256,0,31 A:{self.small()} F:{big}"
        return "hash 1344,256,0,31 " + " ".join([f"A:{self.small()}", "F:0"] + self.pre([f"S:{big}"], "S"))

    def turbo(self, what, big):
        r = self.r
        cap, d = r.choice([256, 512, 320]), r.randrange(1, 128)
        if what == "in1":
            return f"turbo1 {cap},{d} A:{big} S:{r.randrange(1, 300)}"
        if what == "out1":
            return f"turbo1 {cap},{d} A:{self.small()} S:{big}"
        a = self.pre([f"A:{big}"], "A") if what == "in" else [f"A:{self.small()}"]
        s = self.pre([f"S:{big}"], "S") if what == "out" else [f"S:{r.randrange(1, 300)}"]
        return f"turbo {cap} " + " ".join(a + [f"L:{d}"] + s)

    def sp(self, fn, what, big, sec=None, B=None):
        r = self.r
        sec = sec or r.choice([128, 256])
        one = what.endswith("1")
        what = what.rstrip("1")
        ops = []
        if fn == "csh":
            ops += [f"N:{r.randrange(30)}", f"C:{big if what == 'cust' else r.randrange(300)}"]
        elif fn == "kmac":
            ops += [f"K:{big if what == 'key' else r.randrange(300)}", f"C:{big if what == 'cust' else r.randrange(50)}"]
        else:
            ops += [f"C:{big if what == 'cust' else r.randrange(50)}"]
        a = [f"A:{big}"] if what == "in" else [f"A:{self.small()}"]
        if not one or fn == "tup":
            a = self.pre(a, "A") if what == "in" else a
            if fn == "csh" and self.r.randrange(2) and not (what == "in" and a[-1] == f"A:{big}"):
                a[-1] += self.bits()
        if what == "out":
            f = [f"F:{big}"] if one else ["F:0"] + self.pre([f"S:{big}"], "S")
        else:
            f = [f"F:{r.randrange(1, 300)}"] if one or r.randrange(2) else ["F:0", f"S:{r.randrange(1, 300)}"]
        par = f",{B or r.choice([8192, 1024, 65536, 131072, 4096])}" if fn == "par" else ""
        return f"{fn}{1 if one else ''} {sec}{par} " + " ".join(ops + a + f)

    def k12(self, what, big):
        r = self.r
        sec = r.choice([128, 256])
        one = what.endswith("1")
        what = what.rstrip("1")
        c = [f"C:{big if what == 'cust' else r.choice([0, 10, 9000])}"]
        a = [f"A:{big}"] if what == "in" else [f"A:{self.small()}"]
        if one:
            return f"k121 {sec} " + " ".join(c + a + [f"F:{big if what == 'out' else r.randrange(1, 300)}"])
        a = self.pre(a, "A")
        return f"k12 {sec} " + " ".join(c + a + (["F:0"] + self.pre([f"S:{big}"], "S") if what == "out" else [f"F:{r.randrange(1, 300)}"]))

    def prg(self, what, big):
        r = self.r
        ops = [f"A:{r.randrange(1, 400)}"]
        ops += [f"A:{big}", f"S:{r.randrange(1, 400)}"] if what == "in" else [f"S:{r.randrange(1, 200)}", f"S:{big}", f"S:{r.randrange(1, 400)}"]
        return f"prg {r.choice([256, 254, 510, 576])} " + " ".join(ops + r.choice([[], ["A:7", "S:9"]]))

    def ff(self, fam, what, big):
        r = self.r
        if what == "in":
            a = [f"A:{self.small()}/0" for _ in range(1 if self.tight else r.randrange(2))] + [f"A:{big}/0"] + [f"A:{self.small()}/0" for _ in range(r.randrange(2))]
            return f"{fam} 0 " + " ".join(a + [f"A:{r.randrange(300)}{self.bits()}/2", f"S:{r.randrange(1, 300)}/2"])
        if what == "out":
            return f"{fam} 0 A:{r.randrange(300)}/2 " + " ".join([f"S:{self.small()}/0" for _ in range(1 if self.tight else r.randrange(2))] + [f"S:{big}/0", f"S:{r.randrange(1, 300)}/2"])
        if what == "one":
            return f"{fam} 5 A:{big}{self.bits()}/3 S:{r.randrange(1, 300)}/2"
        mode = {"sane": 1, "sanse": 2, "wbc": 3, "wbcae": 4}[what.split("-")[0]]
        ad = what.endswith("-ad")
        back = 1 if ad or big < 3 << 30 or r.randrange(4) == 0 else 0       # a receiver takes part in all or in none
        short = lambda: [f"D:{r.randrange(40)}", f"W:{r.randrange(1, 400)}/{back}"]
        big = f"{big}{self.bits()}"
        w = [f"D:{big}", f"W:{r.randrange(1, 400)}/{back}"] if ad else [f"D:{r.randrange(40)}", f"W:{big}/{back}"]
        return f"{fam} {mode} " + " ".join((short() if mode < 3 and r.randrange(2) else []) + w + (short() if mode < 3 else []))

    def xdk(self, what, big):
        r = self.r
        keyed = 1 if what in "EDK" or r.randrange(2) else 0
        o = ["A:10"] if keyed else [f"A:{self.small()}"]
        o += [f"{what}:{big}"]
        return f"xoodyak {keyed} " + " ".join(o + (["E:30"] if keyed else []) + [f"S:{r.randrange(1, 100)}"])


def ops_of(case):
    return [(t[0], int(re.match(r"\d+", t[2:]).group())) for t in case.split()[2:]]


def cost(case, cheap=False):
    fn = case.split()[0]
    per = SPEED.get(fn, 5)
    if fn == "xoodyak" and case.split()[1] == "0":
        per = 14
    if cheap:
        per = {"kravatte": 0.4, "xoofff": 0.7, "prg": 4, "xoodyak": 1.4}.get(fn, 0.5)
    n = sum(x for o, x in ops_of(case) if o not in "L")
    if fn in ("kravatte", "xoofff"):
        m = case.split()[1]
        n += sum(x * {"1": 1, "2": 1, "3": 5, "4": 5}.get(m, 0) for o, x in ops_of(case) if o == "W")
    return 0.05 + per * n / (1 << 30)


def memory(case):
    fn, m = case.split()[:2]
    big = max([x for o, x in ops_of(case) if o in "SFWEDK" and not (fn == "kmac" and o == "K") and not (o == "D" and fn != "xoodyak")] + [0])
    if fn in ("kravatte", "xoofff") and any("W:" in t for t in case.split()):
        big *= 3 if m == "4" else 2 if any(t.startswith("W:") and t.endswith("/1") for t in case.split()) else 1
    return big + (8 << 20)


SHAPES = ([("sponge", w) for w in ("in", "out", "in1", "out1")] + [("fips", "in", k) for k in range(6)] + [("fips", "out", k) for k in range(2)]
          + [("hash", "in"), ("hash", "out")] + [("turbo", w) for w in ("in", "out", "in1", "out1")]
          + [("csh", w) for w in ("in", "out", "cust", "in1", "out1", "cust1")] + [("kmac", w) for w in ("in", "out", "key", "cust", "in1", "out1", "key1", "cust1")]
          + [("tup", w) for w in ("in", "out", "cust", "in1", "out1", "cust1")] + [("par", w) for w in ("in", "out", "cust", "in1", "out1", "cust1")]
          + [("k12", w) for w in ("in", "out", "cust", "in1", "out1", "cust1")] + [("prg", w) for w in ("in", "out")]
          + [(f, w) for f in ("kravatte", "xoofff") for w in ("in", "out", "one", "sane", "sanse", "sane-ad", "sanse-ad", "wbc", "wbcae", "wbc-ad", "wbcae-ad")]
          + [("xoodyak", w) for w in "AEDSK"])
# what runs with the true permutations, with lengths beyond 2^32 bytes
TRUE = [("sponge", "in"), ("sponge", "out"), ("sponge", "in1"), ("turbo", "in"), ("k12", "in"), ("k12", "in1"), ("par", "in"), ("par", "in1"), ("kravatte", "in"), ("kravatte", "out"), ("kravatte", "sane"),
        ("kravatte", "wbc"), ("xoofff", "in"), ("xoofff", "out"), ("xoofff", "sanse"), ("xoodyak", "A"), ("xoodyak", "E"), ("xoodyak", "D"), ("xoodyak", "S")]


def plan(tier, seed):
    """list of (case, [targets])"""
    rng = random.Random(seed * 7919 + 13)
    g = Gen(rng)
    res = []
    quick = tier == "quick"
    rot = {"n": rng.randrange(100)}

    def pick(group, k=1):
        rot["n"] += 1
        return [group[(rot["n"] + i) % len(group)] for i in range(k)]

    def add(case, targets):
        res.append((case, targets))

    def make(w, big):
        fn = w[0]
        if fn == "prg":
            big = min(big, G - 1 - rng.randrange(0, 300))
        if fn in ("csh", "kmac", "tup", "par"):
            return g.sp(fn, w[1], big)
        if fn in ("kravatte", "xoofff"):
            return g.ff(fn, w[1], big)
        if fn == "xoodyak":
            return g.xdk(w[1], big)
        return getattr(g, fn)(*([w[1], big] + list(w[2:])))

    def split(case, most):
        """the same with the long operations cut into pieces of at most `most` bytes"""
        res = case.split()[:2]
        for t in case.split()[2:]:
            n = int(re.match(r"\d+", t[2:]).group())
            rest = t[2 + len(str(n)):]
            while n > most:
                k = most - rng.randrange(0, 1000)
                res.append(f"{t[:2]}{k}" + ("/0" if "/" in rest else ""))
                n -= k
            res.append(f"{t[:2]}{n}{rest}")
        return " ".join(res)
    # short lengths, the same shapes: they tie the reference to the library on every target
    for w in SHAPES:
        for _ in range(2 if quick else 10):
            add(make(w, g.small() + 1), pick(ALL64, 3) + pick(I686) if quick else ALL64 + I686)
            add(make(w, g.small() + 1), ["cheap", "cheap@i686"])
    # lengths beyond 2^32 bytes and, in the thorough tier, around the other limits; every function
    for rep in range(1 if quick else 4):
        for w in SHAPES:
            for base in [G] if quick else [1 << 28, 1 << 29, 1 << 31, G, G + (1 << 31)]:
                add(make(w, g.near(base)), ["cheap"])
    # a long piece, hardly longer than what a narrower type holds, right after part of a block
    g.tight = True
    for rep in range(1 if quick else 6):
        for w in SHAPES:
            if w[1] in ("in", "out") and w[0] not in ("fips", "prg"):
                if w[0] in ("hash", "csh", "kmac", "tup", "par", "kravatte", "xoofff"):      # lengths in bits
                    for _ in range(3):
                        add(make(w, g.near(1 << 29)), ["cheap"])
                add(make(w, g.near(G)), ["cheap"])
    g.tight = False
    # 32-bit: pieces below 2^32 bits (functions with lengths in bits) or above 2^31 bytes, adding up to more than 2^32 bits or bytes
    def narrow(w, t, base):
        byte = w[0] in ("sponge", "fips", "turbo", "k12", "xoodyak", "prg")
        stream = w[1] in ("in", "out", "A") and w[0] not in ("fips", "prg")
        if byte:
            one = base if base < G else G // 2
            c = make(w, g.near(one if w[1] in ("in", "in1", "cust", "cust1", "A") else 1 << 30))
            if stream and base >= G:
                c = c.replace(f":{max(x for _, x in ops_of(c))}", f":{g.near(one)} {w[1][0].upper().replace('I', 'A').replace('O', 'S')}:{g.near(1 << 30)} {w[1][0].upper().replace('I', 'A').replace('O', 'S')}:{g.near(1 << 30)} {w[1][0].upper().replace('I', 'A').replace('O', 'S')}:{g.near(1 << 29)}", 1) if w[1] != "out" else split(make(w, g.near(G)), 1 << 30)
            add(c, [t])
        elif stream and not (w[0] == "tup"):
            add(split(make(w, g.near(base)), (1 << 28) + (1 << 27)), [t])
        elif w[0] in ("kravatte", "xoofff"):
            n = (1 << 28) + rng.randrange(0, 5000)
            add(make(w, n), [t])
        else:
            add(make(w, (1 << 29) - 1 - rng.randrange(0, 5000)), [t])
    for rep in range(1 if quick else 3):
        for w in SHAPES:
            narrow(w, "cheap@i686", 1 << 29)
            if not quick or w in (("par", "in"), ("k12", "in"), ("turbo", "in"), ("kravatte", "in"), ("xoodyak", "A"), ("sponge", "in")):
                narrow(w, "cheap@i686", G)
        for sec in (128, 256):
            add(split(f"par {sec},{rng.choice([8192, 65536, 1024])} C:3 A:{g.near(1 << 29)} A:{rng.randrange(1, 9000)} F:32", 1 << 28), pick(I686))
            add(split(f"par {sec},{rng.choice([1 << 29, 1 << 30])} C:3 A:{g.near(1 << 29)} A:{rng.randrange(1, 9000)} F:32", 1 << 28), ["cheap@i686"])
    # the true permutations with their fast paths
    some = TRUE
    if quick:
        some = [w for w in TRUE if w[0] in ("turbo", "kravatte", "xoofff")] + [("sponge", "in")]
        some += [rng.choice([("k12", "in"), ("k12", "in1")]), rng.choice([("par", "in"), ("par", "in1")]), ("xoodyak", rng.choice("AEDS"))]
    for rep in range(1 if quick else 3):
        for w in some:
            fast = w[0] in ("turbo", "k12", "par", "kravatte", "xoofff")
            add(make(w, g.near(G)), (["AVX512", "AVX2", "generic64", "SSSE3"] if w == ("sponge", "in") else ["AVX512", pick(["AVX2", "AVX512noAsm", "AVX2", "SSSE3", "generic64"])[0]] if fast else pick(FAST + ["generic64"])) if quick
                else ["AVX512", "AVX2", "generic64", "SSSE3", "generic64lc", "AVX512noAsm", "AVX2noAsm"])
        for w in TRUE + [("hash", "in"), ("csh", "in"), ("kmac", "in"), ("tup", "in")]:
            add(make(w, g.near(rng.choice([1 << 28, 1 << 29]))), pick(ALL64))
        add(make(("hash", "final"), (1 << 29) - 1 - rng.randrange(0, 1000)), ["cheap"])
    return res


def available():
    for l in open("/proc/meminfo"):
        if l.startswith("MemAvailable:"):
            return int(l.split()[1]) << 10
    return 8 << 30


class Pool:
    """runs commands, at most 8 at a time and within a memory budget"""
    def __init__(self, slots=None, mem=None):
        self.slots = slots or max(2, min(8, os.cpu_count() or 8))
        self.mem = mem or int(0.7 * available())

    def run(self, jobs, done, deadline):
        """jobs: (key, argv, cost, memory); done(key, output or None, seconds) -> True to stop"""
        todo = sorted(jobs, key=lambda j: -j[2])
        live = {}
        stop = False
        try:
            while todo or live:
                used = sum(j[3] for j, _, _ in live.values())
                i = 0
                while i < len(todo) and len(live) < self.slots:
                    if used + todo[i][3] <= self.mem or not live:
                        j = todo.pop(i)
                        p = subprocess.Popen(j[1], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
                        live[p.pid] = (j, p, time.time())
                        used += j[3]
                    else:
                        i += 1
                time.sleep(0.01)
                now = time.time()
                for pid in list(live):
                    j, p, t = live[pid]
                    if p.poll() is not None:
                        del live[pid]
                        out = p.stdout.read()
                        p.stdout.close()
                        if p.returncode != 0:
                            out = None
                        if done(j[0], out, now - t):
                            return
                    elif now - t > 60 + 10 * j[2]:
                        os.killpg(pid, signal.SIGKILL)
                        p.wait()
                        p.stdout.close()
                        del live[pid]
                        if done(j[0], "does not return\n", now - t):
                            return
                    elif now > deadline:
                        return
        finally:
            for j, p, t in live.values():
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                p.stdout.close()


def build(out, targets):
    b = xbuild.Build(out)
    b.program("ref", "gcc", [f"{xbuild.HERE}/exec/big_ref.c"], "-O3 -w")
    for t in targets:
        try:
            if t.startswith("cheap"):
                b.executor(t.replace("cheap", "compact"), ["All"], ["big", "bigx", "cheap"], None, f"{out}/big/{t}", CHEAP)
            else:
                b.executor(t, ["All"], ["big", "bigx"], None, f"{out}/big/{t}")
        except KeyError as e:
            print(f"note: {t}: no fragment {e} in this tree")
    b.run()
    return [t for t in targets if os.path.exists(f"{out}/big/{t}")]


def ref(out, case, cheap):
    return [out + "/ref", case] + (["cheap"] if cheap else [])


def one(out, case, target, limit):
    """(expected, got) of one case"""
    r = subprocess.run(ref(out, case, target.startswith("cheap")), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode:
        return None, None
    try:
        x = subprocess.run([f"{out}/big/{target}", case], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return r.stdout, "does not return\n"
    return r.stdout, x.stdout if x.returncode == 0 else None


def shrink(out, case, target, end):
    """drops operations and shortens lengths while the outputs still differ"""
    ch = target.startswith("cheap")
    price = lambda c: cost(c, ch)

    def bad(c):
        if time.time() + 4 * price(c) > end:
            return False
        e, g = one(out, c, target, min(20 + 12 * price(c), max(10, end - time.time())))
        if e is not None and g is not None and e != g:
            seen[c] = e, g
            return True
        return False
    best, again, seen = case, True, {}
    while again and time.time() < end:
        again = False
        head, ops = best.split()[:2], best.split()[2:]
        cand = []
        for i, o in enumerate(ops):
            n = int(re.match(r"\d+", o[2:]).group())
            rest = o[2 + len(str(n)):]
            if o[0] == "L" or n == 0 or head[0] in ("fips", "hash") and o[0] == "F":
                continue
            for m in (0, 1, n & (n - 1) and 1 << (n.bit_length() - 1), 1 << 29, 1 << 31, 1 << 32):
                if (o[0] in "FS") <= m < n:
                    cand.append((price(" ".join(head + ops[:i] + [f"{o[:2]}{m}{rest}"] + ops[i + 1:])), head + ops[:i] + [f"{o[:2]}{m}{rest}"] + ops[i + 1:]))
        for _, c in sorted(cand, key=lambda x: x[0]):
            c = " ".join(c)
            if price(c) < price(best) or len(c) < len(best):
                if bad(c):
                    best, again = c, True
                    break
    return best, seen.get(best, (None, None))


def first_difference(e, g):
    for a, b in zip(e.splitlines(), g.splitlines()):
        if a != b:
            return f"expected '{a}', got '{b}'"
    return "outputs are missing"


def big(prop, tier, seed, check):
    t0 = time.time()
    out = check.scratch()
    try:
        if tier == "replay":
            d = dict(l.split(None, 1) for l in open(seed).read().splitlines() if " " in l and l[0] != "#")
            build(out, [d["target"]])
            e, g = one(out, d["case"], d["target"], 600)
            if e != g:
                print(f"{prop} on {d['target']}: {d['case']}: {first_difference(e, g or '')}")
                return 1
            print("the case passes")
            return 0
        cases = plan(tier, seed)
        targets = sorted({t for _, ts in cases for t in ts})
        built = build(out, targets)
        missing = [t for t in targets if t not in built]
        if not os.path.exists(out + "/ref") or len(missing) > len(targets) / 2:
            print("error: not built:", " ".join(missing))
            return 3
        if missing:
            print("note: not built:", " ".join(missing))
        tb = time.time() - t0
        deadline = t0 + (480 if tier == "quick" else 4 * 3600)
        jobs, exp, got, lost, state = [], {}, {}, [], {"bad": None}
        for i, (c, ts) in enumerate(cases):
            ch = ts[0].startswith("cheap")
            jobs.append(((i, None), ref(out, c, ch), cost(c, ch), memory(c)))
            for t in ts:
                if t in built:
                    slow = (8 if ch else 4) if "@" in t else 2 if t in ("compact", "generic32", "cheap") else 1
                    jobs.append(((i, t), [f"{out}/big/{t}", c], cost(c, ch) * slow, memory(c)))

        def done(key, text, sec):
            i, t = key
            if text is None:
                lost.append(key)
                return False
            if t is None:
                exp[i] = text
            else:
                got[key] = text
            for k in [k for k in got if k[0] == i]:
                if i in exp and got[k] != exp[i]:
                    # confirm it alone
                    e, g = one(out, cases[i][0], k[1], 60 + 10 * cost(cases[i][0], k[1].startswith("cheap")))
                    if e is not None and g is not None and e != g:
                        state["bad"] = (i, k[1])
                        return True
                    lost.append(k)
                    got.pop(k)
            return False
        pool = Pool()
        pool.run(jobs, done, deadline)
        again = [j for j in jobs if j[0] in lost]
        if again and not state["bad"]:
            lost.clear()
            Pool(2).run(again, done, deadline)
        compared = [k for k in got if k[0] in exp]
        n = lambda base: sum(1 for k in compared if any(x >= base for _, x in ops_of(cases[k[0]][0])))
        per = {}
        for k in compared:
            per[k[1]] = per.get(k[1], 0) + 1
        nontrivial = {(cases[k[0]][0]) for k in compared if max(x for _, x in ops_of(cases[k[0]][0])) >= 1 << 28 - 3}
        classes = {}
        for k in compared:
            f = cases[k[0]][0].split()[0]
            classes[f] = classes.get(f, 0) + 1
        cov = {"evaluations": len(compared), "distinct_nontrivial": len({cases[k[0]][0] for k in compared if max(x for _, x in ops_of(cases[k[0]][0])) >= 1 << 28}), "rule": check.PLAN[prop]["rule"],
               "samples": [{"case": cases[k[0]][0], "target": k[1], "outputs": got[k].splitlines()[:4]} for k in compared if cost(cases[k[0]][0]) > 1][:12],
               "at_least_2^28_bytes": n(1 << 28), "at_least_2^31_bytes": n(1 << 31), "at_least_2^32_bytes": n(G), "per_target": per, "classes": classes,
               "lost": len(lost), "planned": sum(1 for j in jobs if j[0][1]), "build_s": round(tb, 1)}
        v = state["bad"]
        if v:
            print(f"found: {v[1]}: {cases[v[0]][0]}", flush=True)
            case, (e, g) = shrink(out, cases[v[0]][0], v[1], min(time.time() + 120, t0 + 750) if tier == "quick" else time.time() + 900)
            if e is None:
                e, g = exp.get(v[0], ""), got.get(v, "")
            known = check.known_findings().get((prop, f"{v[1]}|{case[:60]}"))
            if known:
                print(f"KNOWN-FINDING: property={prop} {known}")
                v = None
        check.evidence(prop, tier, seed, cov, t0, 1 if v else 0)
        if v:
            os.makedirs(check.HERE + "/replays", exist_ok=True)
            path = f"{check.HERE}/replays/{prop}-{hashlib.sha1((case + v[1]).encode()).hexdigest()[:10]}.replay"
            open(path, "w").write(f"property {prop}\ntarget {v[1]}\ncase {case}\n# {first_difference(e or '', g or '')}\n# replay: python3 check.py replay {path}\n")
            print(f"{prop} on {v[1]}: {case}: {first_difference(e or '', g or '')}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if len(compared) < 0.5 * cov["planned"]:
            print(f"error: only {len(compared)} of {cov['planned']} cases could be run")
            return 3
        print(f"{prop}: held on {len(compared)} of {cov['planned']} comparisons ({cov['distinct_nontrivial']} distinct with at least 2^28 bytes, {cov['at_least_2^32_bytes']} with 2^32), lost {len(lost)}, {time.time() - t0:.0f} s")
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


DRIVERS = {"big": big, "conf": conf.conf}
