"""C28: selections of services and implementations.  Selections are generated here, built from the build files' fragments, and run by the
driver on histories of every service they contain."""
import json, os, random, re, shutil, signal, struct, subprocess, sys, time
import xbuild

SERVICES = "KeccakSponge TurboSHAKE FIPS202 SP800-185 KeccakDuplex KeccakPRG KangarooTwelve Kravatte Xoofff Xoodyak".split()
KIND = r"(K1600x[248]|K1600|Xoodoox(?:4|8|16)|Xoodoo)-"
ELSEWHERE = re.compile("ARM|AVR8|Apple")        # not for this processor
WIDE = {"K1600": ["K1600x2", "K1600x4", "K1600x8"], "Xoodoo": ["Xoodoox4", "Xoodoox8", "Xoodoox16"]}


def offered(frag):
    """kind of implementation: the fragments that give one (they select a directory or an unrolling)"""
    low = {}
    for n in frag:
        m = re.match(KIND, n)
        if m and not ELSEWHERE.search(n):
            low.setdefault(m[1], []).append(n)
    parents = {p for names in low.values() for n in names for p in (frag[n].get("inherits") or "").split()}
    res = {}
    for k, names in low.items():
        res[k] = [n for n in names if n not in parents]
    return res


def systematic(r, low):
    """each service alone; each set of parallel implementations"""
    res = []
    for h in SERVICES:
        res.append(generate(r, low, [h]))
    for i in range(8):
        lo = []
        for p in ("K1600", "Xoodoo"):
            lo.append(r.choice(low[p]))
            lo += [r.choice(low[w]) for j, w in enumerate(WIDE[p]) if w in low and i >> j & 1]
        res.append({"services": ["SP800-185", "KangarooTwelve", "Kravatte", "Xoofff"], "implementations": lo, "tool": r.choice(["", "", "clang"])})
    return res


def generate(r, low, hs=None):
    hs = hs or r.sample(SERVICES, r.choice([1, 1, 2, 2, 3, 4, 6, 10]))
    prims = [p for p, need in (("K1600", any(h not in ("Xoofff", "Xoodyak") for h in hs)), ("Xoodoo", "Xoofff" in hs or "Xoodyak" in hs)) if need]
    if r.random() < .15:
        prims = ["K1600", "Xoodoo"]
    lo = []
    for p in prims:
        lo.append(r.choice(low[p]))
        lo += [r.choice(low[w]) for w in WIDE[p] if w in low and r.random() < .45]
    plain = all(re.search("ref|compact|plain", n) and "shld" not in n for n in lo)
    wide = any(re.search("x86-64|XOP|shld", n) or re.search("K1600-AVX(2|512)$", n) for n in lo)    # 64-bit assembly
    tool = r.choice(["i686", "i686", "asan", "clang", ""]) if plain else r.choice(["", "v3", "clang", "asan"] if wide else ["", "v3", "clang", "asan", "i686", "i686s"])
    return {"services": sorted(hs, key=SERVICES.index), "implementations": lo, "tool": tool}


def smaller(c):
    """simpler selections that are still complete"""
    for s in c["services"]:
        if len(c["services"]) > 1:
            yield dict(c, services=[x for x in c["services"] if x != s])
    for n in c["implementations"]:
        k = re.match(KIND, n)[1]
        if "x" in k or k == "K1600" and not set(c["services"]) - {"Xoofff", "Xoodyak"} or k == "Xoodoo" and not set(c["services"]) & {"Xoofff", "Xoodyak"}:
            rest = [x for x in c["implementations"] if x != n and (re.match(KIND, x)[1].startswith(k) is False or "x" in k)]
            if rest:
                yield dict(c, implementations=rest)
    if c["tool"]:
        yield dict(c, tool="")


def text(c):
    return f"{' '.join(c['services'])} on {' '.join(c['implementations'])}" + (f" ({c['tool']})" if c["tool"] else "")


def build(out, confs, driver=None):
    """the names of those built; the compiler's messages"""
    b = xbuild.Build(out)
    names = []
    for i, c in enumerate(confs):
        name = f"s{i}" + (f"@{c['tool']}" if c["tool"] else "")
        xbuild.MIX[f"s{i}"] = " ".join(c["implementations"])
        ex = ["snp", "keccak", "kravatte"] if any(n.startswith("K1600") for n in c["implementations"]) else []
        ex += ["xsnp", "xoodyak", "xoofff"] if any(n.startswith("Xoodoo") for n in c["implementations"]) else []
        b.executor(name, c["services"], ex)
        names.append(name)
    if driver:
        b.program("prop", "g++", [f"{xbuild.HERE}/drv/{f}.cpp" for f in ["main", "props"] + driver], "-O1 -std=c++17 -w", "-lrapidcheck")
    open(f"{out}/build.ninja", "w").write("\n".join(b.lines) + "\ndefault " + " ".join(b.defaults) + "\n")
    r = subprocess.run(["ninja", "-C", out, "-k", "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return [n if os.path.exists(f"{out}/x/{n}") else None for n in names], r.stdout


def errors(log):
    e = [l for l in log.splitlines() if re.search(r"error:|undefined reference|multiple definition|fatal", l)]
    return e[0].strip()[:300] if e else "the build fails"


def builds(out, c):
    d = f"{out}/one"
    shutil.rmtree(d, ignore_errors=True)
    names, log = build(d, [c])
    return names[0], log


def fails(out, prop, c, choices, prog):
    """how the case fails on the selection; None: it does not"""
    name, log = builds(out, c)
    if choices is None:
        return None if name else errors(log)
    if not name:
        return None
    open(f"{out}/one/case", "w").write(f"property {prop}\ntarget {name}\nchoices {choices}\n")
    r = subprocess.run([prog, "--prop", prop, "--dir", f"{out}/one/x", "--targets", name, "--replay", f"{out}/one/case"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode != 1:
        return None
    return r.stdout.strip().splitlines()[-1][:500]


def conf(prop, tier, seed, check):
    t0 = time.time()
    out = check.scratch()
    p = check.PLAN[prop]
    prog = out + "/prop"
    try:
        if tier == "replay":
            d = dict(l.split(None, 1) for l in open(seed).read().splitlines() if " " in l and l[0] != "#")
            c, ch = json.loads(d["selection"]), d.get("choices")
            build(out, [], p["drv"])
            f = fails(out, prop, c, ch, prog)
            print(f"{prop}: {text(c)}: {f}" if f else "the case passes")
            return 1 if f else 0
        r = random.Random(seed * 7919 + (tier != "quick"))
        count, per, limit = (48, 900, 80) if tier == "quick" else (768, 1500, 150)
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": p["rule"], "samples": [], "selections": 0, "operations": 0, "runs": 0, "runs_on_small_selections": 0,
               "unconfirmed": 0, "classes": {}, "services": {}, "implementations": {}, "tools": {}}
        distinct, bad = set(), None
        low = None
        for first in range(0, count, 48):
            if low is None:
                low = offered(xbuild.fragments())
                if any(k not in low for k in ("K1600", "Xoodoo")):
                    print("error: no implementations found in the build files")
                    return 3
            confs = (systematic(r, low) if first == 0 else []) + [generate(r, low) for _ in range(36 if first == 0 else 48)]
            if first == 0:      # every implementation at least once
                todo = [n for names in low.values() for n in names if not any(n in c["implementations"] for c in confs)]
                for n in todo:
                    k = re.match(KIND, n)[1]
                    p0 = k.split("x")[0] if k[0] == "K" else "Xoodoo"
                    lo = [n] if k == p0 else [low[p0][len(confs) % len(low[p0])], n]
                    confs.append({"services": ["KangarooTwelve", "Kravatte"] if p0 == "K1600" else ["Xoofff"], "implementations": lo, "tool": ""})
            d = f"{out}/b"
            shutil.rmtree(d, ignore_errors=True)
            names, log = build(d, confs, None if os.path.exists(prog) else p["drv"])
            if not os.path.exists(prog):
                if not os.path.exists(d + "/prop"):
                    print("error: the driver could not be built\n", log[-1500:])
                    return 3
                shutil.move(d + "/prop", prog)
            lost = [c for c, n in zip(confs, names) if not n]
            if len(lost) == len(confs):
                print("error: nothing builds\n", log[-1500:])
                return 3
            for c in lost:
                f = fails(out, prop, c, None, prog)
                if f:
                    bad = (c, None, f)
                    break
            if bad:
                break
            rdir = out + "/r"
            os.makedirs(rdir, exist_ok=True)
            W = check.WORKERS
            shares = [[n for n in names[w::W] if n] for w in range(W)]
            procs = [subprocess.Popen([prog, "--prop", prop, "--dir", d + "/x", "--targets", ",".join(s), "--seed", str(seed * 1000003 + 7919 * w + first + 1), "--cases", str(per),
                                       "--time", str(limit), "--out", f"{out}/{w}.json", "--replaydir", rdir], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True,
                                      env=dict(os.environ, XV_SCRATCH=out)) for w, s in enumerate(shares) if s]
            end = time.time() + limit + 180
            for q in procs:
                try:
                    q.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    os.killpg(q.pid, signal.SIGKILL)
                    q.wait()
            answers = 0
            for w in range(len(procs)):
                try:
                    j = json.load(open(f"{out}/{w}.json"))
                    raw = open(f"{out}/{w}.json.h", "rb").read()
                except (OSError, ValueError):
                    continue
                os.remove(f"{out}/{w}.json")
                answers += 1
                distinct.update(struct.unpack(f"<{len(raw) // 8}Q", raw))
                cov["evaluations"] += j["evals"]
                cov["operations"] += j["ops"]
                cov["unconfirmed"] += j["unconfirmed"]
                for t, v in j["targets"].items():
                    n = v["cases"] - v["unsupported"] if v["cases"] > v["unsupported"] else v["cases"]
                    cov["runs"] += v["cases"]
                    if len(confs[names.index(t)]["services"]) < 4:
                        cov["runs_on_small_selections"] += v["cases"]
                for k, v in j["labels"].items():
                    cov["classes"][k] = cov["classes"].get(k, 0) + v
                if "violation" in j and not bad:
                    v = j["violation"]
                    ch = re.search(r"^choices (.*)$", open(v["replay"]).read(), re.M)
                    bad = (confs[names.index(v["target"])], ch[1] if ch and "preceding calls" not in v["message"] else "", v["message"], v["replay"])
            if not answers:
                print("error: no worker finished")
                return 3
            cov["selections"] += sum(1 for n in names if n)
            for c in confs:
                for k, v in (("services", c["services"]), ("implementations", c["implementations"]), ("tools", [c["tool"] or "gcc"])):
                    for x in v:
                        cov[k][x] = cov[k].get(x, 0) + 1
            cov["samples"] += [text(c) for c in confs[:6 if first == 0 else 1]]
            if bad or time.time() - t0 > (240 if tier == "quick" else 3 * 3600):
                break
        cov["distinct_nontrivial"] = len(distinct)
        if bad:
            c, ch, msg = bad[:3]
            end = time.time() + 150
            if ch != "":
                again = True
                while again and time.time() < end:
                    again = False
                    for s in smaller(c):
                        f = fails(out, prop, s, ch, prog) if time.time() < end else None
                        if f:
                            c, msg, again = s, f, True
                            break
            key = f"{text(c)}|{msg[:60]}"
            known = check.known_findings().get((prop, key.replace(" ", "_")))
            if known:
                print(f"KNOWN-FINDING: property={prop} {known}")
                bad = None
        check.evidence(prop, tier, seed, cov, t0, 1 if bad else 0)
        if bad:
            os.makedirs(check.HERE + "/replays", exist_ok=True)
            path = f"{check.HERE}/replays/{prop}-{seed}-{os.getpid()}.replay"
            body = f"property {prop}\ndriver conf\nselection {json.dumps(c)}\n" + (f"choices {ch}\n" if ch else "") + f"# {text(c)}\n# {msg}\n"
            if ch == "":
                body += open(bad[3]).read()
            open(path, "w").write(body)
            print(f"{prop}: {text(c)}: {msg}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print(f"{prop}: held on {cov['selections']} selections, {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), {cov['runs']} executions, {time.time() - t0:.0f} s")
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)
