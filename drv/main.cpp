// Runs one property: rapidcheck generates choice sequences, the property's decoder turns them into operation histories with the
// outcome the reference model expects, and every executor (XKCP target) must answer exactly that.
#include <rapidcheck.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include "core.hpp"

static std::vector<Executor> ex; static std::vector<unsigned> every;
static const Prop *prop; static Case *cur;
static unsigned long evals, nontrivial, unconfirmed, shrinkEvals; static std::unordered_set<uint64_t> distinct; static std::map<std::string, unsigned long> labels; static std::vector<std::string> samples;
static double deadline, shrinkDeadline; static bool shrinking; static size_t failIdx; static std::string failMsg; static std::vector<uint32_t> failChoices; static bool sessionFail; static std::vector<std::shared_ptr<Bytes>> failLog;
static std::string replayDir = "."; static unsigned long opsRun;
static unsigned long elsewhere, variances;      // cases in which something other than the property is broken

static std::string runOne(Executor &e, const Case &c, const std::shared_ptr<Bytes> &m, bool *uns);
// a wrong result is no matter of memory safety, unless it depends on what the memory held before the call
static std::string depends(Executor &e, const Case &c, const Bytes &r)
{
    std::string s; Bytes q; if (variances++ > 100) return s;
    for (int x : { 0x3C, 0xD1 }) {
        auto m = std::make_shared<Bytes>(serialize(c, x)); size_t p = 0;
        e.stop(); if (!e.send(m) || !e.recv(q) || q.size() != r.size()) { e.stop(); return s; }
        for (size_t k = 0; k < c.ops.size() && s.empty(); k++) {
            const Op &o = c.ops[k]; if (memcmp(&r[p], &q[p], 9)) s = "returns another value"; p += 9;
            for (size_t j = 0; j < o.out.size() && s.empty(); j++) { for (size_t b = 0; b < o.out[j].size && s.empty(); b++) if (r[p + b] != q[p + b] && !(r[p + b] == o.fill && q[p + b] == (uint8_t)(o.fill ^ x))) s = "output " + std::to_string(j) + " differs at byte " + std::to_string(b); p += o.out[j].size; }
            if (s.size()) s = "op " + std::to_string(k) + " " + opText(o) + ": " + s + " when the memory held other data before";
        }
        if (s.size()) break;
    }
    e.stop();
    return s;
}
static std::string verdict(Executor &e, const Case &c, const Bytes &r, bool *u)
{
    if (!c.safety) return judge(c, r, u);
    std::string s = judge(c, r, u, true); if (s.size()) return s;
    bool v = false; if (judge(c, r, &v).size() && e.name.find("san") == std::string::npos) { elsewhere++; return depends(e, c, r); }
    return s;
}

// reads the reply to one case (one per thread if it has several) and compares it; "" = fine, "\1" = nothing came
static std::string answer(Executor &e, const Case &c, bool *uns)
{
    Bytes r; std::string s;
    if (c.lanes.empty()) return e.recv(r) ? verdict(e, c, r, uns) : "\1";
    for (size_t j = 0; j < c.lanes.size(); j++) { bool u = false; if (!e.recv(r)) return "\1"; std::string t = judge(c.lanes[j], r, &u); *uns |= u; if (s.empty() && t.size()) s = "thread " + std::to_string(j) + " of " + std::to_string(c.lanes.size()) + ": " + t; }
    return s;
}
static std::string runOne(Executor &e, const Case &c, const std::shared_ptr<Bytes> &m, bool *uns)
{
    *uns = false; std::string s;
    if (!e.send(m) || (s = answer(e, c, uns)) == "\1") { std::string w = e.err == "timeout" ? "no answer within " + std::to_string((int)e.cap) + " s" : e.reap(); e.stop(); return "the call did not return: " + w; }
    return s;
}
// fresh executor, only this case (threads may meet differently each time: several attempts)
static std::string fresh(Executor &e, const Case &c, const std::shared_ptr<Bytes> &m)
{
    std::string s; bool u;
    for (int t = 0; t < (c.lanes.size() ? 30 : 1) && s.empty(); t++) { e.stop(); for (int q = 0; q < (c.lanes.size() ? 10 : 1) && s.empty(); q++) s = runOne(e, c, m, &u); e.stop(); }
    if (s.empty()) return s;
    if (c.safety) { if (s.find("no answer") == std::string::npos) return s; elsewhere++; return "\2"; }
    for (auto &b : c.base) { Case w = b; if (c.lanes.size()) { w.ops = b.ops; w.lanes = { b }; } e.stop(); std::string t = runOne(e, w, std::make_shared<Bytes>(serialize(w)), &u); e.stop(); if (t.size()) { elsewhere++; return "\2"; } }
    return s;
}

static Case decode(const std::vector<uint32_t> &v) { Ch ch(v); Case c; prop->gen(ch, c); return c; }

static bool evaluate(const std::vector<uint32_t> &v)
{
    if (shrinking) {
        if (now() > shrinkDeadline || ++shrinkEvals > 4000) return true;
        Case c = decode(v);
        Executor &e = ex[failIdx];
        if (c.ops.empty() || !e.can(c) || (c.only64 && e.is32) || (c.noqemu && e.qemu)) return true;
        auto m = std::make_shared<Bytes>(serialize(c)); bool u;
        std::string s = runOne(e, c, m, &u);
        if (s.empty() || u) { if (e.sent > 200) e.stop(); return true; }
        s = fresh(e, c, m);
        if (s.empty() || s == "\2") return true;
        failMsg = s; failChoices = v;
        return false;
    }
    if (now() > deadline) return true;
    Case c = decode(v);
    if (c.ops.empty()) return true;
    auto m = std::make_shared<Bytes>(serialize(c));
    evals++; opsRun += c.ops.size();
    if (c.nontrivial) { nontrivial++; distinct.insert(hashBytes(*m)); if (samples.size() < 3 && evals % 7 == 3) { std::string s = c.title; for (auto &o : c.ops) { if (s.size() > 900) { s += " ..."; break; } s += (s.empty() ? "" : "; ") + opText(o); } samples.push_back(s); } }
    for (auto &l : c.labels) labels[l.first]++;
    std::vector<size_t> act;
    std::vector<std::string> res(ex.size());
    for (size_t k = 0; k < ex.size(); k++) {
        Executor &e = ex[k];
        if (e.dead || evals % every[k] != k % every[k]) continue;
        if ((c.only64 && e.is32) || (c.noqemu && e.qemu)) continue;
        if (e.pid < 0 || e.sent >= 200) { e.stop(); if (!e.start()) { e.stop(); if (!e.start()) { if (e.name.find("san") != std::string::npos) { e.dead = true; continue; } std::cerr << "cannot start " << e.name << "\n"; exit(3); } } }
        if (!e.can(c)) { e.skipped++; continue; }
        if (!e.send(m)) res[k] = "the call did not return: " + e.reap();
        act.push_back(k);
    }
    for (size_t k : act) {
        Executor &e = ex[k]; bool u = false;
        if (res[k].empty()) {
            res[k] = answer(e, c, &u);
            if (res[k] == "\1") { bool to = e.err == "timeout"; std::string w = to ? "no answer" : e.reap(); if (to) { e.stop(); } res[k] = "the call did not return: " + w; }
        }
        e.ran++; if (u) e.skipped++;
    }
    for (size_t k : act) if (res[k].size()) {
        Executor &e = ex[k];
        auto log = e.log;
        std::string s = fresh(e, c, m);
        if (s == "\2" || (c.safety && res[k].find("no answer") != std::string::npos)) continue;
        if (s.size()) { failIdx = k; failMsg = s; failChoices = v; shrinking = true; sessionFail = false; shrinkDeadline = now() + (s.find("did not return") != std::string::npos && s.find("no answer") != std::string::npos ? 0 : 45); return false; }
        // does the whole session reproduce it?
        bool again = true;
        for (int t = 0; t < 2 && again; t++) {
            bool u = false; std::string last = "x"; e.stop();
            for (size_t q = 0; q < log.size(); q++) { Bytes r; if (c.lanes.size() || !e.send(log[q]) || !e.recv(r)) { if (c.lanes.size()) { last = ""; break; } last = "the call did not return: " + e.reap(); break; } last = q + 1 == log.size() ? verdict(e, c, r, &u) : ""; }
            e.stop();
            again = last.size() > 0 && !u;
        }
        if (again && log.size() > 1) { failIdx = k; failMsg = res[k] + " (only after the preceding calls of the session)"; failChoices = v; sessionFail = true; failLog = log; shrinking = true; shrinkDeadline = 0; return false; }
        unconfirmed++;
        std::cerr << "unconfirmed on " << e.name << ": " << res[k] << "\n";
    }
    return true;
}

static std::string choiceText(const std::vector<uint32_t> &v) { std::string s; for (auto x : v) s += (s.empty() ? "" : " ") + std::to_string(x); return s; }

int main(int argc, char **argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    signal(SIGPIPE, SIG_IGN);
    for (auto &p : allProps()) if (a["--prop"] == p.id && p.gen) prop = &p;
    if (!prop) { std::cerr << "unknown property\n"; return 3; }
    std::istringstream ts(a["--targets"]); std::string t;
    while (std::getline(ts, t, ',')) {
        Executor e; unsigned ev = 1; size_t s = t.find('/');
        if (s != std::string::npos) { ev = (unsigned)atoi(t.c_str() + s + 1); t = t.substr(0, s); }
        e.name = t; e.path = a["--dir"] + "/" + t;
        e.qemu = t.find("@arm") != std::string::npos || t.find("@aarch") != std::string::npos || t.find("@thumb") != std::string::npos || t.find("@be") != std::string::npos || t.find("@avr") != std::string::npos;
        e.threads = t.find("@thr") != std::string::npos || t.find("@tsan") != std::string::npos;
        e.is32 = t.find("@armv") != std::string::npos || t.find("@thumb") != std::string::npos || t.find("@i686") != std::string::npos || t.find("@be32") != std::string::npos;
        ex.push_back(e); every.push_back(ev);
    }
    if (a.count("--replay")) {
        std::ifstream f(a["--replay"]); std::string line, target; std::vector<uint32_t> ch;
        while (std::getline(f, line)) { std::istringstream l(line); std::string k; l >> k; if (k == "target") l >> target; if (k == "choices") { uint32_t x; while (l >> x) ch.push_back(x); } }
        Case c = decode(ch); auto m = std::make_shared<Bytes>(serialize(c)); int bad = 0;
        for (auto &o : c.ops) std::cout << opText(o, true) << "\n";
        for (auto &e : ex) { if (a.count("--only") && e.name != target) continue; e.start(); if (!e.can(c) || (c.only64 && e.is32)) { e.stop(); continue; } bool u; std::string s = runOne(e, c, m, &u); e.stop(); std::cout << e.name << ": " << (s.empty() ? u ? "skipped" : "ok" : s) << "\n"; bad |= s.size() > 0; }
        return bad;
    }
    double T = atof(a["--time"].c_str()), t0 = now(); deadline = t0 + T;
    uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10);
    rc::detail::TestParams params; params.seed = seed; params.maxSuccess = atoi(a["--cases"].c_str()); params.maxSize = 100; params.maxDiscardRatio = 10; params.disableShrinking = false;
    rc::detail::TestMetadata md; md.id = prop->id; md.description = prop->id;
    auto elem = rc::gen::resize(100, rc::gen::arbitrary<uint32_t>());
    auto gen = rc::gen::resize((int)prop->maxChoices, rc::gen::container<std::vector<uint32_t>>(elem));
    auto result = rc::detail::checkTestable([&] {
        const auto v = *gen;
        RC_ASSERT(evaluate(v));
    }, md, params);
    (void)result;
    std::ofstream o(a["--out"]);
    o << "{\"evals\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"ops\":" << opsRun << ",\"unconfirmed\":" << unconfirmed << ",\"elsewhere\":" << elsewhere << ",\"wall\":" << now() - t0 << ",\"targets\":{";
    for (size_t k = 0; k < ex.size(); k++) o << (k ? "," : "") << jstr(ex[k].name) << ":{\"cases\":" << ex[k].ran << (ex[k].dead ? ",\"could_not_start\":1" : "") << ",\"unsupported\":" << ex[k].skipped << "}";
    o << "},\"labels\":{"; { bool f = true; for (auto &l : labels) { o << (f ? "" : ",") << jstr(l.first) << ":" << l.second; f = false; } }
    o << "},\"samples\":["; for (size_t k = 0; k < samples.size(); k++) o << (k ? "," : "") << jstr(samples[k]);
    o << "]";
    int rc = 0;
    if (shrinking) {
        Executor &e = ex[failIdx]; Case c = decode(failChoices); auto m = std::make_shared<Bytes>(serialize(c)); bool ok = true; int n = failMsg.find("no answer") != std::string::npos ? 0 : 3;
        if (!sessionFail) for (int k = 0; k < n && ok; k++) { std::string s = fresh(e, c, m); ok = s.size() > 0 && s != "\2"; if (ok) failMsg = s; }
        if (ok) {
            std::string path = replayDir; if (a.count("--replaydir")) path = a["--replaydir"];
            path += std::string("/") + prop->id + "-" + std::to_string(seed % 1000000007) + ".replay";
            std::ofstream r(path);
            r << "property " << prop->id << "\ntarget " << e.name << "\nfailure " << failMsg << "\nchoices " << choiceText(failChoices) << "\n";
            for (auto &op : c.ops) r << "# " << opText(op, true) << "\n";
            if (sessionFail) { r << "# reproduces only after the preceding cases of the session (" << failLog.size() << " cases, raw messages follow)\n"; for (auto &b : failLog) r << "session " << hex(b->data(), b->size(), b->size()) << "\n"; }
            o << ",\"violation\":{\"target\":" << jstr(e.name) << ",\"message\":" << jstr(failMsg) << ",\"replay\":" << jstr(path) << ",\"ops\":" << c.ops.size() << "}";
            rc = 1;
        } else { o << ",\"lost\":" << jstr(failMsg); }
    }
    o << "}\n"; o.close();
    std::ofstream h(a["--out"] + ".h", std::ios::binary); for (auto v : distinct) h.write((const char *)&v, 8);
    for (auto &e : ex) e.stop();
    return rc;
}
