#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <unordered_set>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>

namespace pbt {
std::vector<Law>& laws() { static std::vector<Law> v; return v; }
std::vector<Finding>& findings() { static std::vector<Finding> v; return v; }
}
using namespace pbt;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static const size_t CAP = 1 << 16;
static const int CASE_CPU_SECONDS = 20;   // a case normally takes microseconds to milliseconds

struct Shared {                 // one per worker
    volatile uint64_t lawIdx, caseIdx;
    volatile uint64_t done;     // worker finished normally
    volatile uint64_t hang;
    volatile uint64_t mirror[CAP];
};

enum Outcome { PASS, FAILED, DISCARDED };
struct CaseResult { Outcome o; std::string msg; };

static CaseResult runCase(const Law& law, Gen& g) {
    try { law.fn(g); }
    catch (const Failure& f) { return {FAILED, f.msg}; }
    catch (const Discard& d) { return {DISCARDED, d.why}; }
    catch (const std::exception& e) { return {FAILED, std::string("unexpected exception: ") + e.what()}; }
    catch (...) { return {FAILED, "unexpected exception of unknown type"}; }
    return {PASS, ""};
}

static void armTimer(int sec) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static Shared* g_sh = nullptr;
static volatile sig_atomic_t g_stop = 0;
static void onTerm(int) { g_stop = 1; }
static void onProf(int) { if (g_sh) g_sh->hang = 1; _exit(77); }

// Run one scripted case in a child. Returns 0 pass, 1 failed, 2 crash, 3 hang, 4 discard.
static int runIsolated(const Law& law, const std::vector<uint64_t>& script, std::string* msg, int cpu, std::vector<uint64_t>* canon = nullptr) {
    int fd[2]; if (pipe(fd)) return 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        if (!msg) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); }
        else { dup2(fd[1], 2); }
        g_sh = nullptr; signal(SIGPROF, onProf); armTimer(cpu);
        Gen g; g.mode = Gen::Replay; g.script = &script; g.reset();
        CaseResult r = runCase(law, g);
        std::string out = "\x01";
        for (auto c : g.choices) out += std::to_string(c) + " ";
        out += "\x02" + r.msg;
        size_t off = 0; while (off < out.size()) { ssize_t n = write(fd[1], out.data() + off, out.size() - off); if (n <= 0) break; off += n; }
        _exit(r.o == PASS ? 0 : r.o == FAILED ? 50 : 51);
    }
    close(fd[1]);
    std::string buf; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) buf.append(b, n);
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    int res;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 50) res = 1;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 51) res = 4;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) res = 3;
    else res = 2;
    if (msg) {
        if (res == 3) *msg = "does not terminate (case exceeded " + std::to_string(cpu) + " s of CPU time)";
        else if (res == 2) {
            // first informative line of the sanitizer report
            std::istringstream is(buf); std::string line, best;
            while (std::getline(is, line)) if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("Assertion") != std::string::npos || line.find("what()") != std::string::npos) { best = line; break; }
            // plus the first stack frame in the library
            while (std::getline(is, line)) if (line.find("LNLib") != std::string::npos) { best += " | " + line; break; }
            *msg = "crash or memory error: " + best;
        } else { auto p = buf.find('\x02'); *msg = p == std::string::npos ? buf : buf.substr(p + 1); }
    }
    if (canon && (res == 1)) {
        auto a = buf.find('\x01'), p = buf.find('\x02');
        if (a != std::string::npos && p != std::string::npos) {
            std::istringstream is(buf.substr(a + 1, p - a - 1)); uint64_t v; canon->clear(); while (is >> v) canon->push_back(v);
        }
    }
    return res;
}

static std::vector<uint64_t> shrink(const Law& law, std::vector<uint64_t> cur, int kind, double budget) {
    double t0 = now();
    int cpu = kind == 3 ? 3 : CASE_CPU_SECONDS;
    auto bad = [&](const std::vector<uint64_t>& s) { int r = runIsolated(law, s, nullptr, cpu); return r == 1 || r == 2 || (kind == 3 && r == 3); };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        // delete blocks
        for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = 0; i + len <= cur.size() && now() - t0 < budget;) {
                auto c = cur; c.erase(c.begin() + i, c.begin() + i + len);
                if (bad(c)) { cur = c; progress = true; } else i += len > 4 ? len / 2 : 1;
            }
        }
        // zero, halve, decrement
        for (size_t i = 0; i < cur.size() && now() - t0 < budget; i++) {
            if (!cur[i]) continue;
            auto c = cur; c[i] = 0;
            if (bad(c)) { cur = c; progress = true; continue; }
            uint64_t lo = 0, hi = cur[i];
            while (hi - lo > 1 && now() - t0 < budget) {
                uint64_t m = lo + (hi - lo) / 2; c[i] = m;
                if (bad(c)) { hi = m; progress = true; } else lo = m;
            }
            cur[i] = hi;
        }
    }
    return cur;
}

struct Stats {
    uint64_t evals = 0, nontriv = 0, discards = 0;
    std::map<std::string, uint64_t> tags, perLaw, discardWhy;
};

struct Pos { size_t li = 0; long k = 0; };
struct Run { uint64_t seed; int nw; bool thorough; double scale; std::string only; };
static long share(const Run& rn, const Law& law, int w) { long total = (long)((rn.thorough ? law.thorough : law.quick) * rn.scale); return total / rn.nw + (w < total % rn.nw ? 1 : 0); }
static uint64_t lawHash(const Law& law) { uint64_t h = 1469598103934665603ull; for (const char* p = law.name; *p; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull; return h; }
static void seedCase(Gen& g, const Run& rn, const Law& law, int w, long k) {
    g.mode = Gen::Random;
    uint64_t x = rn.seed * 0x9E3779B97F4A7C15ull ^ lawHash(law) ^ ((uint64_t)(w + rn.nw * k) * 0xD1B54A32D192ED03ull);
    g.rng = x; g.next64(); g.rng ^= g.next64();
}
// Runs the cases of worker w from one position up to and including another in one fresh process, as the worker
// did: a failure that needs the cases before it (hidden state kept between calls) shows up here and not alone.
// 0 = the last case passes, 1 = it fails or the process crashes on the way.
static int runHistory(const Run& rn, int w, Pos from, Pos to, std::string* msg, int cpu) {
    int fd[2]; if (pipe(fd)) return 0;
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); dup2(fd[1], 2); g_sh = nullptr; signal(SIGPROF, onProf); armTimer(cpu);
        Gen g;
        for (size_t li = from.li; li <= to.li; li++) {
            const Law& law = laws()[li]; if (!rn.only.empty() && rn.only != law.name) continue;
            long k0 = li == from.li ? from.k : 0, k1 = li == to.li ? to.k : share(rn, law, w) - 1;
            for (long k = k0; k <= k1; k++) {
                seedCase(g, rn, law, w, k); g.wantLog = false; g.reset(); CaseResult r = runCase(law, g);
                if (r.o == FAILED) { std::string m = "\x02" + r.msg; if (write(fd[1], m.data(), m.size()) < 0) {} _exit(50); }
            }
        }
        _exit(0);
    }
    close(fd[1]); std::string buf; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) buf.append(b, n); close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77)) return 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 0;
    if (msg) {
        auto p = buf.find('\x02'); *msg = "after a history of calls: ";
        if (p != std::string::npos) *msg += buf.substr(p + 1);
        else { std::istringstream is(buf); std::string line; while (std::getline(is, line)) if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("Assertion") != std::string::npos || line.find("what()") != std::string::npos) { *msg += line; break; } }
    }
    return 1;
}

static void worker(int w, const Run& rn, Pos start, double deadline, Shared* sh, const std::string& out) {
    int nw = rn.nw; const std::string& only = rn.only; (void)nw;
    g_sh = sh; signal(SIGPROF, onProf); signal(SIGTERM, onTerm);
    Stats st; std::unordered_set<uint64_t> seen; std::vector<std::string> samples;
    bool cut = false; bool failed = false;
    for (size_t li = start.li; li < laws().size() && !failed && !g_stop; li++) {
        const Law& law = laws()[li];
        if (!only.empty() && only != law.name) continue;
        long n = share(rn, law, w), k0 = li == start.li ? start.k : 0;
        sh->caseIdx = k0; sh->lawIdx = li;
        uint64_t h = lawHash(law);
        int lawSamples = 0;
        Gen g; g.mirror = sh->mirror; g.mirrorCap = CAP;
        for (long k = k0; k < n; k++) {
            sh->caseIdx = k;
            if (g_stop) break;
            if ((k & 15) == 0 && now() > deadline) { cut = true; break; }
            seedCase(g, rn, law, w, k);
            g.wantLog = (w == 0 && lawSamples < 1 && k >= 1);
            g.reset();
            armTimer(CASE_CPU_SECONDS);
            CaseResult r = runCase(law, g);
            if (r.o == DISCARDED) { st.discards++; st.discardWhy[std::string(law.name) + ": " + r.msg]++; continue; }
            st.evals++; st.perLaw[law.name]++;
            for (auto t : g.tags) st.tags[std::string(law.name) + "/" + t]++;
            if (g.nontriv) {
                uint64_t hh = h; for (auto c : g.choices) hh = (hh ^ (c + 0x9E37)) * 1099511628211ull;
                seen.insert(hh);
                if (g.wantLog) { samples.push_back(std::string(law.name) + ": " + g.log.str()); lawSamples++; }
            }
            if (r.o == FAILED) {
                std::ofstream f(out + ".fail"); f << li << "\n"; for (auto c : g.choices) f << c << " "; f << "\n" << r.msg << "\n"; f.close();
                failed = true; break;
            }
        }
        if (cut) break;
    }
    armTimer(0);
    std::ofstream f(out + ".stats");
    f << st.evals << " " << st.discards << " " << (cut ? 1 : 0) << "\n";
    for (auto& p : st.perLaw) f << "L\t" << p.first << "\t" << p.second << "\n";
    for (auto& p : st.tags) f << "T\t" << p.first << "\t" << p.second << "\n";
    for (auto& p : st.discardWhy) f << "D\t" << p.first << "\t" << p.second << "\n";
    for (auto& s : samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', ' '); std::replace(t.begin(), t.end(), '\t', ' '); f << "S\t" << t << "\n"; }
    f.close();
    std::ofstream fh(out + ".hash", std::ios::binary); for (auto h : seen) fh.write((const char*)&h, 8); fh.close();
    if (!failed && !g_stop) sh->done = 1;
    _exit(failed ? 60 : 0);
}

static std::string jesc(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += ' '; else if (c >= 127) o += '?'; else o += c; } return o;
}

int main(int argc, char** argv) {
    std::string id = "?", work = ".", replay, only, known, bytesFile; uint64_t seed = 1; bool thorough = false; double scale = 1, maxTime = 60; int nw = 8; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--id") id = nxt(); else if (a == "--work") work = nxt(); else if (a == "--seed") seed = std::stoull(nxt());
        else if (a == "--thorough") thorough = true; else if (a == "--scale") scale = std::stod(nxt()); else if (a == "--max-time") maxTime = std::stod(nxt());
        else if (a == "--replay") replay = nxt(); else if (a == "--workers") nw = std::stoi(nxt()); else if (a == "--only") only = nxt(); else if (a == "--known") known = nxt();
        else if (a == "--bytes") bytesFile = nxt(); else if (a == "--list") list = true;
    }
    if (list) { for (auto& l : laws()) std::cout << l.name << " " << l.quick << " " << l.thorough << "\n"; return 0; }
    if (!bytesFile.empty()) {   // convert a fuzzer input into a recorded choice list
        std::ifstream f(bytesFile, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), {});
        if (s.empty()) s = std::string(1, 0);
        size_t li = (uint8_t)s[0] % laws().size();
        Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid_t p = fork();
        if (!p) { Gen g; g.mode = Gen::Bytes; g.bytes = (const uint8_t*)s.data() + 1; g.nbytes = s.size() - 1; g.mirror = sh->mirror; g.mirrorCap = CAP; g.reset(); armTimer(CASE_CPU_SECONDS); runCase(laws()[li], g); _exit(0); }
        int st; waitpid(p, &st, 0);
        std::cout << "law " << laws()[li].name << "\nchoices"; for (size_t i = 1; i <= sh->mirror[0]; i++) std::cout << " " << sh->mirror[i]; std::cout << "\n"; return 0;
    }
    if (!replay.empty()) {
        std::ifstream f(replay); std::string line, law; std::vector<uint64_t> ch;
        bool hist = false; Run rn; int hw = 0; Pos a, b; int th = 0;
        while (std::getline(f, line)) {
            if (line.rfind("law ", 0) == 0) law = line.substr(4);
            if (line.rfind("history ", 0) == 0) { std::istringstream is(line.substr(8)); is >> rn.seed >> rn.nw >> th >> rn.scale >> hw >> a.li >> a.k >> b.li >> b.k; if (!(is >> rn.only)) rn.only = ""; rn.thorough = th; hist = true; }
            if (line.rfind("choices", 0) == 0) { std::istringstream is(line.substr(7)); uint64_t v; while (is >> v) ch.push_back(v); }
        }
        if (hist) { int fails = 0; std::string msg; for (int k = 0; k < 3; k++) fails += runHistory(rn, hw, a, b, &msg, 120); std::cout << "history ending in law " << law << ": failed " << fails << "/3 replays\n" << msg << "\n"; return fails == 3 ? 1 : 0; }
        for (auto& l : laws()) if (law == l.name) {
            int fails = 0; std::string msg;
            for (int k = 0; k < 3; k++) { int r = runIsolated(l, ch, &msg, CASE_CPU_SECONDS); if (r >= 1 && r <= 3) fails++; }
            std::cout << "law " << law << ": failed " << fails << "/3 replays\n";
            if (fails) std::cout << msg << "\n";
            { Gen g; g.mode = Gen::Replay; g.script = &ch; g.wantLog = true; g.reset(); std::cout.flush(); pid_t lp = fork(); if (!lp) { armTimer(CASE_CPU_SECONDS); try { runCase(l, g); } catch (...) {} std::cout << g.log.str() << std::endl; _exit(0); } int st; waitpid(lp, &st, 0); }
            return fails == 3 ? 1 : 0;
        }
        std::cerr << "no such law\n"; return 2;
    }
    double t0 = now();
    // known findings: fixed inputs, listed in the committed file
    std::set<std::string> knownKeys; { std::ifstream f(known); std::string line; while (std::getline(f, line)) { if (line.rfind("known:", 0) == 0) { auto p = line.find("key="); if (p != std::string::npos) { auto e = line.find(' ', p); knownKeys.insert(line.substr(p + 4, e == std::string::npos ? e : e - p - 4)); } } } }
    int knownShown = 0;
    for (auto& fd : findings()) {
        if (!knownKeys.count(fd.key)) continue;
        Law l{fd.key, 1, 1, [&](Gen&) { fd.fn(); }};
        std::string msg; int r = runIsolated(l, {}, &msg, 5);
        std::string one = msg.substr(0, msg.find('\n'));
        if (r >= 1 && r <= 3) { std::cout << "KNOWN-FINDING: property=" << id << " " << fd.key << ": " << one << "\n"; knownShown++; }
    }
    std::cout.flush();
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(nw);
    double deadline = t0 + maxTime;
    Run rn{seed, nw, thorough, scale, only};
    std::vector<Pos> start(nw);
    struct Cand { size_t li; std::vector<uint64_t> ch; std::string msg; int kind; int w; long k; };
    Stats st; std::vector<uint64_t> hashes; std::vector<std::string> samples; bool cut = false;
    int violations = 0; std::set<size_t> lawsDone; std::string noted; double shrinkT0 = 0;
    // A failure that is not confirmed does not end the search: the workers go on after it, a few times.
    for (int round = 0; round < 5; round++) {
    for (int w = 0; w < nw; w++) {
        std::string out = work + "/w" + std::to_string(w);
        unlink((out + ".fail").c_str()); unlink((out + ".stats").c_str()); unlink((out + ".hash").c_str());
        if (sh[w].done) { pids[w] = -1; continue; }
        sh[w].hang = 0;
        pids[w] = fork();
        if (pids[w] == 0) {
            std::string log = out + ".log"; int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 2);
            worker(w, rn, start[w], deadline, &sh[w], out);
        }
    }
    // wait for all; a failing worker stops the others
    std::vector<Cand> cands;
    std::map<pid_t, int> who; for (int w = 0; w < nw; w++) if (pids[w] > 0) who[pids[w]] = w;
    int left = (int)who.size();
    bool stopping = false;
    while (left > 0) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; if (!who.count(p)) continue;
        left--; int w = who[p];
        if (sh[w].done) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (stopping && WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 60) {
            std::ifstream f(work + "/w" + std::to_string(w) + ".fail"); std::string line; Cand c; std::getline(f, line); c.li = std::stoul(line); std::getline(f, line); std::istringstream is(line); uint64_t v; while (is >> v) c.ch.push_back(v); std::getline(f, c.msg); c.kind = 1; c.w = w; c.k = sh[w].caseIdx; cands.push_back(c);
        } else {
            Cand c; c.li = sh[w].lawIdx; c.kind = sh[w].hang ? 3 : 2; c.w = w; c.k = sh[w].caseIdx;
            for (size_t i = 1; i <= sh[w].mirror[0] && i < CAP; i++) c.ch.push_back((uint64_t)sh[w].mirror[i]);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) c.msg = "worker killed";
            cands.push_back(c);
        }
        if (!stopping) { stopping = true; for (int k = 0; k < nw; k++) if (!sh[k].done) kill(pids[k], SIGTERM); }
    }
    // statistics
    for (int w = 0; w < nw; w++) {
        std::string out = work + "/w" + std::to_string(w);
        std::ifstream f(out + ".stats"); std::string line; if (std::getline(f, line)) { std::istringstream is(line); uint64_t a, b; int c; is >> a >> b >> c; st.evals += a; st.discards += b; cut = cut || c; }
        while (std::getline(f, line)) {
            auto t1 = line.find('\t'); auto t2 = line.find('\t', t1 + 1); char k = line[0];
            if (k == 'S') { samples.push_back(line.substr(2)); continue; }
            std::string nm = line.substr(t1 + 1, t2 - t1 - 1); uint64_t v = std::stoull(line.substr(t2 + 1));
            if (k == 'L') st.perLaw[nm] += v; if (k == 'T') st.tags[nm] += v; if (k == 'D') st.discardWhy[nm] += v;
        }
        std::ifstream fh(out + ".hash", std::ios::binary); uint64_t h; while (fh.read((char*)&h, 8)) hashes.push_back(h);
    }
    // confirm, shrink, write replay
    std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.li < b.li || (a.li == b.li && a.ch < b.ch); });
    if (!shrinkT0) shrinkT0 = now();
    for (auto& c : cands) {
        if (lawsDone.count(c.li) || violations >= 3) continue;
        const Law& law = laws()[c.li];
        // a time-out is only believed if the single case alone also exceeds the limit
        int r = runIsolated(law, c.ch, &c.msg, CASE_CPU_SECONDS);
        if (r == 0 || r == 4) {
            Pos from = start[c.w], to{c.li, c.k}; std::string msg; bool bad = false;
            if (c.kind != 3 && runHistory(rn, c.w, from, to, &msg, 120) && runHistory(rn, c.w, from, to, nullptr, 120)) {
                bad = true;   // shrink: the latest start that still fails
                Pos best = from; double h0 = now();
                for (long len = 1; now() - h0 < 40; len *= 2) { Pos s{c.li, std::max(0L, c.k - len)}; if (c.li == from.li && s.k <= from.k) break; std::string m2; if (runHistory(rn, c.w, s, to, &m2, 60)) { best = s; msg = m2; break; } if (s.k == 0) break; }
                std::string path = work + "/replay_" + id + "_" + law.name + ".txt";
                if (runHistory(rn, c.w, best, to, &msg, 120)) {
                    std::ofstream f(path);
                    f << "property " << id << "\nlaw " << law.name << "\nseed " << seed << "\nhistory " << seed << " " << nw << " " << (thorough ? 1 : 0) << " " << scale << " " << c.w << " " << best.li << " " << best.k << " " << to.li << " " << to.k << " " << only << "\nmessage " << msg << "\n";
                    f.close(); violations++; lawsDone.insert(c.li);
                    std::cout << "VIOLATION property=" << id << " replay=" << path << "\n  law " << law.name << ": " << msg.substr(0, 600) << "\n"; std::cout.flush();
                } else bad = false;
            }
            if (!bad) noted += std::string(law.name) + ": a worker ended abnormally but its last case passes alone and after its history; ";
            continue;
        }
        c.kind = r; lawsDone.insert(c.li);
        double budget = std::max(3.0, 25.0 - (now() - shrinkT0));
        auto small = shrink(law, c.ch, r, r == 3 ? 30.0 : budget);
        std::string msg; std::vector<uint64_t> canon = small;
        int r1 = runIsolated(law, small, &msg, CASE_CPU_SECONDS, &canon), r2 = 1, r3 = 1;
        if (r1 == 1) { while (!canon.empty() && canon.back() == 0) canon.pop_back(); if (canon.size() <= small.size()) small = canon; }
        if (r1 != 3) { r2 = runIsolated(law, small, nullptr, CASE_CPU_SECONDS); r3 = runIsolated(law, small, nullptr, CASE_CPU_SECONDS); }
        auto isBad = [](int x) { return x >= 1 && x <= 3; };
        if (!(isBad(r1) && isBad(r2) && isBad(r3))) { small = c.ch; msg = c.msg; r1 = runIsolated(law, small, &msg, CASE_CPU_SECONDS); if (!isBad(r1)) { noted += std::string(law.name) + ": not reproducible; "; continue; } }
        std::string path = work + "/replay_" + id + "_" + law.name + ".txt";
        std::ofstream f(path);
        f << "property " << id << "\nlaw " << law.name << "\nseed " << seed << "\nchoices"; for (auto v : small) f << " " << v; f << "\nmessage " << msg << "\n";
        f.close();
        violations++;
        std::cout << "VIOLATION property=" << id << " replay=" << path << "\n  law " << law.name << ": " << msg.substr(0, 600) << "\n";
        std::cout.flush();
    }
    if (violations || cands.empty() || now() > deadline) break;
    for (int w = 0; w < nw; w++) if (!sh[w].done) { start[w] = Pos{(size_t)sh[w].lawIdx, (long)sh[w].caseIdx}; }
    for (auto& c : cands) start[c.w].k++;
    }
    std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    double wall = now() - t0;
    // JSON statistics for check.py
    std::ofstream js(work + "/result.json");
    js << "{\"evaluations\":" << st.evals << ",\"distinct_nontrivial\":" << hashes.size() << ",\"discarded\":" << st.discards << ",\"cut_by_time\":" << (cut ? "true" : "false") << ",\"wall_s\":" << wall << ",\"violations\":" << violations << ",\"known_findings_shown\":" << knownShown << ",\"rule\":\"" << jesc(RULE) << "\",\"notes\":\"" << jesc(noted) << "\",\"cases_per_law\":{";
    bool first = true; for (auto& p : st.perLaw) { js << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
    js << "},\"classes\":{"; first = true; for (auto& p : st.tags) { js << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
    js << "},\"discard_reasons\":{"; first = true; for (auto& p : st.discardWhy) { js << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
    js << "},\"samples\":["; first = true; for (auto& s : samples) { js << (first ? "" : ",") << "\"" << jesc(s.substr(0, 700)) << "\""; first = false; }
    js << "]}\n"; js.close();
    if (violations) return 1;
    if (!noted.empty()) std::cout << "note: " << noted << "\n";
    return 0;
}
