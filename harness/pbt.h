// pbt.h -- a small property-based testing engine (Hypothesis-style choice sequences).
//
// Every random decision of a case goes through Ctx::draw() and is recorded, so that
//   * a case is a pure function of its choice sequence,
//   * shrinking works on the choice sequence (delete blocks, zero, minimise values),
//   * the shrunk sequence is the replay file.
// Cases run in forked worker processes: a crash, a sanitizer report or a hang (CPU time) in
// the tested code is a failure of the case that was running, and is shrunk like any other.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <limits>
#include <stdexcept>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace pbt {

struct Fail    { std::string msg; };
struct Discard { };

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const char* s, uint64_t h = 0xcbf29ce484222325ull) {
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 0x100000001b3ull; }
    return h;
}

constexpr size_t MAX_CHOICES = 1 << 17;
constexpr size_t TEXT_CAP    = 1 << 16;

struct Shared {                 // one per worker / child, in MAP_SHARED memory
    volatile int      status;   // 0 running, 1 ok/finished, 2 property failure, 3 discard
    volatile int64_t  test;
    volatile int64_t  index;
    volatile uint64_t nchoices;
    volatile int      nontrivial;
    uint64_t          choices[MAX_CHOICES];
    char              msg[8192];
    char              text[TEXT_CAP];
    volatile size_t   textlen;
    // worker statistics
    uint64_t          evals[1024], nontriv[1024], discards[1024];
};

inline volatile int* g_stop = nullptr;

class Ctx {
public:
    // sources
    bool replaying = false;
    const uint64_t* rep = nullptr; size_t nrep = 0, pos = 0;
    uint64_t rng = 0;
    Shared* sh = nullptr;        // choices recorded here when record=true
    bool record = false;
    bool verbose = false;
    bool is_nontrivial = false;
    uint64_t hash = 0x1234567;
    size_t ndraw = 0;
    std::map<std::string, uint64_t>* labels = nullptr;
    int scale = 1;

    // uniform in [0, n]
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (ndraw >= MAX_CHOICES) throw Discard();
        if (replaying) {
            v = pos < nrep ? rep[pos] : 0; pos++;
            if (v > n) v = (n == ~0ull) ? v : v % (n + 1);
        } else {
            uint64_t r = splitmix(rng);
            v = (n == ~0ull) ? r : (uint64_t)(((unsigned __int128)r * ((unsigned __int128)n + 1)) >> 64);
        }
        if (record) { sh->choices[ndraw] = v; sh->nchoices = ndraw + 1; }
        ndraw++;
        hash = (hash ^ v) * 0x100000001b3ull; hash ^= hash >> 29;
        return v;
    }
    // integer in [lo,hi]; shrinks toward lo
    int64_t i(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo)); }
    // signed integer in [-m, m]; shrinks toward 0
    int64_t si(int64_t m) { uint64_t v = draw(2 * (uint64_t)m); return (v & 1) ? -(int64_t)((v + 1) / 2) : (int64_t)(v / 2); }
    bool b() { return draw(1); }
    bool chance(int num, int den) { return (int64_t)draw(den - 1) >= den - num; }  // shrinks to false
    double unit() { return draw((1ull << 53) - 1) * 0x1p-53; }                      // [0,1)
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template<class T, size_t K> const T& pick(const T (&v)[K]) { return v[draw(K - 1)]; }

    // a real of magnitude <= m with a mixture of "nice" and generic values
    double real(double m = 10) {
        switch (draw(7)) {
            case 0: { double k = std::floor(std::min(m, 4.0)); return (double)si((int64_t)k); }
            case 1: { int64_t k = (int64_t)std::min(std::floor(m * 4), 1e15); return si(k) * 0.25; }
            case 2: { double s = b() ? -1 : 1; return s * m * std::exp2(-(double)i(0, 40)) * (0.5 + 0.5 * unit()); } // log scale
            default: return m * (2 * unit() - 1);
        }
    }
    // a size near a power of two (up to 2^maxexp +- 3): the sizes where a narrowed counter wraps
    int64_t big(int minexp, int maxexp) { return std::max<int64_t>(1, (1ll << i(minexp, maxexp)) + si(3)); }
    double range(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // positive real in [lo,hi], log-uniform
    double logpos(double lo, double hi) { return lo * std::exp(unit() * std::log(hi / lo)); }

    void nontrivial(bool x = true) { if (x) is_nontrivial = true; }
    void label(const char* l) { if (labels) (*labels)[l]++; }
    void label(const char* l, bool c) { if (c) label(l); }
    void assume(bool c) { if (!c) throw Discard(); }
    template<class F> void log(F&& f) {
        if (!verbose) return;
        std::ostringstream o; o << std::setprecision(17); f(o);
        std::string s = o.str(); s += '\n';
        if (sh && sh->textlen + s.size() + 1 < TEXT_CAP) {
            memcpy(sh->text + sh->textlen, s.c_str(), s.size() + 1);
            sh->textlen = sh->textlen + s.size();
        }
    }
};

#define LOG(c, expr) (c).log([&](std::ostream& _o) { _o << expr; })
#define REQUIRE(cond, expr) do { if (!(cond)) { std::ostringstream _o; _o << std::setprecision(17) << "(" #cond ") " << expr; \
    throw pbt::Fail{_o.str()}; } } while (0)
#define FAILMSG(expr) do { std::ostringstream _o; _o << std::setprecision(17) << expr; throw pbt::Fail{_o.str()}; } while (0)

struct Test { const char* name; uint64_t quick; void (*fn)(Ctx&); bool example; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, uint64_t q, void (*f)(Ctx&), bool ex = false) { tests().push_back({n, q, f, ex}); } };

#ifdef PBT_PART
#define PART(k) (PBT_PART == (k))
#else
#define PART(k) 1
#endif
// generated property, `count` cases in the quick tier
#define PROP(name, count) static void prop_##name(pbt::Ctx&); static pbt::Reg reg_##name(#name, count, prop_##name); static void prop_##name([[maybe_unused]] pbt::Ctx& c)
// fixed input (regression example / known finding)
#define EXAMPLE(name) static void prop_##name(pbt::Ctx&); static pbt::Reg reg_##name(#name, 1, prop_##name, true); static void prop_##name([[maybe_unused]] pbt::Ctx& c)

inline void arm(double s) {
    struct itimerval it{}; it.it_value.tv_sec = (time_t)s; it.it_value.tv_usec = (suseconds_t)((s - (time_t)s) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline Shared* mkshared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}

struct Engine {
    std::string rule = "see DESIGN.md", prop, tier = "quick", evidence, replaydir, known_file, technique, tmpdir;
    uint64_t seed = 1; double mult = 1; int workers = 8; double hang_s = 20; double wall_cap = 600; bool log_only = false;
    std::string filter;
    double t0 = now();
    std::map<std::string, std::string> known;   // example name -> text

    uint64_t case_seed(int t, uint64_t k) {
        uint64_t s = seed * 0x9E3779B97F4A7C15ull ^ fnv(tests()[t].name) ^ (k + 1) * 0xD1B54A32D192ED03ull;
        splitmix(s); return s;
    }
    uint64_t count(int t) {
        if (tests()[t].example) return 1;
        return std::max<uint64_t>(1, (uint64_t)(tests()[t].quick * mult));
    }
    // run a single case in this process. returns 1 ok, 2 fail, 3 discard
    int run_case(Ctx& c, int t, std::string& msg) {
        try { tests()[t].fn(c); return 1; }
        catch (Fail& f)    { msg = f.msg; return 2; }
        catch (Discard&)   { return 3; }
        catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return 2; }
        catch (...) { msg = "unexpected exception of unknown type"; return 2; }
    }

    struct Outcome { bool fail = false; bool hang = false; std::string msg; bool discard = false; bool nontrivial = false; std::vector<uint64_t> choices; std::string text; };

    std::string tail(const std::string& path) {
        std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
        // keep the informative head of a sanitizer report
        size_t p = s.find("ERROR:"); if (p == std::string::npos) p = s.find("runtime error:");
        if (p != std::string::npos) { size_t b = s.rfind('\n', p); s = s.substr(b == std::string::npos ? 0 : b + 1); }
        return s.substr(0, 1500);
    }
    void redirect_stderr(const std::string& path) {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    }
    std::string describe(int st, const std::string& errfile, bool& hang) {
        std::ostringstream o;
        hang = false;
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGVTALRM) { hang = true; o << "hang: the case used more than " << hang_s << " s of CPU time"; return o.str(); }
            o << "crash: signal " << WTERMSIG(st);
        } else o << "crash: exit status " << WEXITSTATUS(st);
        o << "\n" << tail(errfile);
        return o.str();
    }

    // Run one case in a forked child.
    Outcome child_case(int t, const std::vector<uint64_t>* rep, uint64_t k, bool verbose = false) {
        static Shared* sh = mkshared();
        sh->status = 0; sh->nchoices = 0; sh->textlen = 0; sh->text[0] = 0; sh->nontrivial = 0;
        std::string err = tmpdir + "/child.err";
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            redirect_stderr(err);
            Ctx c; c.sh = sh; c.record = true; c.verbose = verbose;
            if (rep) { c.replaying = true; c.rep = rep->data(); c.nrep = rep->size(); }
            else c.rng = case_seed(t, k);
            arm(hang_s);
            std::string msg;
            int r = run_case(c, t, msg);
            snprintf((char*)sh->msg, sizeof sh->msg, "%s", msg.c_str());
            sh->nontrivial = c.is_nontrivial;
            sh->status = r;
            _exit(0);
        }
        int st; waitpid(pid, &st, 0);
        Outcome o;
        o.choices.assign(sh->choices, sh->choices + sh->nchoices);
        o.text = std::string(sh->text, sh->textlen);
        o.nontrivial = sh->nontrivial;
        if (sh->status == 0 || !WIFEXITED(st) || WEXITSTATUS(st) != 0) { o.fail = true; o.msg = describe(st, err, o.hang); }
        else if (sh->status == 2) { o.fail = true; o.msg = sh->msg; }
        else if (sh->status == 3) o.discard = true;
        return o;
    }

    // ---------- worker ----------
    struct WorkerOut { std::map<std::string, uint64_t> labels; };
    void worker(int w, int W, Shared* sh, const std::string& outfile, int only_test, int64_t upto) {
        std::vector<std::map<std::string, uint64_t>> labels(tests().size());
        std::ofstream hf;
        std::unordered_set<uint64_t> seen;
        std::vector<std::pair<int, uint64_t>> sample_cases;
        FILE* f = nullptr;
        if (!outfile.empty()) f = fopen(outfile.c_str(), "w");
        int nt = (int)tests().size();
        for (int t = 0; t < nt; t++) {
            if (tests()[t].example) continue;
            if (only_test >= 0 && t != only_test) continue;
            if (!filter.empty() && !strstr(tests()[t].name, filter.c_str())) continue;
            uint64_t n = count(t);
            int samples = 0; seen.clear();
            for (uint64_t k = w; k < n; k += W) {
                if (upto >= 0 && (int64_t)k > upto) break;
                if (g_stop && *g_stop) goto done;
                if (upto < 0 && (k / W) % 64 == 0 && now() - t0 > wall_cap) { sh->msg[0] = 'T'; goto done; }
                sh->test = t; sh->index = (int64_t)k;
                Ctx c; c.rng = case_seed(t, k); c.labels = &labels[t]; c.sh = sh;
                arm(hang_s);
                std::string msg;
                int r = run_case(c, t, msg);
                if (r == 2) {
                    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
                    sh->status = 2; if (f) fclose(f); _exit(0);
                }
                if (r == 3) { sh->discards[t]++; continue; }
                sh->evals[t]++;
                if (c.is_nontrivial) {
                    sh->nontriv[t]++;
                    if (f && seen.insert(c.hash).second) { fprintf(f, "H %d %016llx\n", t, (unsigned long long)c.hash); }
                    if (f && samples < 1 && k > 5) { samples++; fprintf(f, "S %d %llu\n", t, (unsigned long long)k); }
                }
            }
        }
    done:
        arm(0);
        if (f) {
            for (int t = 0; t < nt; t++) for (auto& p : labels[t]) fprintf(f, "L %d %llu %s\n", t, (unsigned long long)p.second, p.first.c_str());
            fclose(f);
        }
        sh->status = 1;
        _exit(0);
    }

    // ---------- shrinking ----------
    std::vector<uint64_t> shrink(int t, std::vector<uint64_t> best, std::string& msg) {
        int budget = 1500; double tend = now() + 60;
        auto attempt = [&](const std::vector<uint64_t>& cand) {
            if (budget-- <= 0 || now() > tend) return false;
            Outcome o = child_case(t, &cand, 0);
            if (!o.fail || o.hang) return false;
            if (o.choices.size() > cand.size() + 4) return false;
            // accept if simpler
            std::vector<uint64_t> got = o.choices;
            while (!got.empty() && got.back() == 0) got.pop_back();
            bool simpler = got.size() < best.size() || (got.size() == best.size() && got < best);
            if (simpler) { best = got; msg = o.msg; }
            return simpler;
        };
        while (!best.empty() && best.back() == 0) best.pop_back();
        bool progress = true;
        while (progress && budget > 0 && now() < tend) {
            progress = false;
            // delete blocks
            for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1}) {
                for (int64_t p = (int64_t)best.size() - (int64_t)len; p >= 0; ) {
                    if (budget <= 0) break;
                    std::vector<uint64_t> cand = best;
                    cand.erase(cand.begin() + p, cand.begin() + p + len);
                    if (attempt(cand)) { progress = true; p = std::min<int64_t>(p, (int64_t)best.size() - (int64_t)len); }
                    else p -= std::max<int64_t>(1, len / 2);
                }
            }
            // zero blocks / minimise values
            for (size_t p = 0; p < best.size() && budget > 0; p++) {
                if (best[p] == 0) continue;
                std::vector<uint64_t> cand = best; cand[p] = 0;
                if (attempt(cand)) { progress = true; continue; }
                if (p >= best.size()) break;
                uint64_t lo = 0, hi = best[p]; int it = 0;
                while (lo + 1 < hi && it++ < 12) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    cand = best; if (p >= cand.size()) break; cand[p] = mid;
                    if (attempt(cand)) { progress = true; hi = mid; } else lo = mid;
                }
            }
        }
        return best;
    }

    static std::string jesc(const std::string& s) {
        std::string o;
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
            else if (ch == '\n') o += "\\n";
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += ch;
        }
        return o;
    }

    std::string write_replay(int t, const std::vector<uint64_t>& ch, const std::string& msg, const std::string& text, const std::string& mode) {
        std::string path = replaydir + "/" + prop + "-" + tests()[t].name + ".replay";
        std::ofstream f(path);
        f << "property " << prop << "\ntest " << tests()[t].name << "\nmode " << mode << "\nchoices";
        for (auto v : ch) f << " " << v;
        f << "\n# --- failure ---\n";
        std::istringstream is(msg + "\n# --- case ---\n" + text); std::string l;
        while (std::getline(is, l)) f << (l.rfind("#", 0) == 0 ? "" : "# ") << l << "\n";
        f << "# replay with: python3 /verif/check.py " << prop << " --replay " << path << "\n";
        return path;
    }

    void load_known() {
        std::ifstream f(known_file); std::string l;
        while (std::getline(f, l)) {
            if (l.rfind("known: ", 0) != 0) continue;
            std::istringstream is(l.substr(7)); std::string a, b; is >> a >> b;
            if (a != "property=" + prop || b.rfind("example=", 0) != 0) continue;
            std::string rest; std::getline(is, rest);
            known[b.substr(8)] = rest;
        }
    }

    int find_test(const std::string& n) { for (size_t i = 0; i < tests().size(); i++) if (n == tests()[i].name) return (int)i; return -1; }

    int replay(const std::string& path) {
        std::ifstream f(path); std::string l, name, mode = "choices"; std::vector<uint64_t> ch;
        while (std::getline(f, l)) {
            std::istringstream is(l); std::string k; is >> k;
            if (k == "test") is >> name; else if (k == "mode") std::getline(is, mode);
            else if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
        }
        int t = find_test(name);
        if (t < 0) { printf("no such test: %s\n", name.c_str()); return 2; }
        std::istringstream ms(mode); std::string m; ms >> m;
        if (m == "sequence") {
            int w, W; long long k; ms >> w >> W >> k >> seed;
            return run_sequence(t, w, W, k) ? 1 : 0;
        }
        Outcome o = child_case(t, &ch, 0, true);
        printf("%s\n", o.text.c_str());
        if (o.fail) { printf("FAILS: %s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), prop.c_str(), path.c_str()); return 1; }
        printf("passes\n"); return 0;
    }

    bool run_sequence(int t, int w, int W, int64_t k) {
        Shared* sh = mkshared(); sh->status = 0;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) { redirect_stderr(tmpdir + "/seq.err"); worker(w, W, sh, "", t, k); }
        int st; waitpid(pid, &st, 0);
        bool bad = sh->status == 2 || sh->status == 0;
        munmap(sh, sizeof(Shared));
        return bad;
    }

    int violations = 0;
    void report(int t, const std::string& path, const std::string& msg) {
        std::string first = msg.substr(0, 600);
        printf("--- failing test %s\n%s\n", tests()[t].name, first.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        fflush(stdout);
        violations++;
    }

    int main_run() {
        load_known();
        std::vector<std::string> known_lines; std::set<std::string> known_hit;
        uint64_t ex_evals = 0, ex_fail = 0;
        int nt = (int)tests().size();
        if (nt > 1000) { fprintf(stderr, "too many tests\n"); return 2; }
        // examples
        std::vector<std::string> samples;
        for (int t = 0; t < nt; t++) if (tests()[t].example) {
            if (!filter.empty() && !strstr(tests()[t].name, filter.c_str())) continue;
            Outcome o = child_case(t, nullptr, 0, true);
            ex_evals++;
            if (!o.fail) continue;
            bool all = true;
            for (int r = 0; r < 2; r++) all = all && child_case(t, nullptr, 0).fail;
            if (!all) { printf("note: example %s failed once and not again; not counted\n", tests()[t].name); continue; }
            if (known.count(tests()[t].name)) {
                printf("KNOWN-FINDING: property=%s %s:%s\n", prop.c_str(), tests()[t].name, known[tests()[t].name].c_str());
                ex_fail++; continue;
            }
            report(t, write_replay(t, o.choices, o.msg, o.text, "choices"), o.msg);
        }
        // generated
        int W = workers;
        std::vector<Shared*> sh(W); std::vector<pid_t> pids(W);
        int* stop = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_stop = stop;
        fflush(stdout);
        for (int w = 0; w < W; w++) {
            sh[w] = mkshared();
            pids[w] = fork();
            if (pids[w] == 0) {
                redirect_stderr(tmpdir + "/w" + std::to_string(w) + ".err");
                worker(w, W, sh[w], tmpdir + "/w" + std::to_string(w) + ".out", -1, -1);
            }
        }
        struct Bad { int w; int64_t t, k; std::string msg; bool hang; };
        std::vector<Bad> bad; bool capped = false;
        for (int n = 0; n < W; n++) {
            int st; pid_t p = waitpid(-1, &st, 0);
            int w = std::find(pids.begin(), pids.end(), p) - pids.begin();
            if (w >= W) { n--; continue; }
            if (sh[w]->status == 1) { if (sh[w]->msg[0] == 'T') capped = true; continue; }
            Bad b{w, sh[w]->test, sh[w]->index, "", false};
            if (sh[w]->status == 2) b.msg = sh[w]->msg;
            else b.msg = describe(st, tmpdir + "/w" + std::to_string(w) + ".err", b.hang);
            bad.push_back(b);
            *stop = 1;
        }
        *stop = 0;
        std::sort(bad.begin(), bad.end(), [](const Bad& a, const Bad& b) { return std::make_pair(a.t, a.k) < std::make_pair(b.t, b.k); });
        std::set<int64_t> done;
        bool unreproduced = false;
        for (auto& b : bad) {
            if (done.count(b.t)) continue;
            int t = (int)b.t;
            Outcome o = child_case(t, nullptr, b.k);
            if (o.fail) {
                std::vector<uint64_t> best = o.choices; std::string msg = o.msg;
                if (!o.hang) best = shrink(t, best, msg);
                bool all = true; std::string text;
                for (int r = 0; r < 3; r++) {
                    Outcome q = child_case(t, &best, 0, true); all = all && q.fail; text = q.text;
                }
                if (all) { done.insert(b.t); report(t, write_replay(t, best, msg, text, "choices"), msg); continue; }
                best = o.choices; all = true;
                for (int r = 0; r < 3; r++) { Outcome q = child_case(t, &best, 0, true); all = all && q.fail; text = q.text; }
                if (all) { done.insert(b.t); report(t, write_replay(t, best, o.msg, text, "choices"), o.msg); continue; }
            }
            // depends on earlier cases of the worker
            bool all = true;
            for (int r = 0; r < 3 && all; r++) all = run_sequence(t, b.w, W, b.k);
            if (all) {
                done.insert(b.t);
                std::ostringstream m; m << "sequence " << b.w << " " << W << " " << b.k << " " << seed;
                report(t, write_replay(t, {}, b.msg, "fails only after the preceding cases of the same worker", m.str()), b.msg);
            } else { unreproduced = true; printf("note: a failure of %s (case %lld) did not reproduce: %s\n", tests()[t].name, (long long)b.k, b.msg.substr(0, 300).c_str()); }
        }
        // ---- evidence
        uint64_t evals = ex_evals, discards = 0;
        std::vector<std::unordered_set<uint64_t>> H(nt);
        std::vector<std::map<std::string, uint64_t>> L(nt);
        std::map<int, uint64_t> S;
        for (int w = 0; w < W; w++) {
            std::ifstream f(tmpdir + "/w" + std::to_string(w) + ".out"); std::string l;
            while (std::getline(f, l)) {
                int t; char ch; unsigned long long v; char lab[512];
                if (l.empty()) continue;
                ch = l[0];
                if (ch == 'H' && sscanf(l.c_str(), "H %d %llx", &t, &v) == 2) H[t].insert(v);
                else if (ch == 'S' && sscanf(l.c_str(), "S %d %llu", &t, &v) == 2) { if (!S.count(t)) S[t] = v; }
                else if (ch == 'L' && sscanf(l.c_str(), "L %d %llu %511[^\n]", &t, &v, lab) == 3) L[t][lab] += v;
            }
        }
        std::ostringstream per; uint64_t distinct = 0; bool first = true;
        per << "{";
        for (int t = 0; t < nt; t++) {
            if (tests()[t].example) continue;
            uint64_t e = 0, d = 0, ntv = 0;
            for (int w = 0; w < W; w++) { e += sh[w]->evals[t]; d += sh[w]->discards[t]; ntv += sh[w]->nontriv[t]; }
            evals += e; discards += d; distinct += H[t].size();
            per << (first ? "" : ", ") << "\"" << tests()[t].name << "\": {\"cases\": " << e << ", \"discarded\": " << d << ", \"nontrivial\": " << ntv << ", \"distinct_nontrivial\": " << H[t].size();
            if (!L[t].empty()) { per << ", \"classes\": {"; bool f2 = true; for (auto& p : L[t]) { per << (f2 ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; f2 = false; } per << "}"; }
            per << "}"; first = false;
        }
        per << "}";
        int ns = 0;
        for (auto& p : S) {
            if (ns >= 8) break;
            Outcome o = child_case(p.first, nullptr, p.second, true);
            std::string tx = o.text.substr(0, 700);
            if (tx.empty()) { std::ostringstream q; q << "choices"; for (size_t i = 0; i < std::min<size_t>(o.choices.size(), 40); i++) q << " " << o.choices[i]; tx = q.str(); }
            samples.push_back(std::string(tests()[p.first].name) + " #" + std::to_string(p.second) + ": " + tx); ns++;
        }
        if (samples.empty()) samples.push_back("(no non-trivial case was reached before the run stopped)");
        std::ofstream ev(evidence);
        ev << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
        ev << " \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"rule\": \"Cases are generated from recorded random choices (seed, test name, case index). Non-trivial: " << jesc(rule) << ". Distinct counts different choice sequences per test.\",\n";
        ev << "  \"discarded\": " << discards << ",\n  \"fixed_examples\": " << ex_evals << ",\n  \"known_findings_reproduced\": " << ex_fail << ",\n  \"stopped_at_wall_cap\": " << (capped ? "true" : "false") << ",\n  \"workers\": " << W << ",\n";
        ev << "  \"per_test\": " << per.str() << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) ev << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\"";
        ev << "]\n },\n \"assumptions\": [\"floating point comparisons use stated tolerances; inputs stay within the documented domains\"],\n";
        ev << " \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
        ev.close();
        printf("%s: %llu cases, %llu distinct non-trivial, %llu discarded, %d violations, %.1f s%s%s\n", prop.c_str(), (unsigned long long)evals, (unsigned long long)distinct,
               (unsigned long long)discards, violations, now() - t0, capped ? " (wall cap)" : "", unreproduced ? " (unreproduced failure noted)" : "");
        return violations ? 1 : 0;
    }
};

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) {
    pbt::Engine e; std::string replay;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") e.prop = nx(); else if (a == "--tier") e.tier = nx(); else if (a == "--seed") e.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--mult") e.mult = atof(nx().c_str()); else if (a == "--workers") e.workers = atoi(nx().c_str());
        else if (a == "--evidence") e.evidence = nx(); else if (a == "--replaydir") e.replaydir = nx(); else if (a == "--known") e.known_file = nx();
        else if (a == "--tmp") e.tmpdir = nx(); else if (a == "--replay") replay = nx(); else if (a == "--wall") e.wall_cap = atof(nx().c_str());
        else if (a == "--filter") e.filter = nx(); else if (a == "--rule") e.rule = nx();
    }
    if (!replay.empty()) return e.replay(replay);
    return e.main_run();
}
#endif
