// Choice-sequence property-based testing engine with lockstep MPI support.
//
// A case is the list of integer draws its generator made.  All ranks run the
// same generator from the same seed, so every rank knows the whole case; the
// verdict is the disjunction of the ranks' verdicts, so shrinking (deleting and
// minimising draws) stays in lockstep as well.  A saved case is the draw list.
#pragma once
#include <mpi.h>

#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

inline uint64_t hash(std::initializer_list<uint64_t> l)
{
    uint64_t h = 0x1234567;
    for (auto v : l) h = mix(h ^ v);
    return h;
}

class Ctx;
struct Global {
    int rank = 0, size = 1;
    std::string scratch = ".";
    std::string tier = "quick";
    int job = 0;
    std::map<std::string, std::function<void(class Ctx&)>> findings;  // known findings: exact cases
    uint64_t* live = nullptr;  // mmap: [0]=count, then draws of the running case
    size_t live_cap = 0;
};
inline Global& G()
{
    static Global g;
    return g;
}

struct Discard {};

class Ctx {
  public:
    std::vector<uint64_t> choices;  // replayed prefix / record
    size_t pos    = 0;
    bool replay   = false;
    uint64_t state = 0;
    std::vector<uint64_t> rec;

    bool failed = false;
    std::string msg;
    bool nontriv = false;
    std::set<std::string> labels;
    std::ostringstream desc;
    uint64_t case_id = 0;
    std::map<std::string, uint64_t> counters;

    int rank() const { return G().rank; }
    int size() const { return G().size; }

    uint64_t raw()
    {
        state += 0x9E3779B97F4A7C15ull;
        uint64_t x = state;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

    /// A value in [0, n).  0 is the simplest.
    uint64_t draw(uint64_t n)
    {
        if (n == 0) n = 1;
        uint64_t v;
        if (replay) {
            v = pos < choices.size() ? choices[pos] : 0;
            if (v >= n) v = n - 1;
        }
        else {
            v = raw() % n;
        }
        note(v);
        return v;
    }
    void note(uint64_t v)
    {
        pos++;
        rec.push_back(v);
        auto& g = G();
        if (g.live && rec.size() + 2 < g.live_cap) {
            g.live[rec.size()] = v;
            g.live[0]          = rec.size();
        }
    }
    uint64_t bits64()
    {
        uint64_t v;
        if (replay) v = pos < choices.size() ? choices[pos] : 0;
        else v = raw();
        note(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi)  // inclusive; lo simplest
    {
        return lo + int64_t(draw(uint64_t(hi - lo) + 1));
    }
    bool chance(unsigned num, unsigned den)  // false simplest
    {
        return draw(den) >= den - num;
    }
    bool flip() { return draw(2) == 1; }
    template<class T> const T& pick(const std::vector<T>& v)
    {
        return v[draw(v.size())];
    }
    /// Size in [lo,hi], biased to small values, with both ends likely.
    size_t size_in(size_t lo, size_t hi)
    {
        if (hi <= lo) { return lo; }
        switch (draw(6)) {
            case 0: return lo + draw(std::min<size_t>(hi - lo, 3) + 1);
            case 1: return lo + draw(std::min<size_t>(hi - lo, 10) + 1);
            case 2: return lo + draw(std::min<size_t>(hi - lo, 40) + 1);
            case 5: return hi - draw(std::min<size_t>(hi - lo, 2) + 1);
            default: return lo + draw(hi - lo + 1);
        }
    }
    /// As size_in, but one case in thirty goes on to `most`, with powers of two and their neighbours likely.
    size_t count_in(size_t lo, size_t hi, size_t most)
    {
        if (most <= hi || !chance(1, 30)) return size_in(lo, hi);
        label("many");
        switch (draw(3)) {
            case 0: return hi + draw(std::min<size_t>(most - hi, 500) + 1);
            case 1: {
                size_t v = (size_t(64) << draw(11)) + draw(3) - 1;
                return std::min(std::max(v, lo), most);
            }
            default: return hi + draw(most - hi + 1);
        }
    }
    /// Divide n among k parts, each style including empty and lopsided parts.
    std::vector<size_t> partition(size_t n, size_t k)
    {
        std::vector<size_t> r(k, 0);
        switch (draw(5)) {
            case 0: {  // balanced
                for (size_t i = 0; i < k; i++) r[i] = n / k + (i < n % k);
                break;
            }
            case 1: {  // all on one
                r[draw(k)] = n;
                break;
            }
            case 2: {  // random with some empties
                size_t left = n;
                for (size_t i = 0; i + 1 < k; i++) {
                    r[i] = chance(1, 3) ? 0 : draw(left + 1);
                    left -= r[i];
                }
                r[k - 1] = left;
                break;
            }
            default: {  // random cut points
                std::vector<size_t> c;
                for (size_t i = 0; i + 1 < k; i++) c.push_back(draw(n + 1));
                std::sort(c.begin(), c.end());
                size_t p = 0;
                for (size_t i = 0; i + 1 < k; i++) { r[i] = c[i] - p; p = c[i]; }
                r[k - 1] = n - p;
            }
        }
        return r;
    }
    /// A random ordering of 0..n-1
    std::vector<size_t> permutation(size_t n)
    {
        std::vector<size_t> v(n);
        for (size_t i = 0; i < n; i++) v[i] = i;
        for (size_t i = n; i > 1; i--) {
            // draw 0 keeps the element: identity is simplest
            size_t j = i - 1 - draw(i);
            std::swap(v[i - 1], v[j]);
        }
        return v;
    }
    /// Strictly increasing k values below n
    std::vector<size_t> increasing(size_t k, size_t n)
    {
        std::vector<size_t> v;
        size_t need = std::min(k, n);
        for (size_t i = 0; i < n && need > 0; i++) {
            if (draw(n - i) < need) { v.push_back(i); need--; }
        }
        return v;
    }

    void label(const std::string& s) { labels.insert(s); }
    void label_if(bool b, const std::string& s) { if (b) labels.insert(s); }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void fail(const std::string& m)
    {
        if (!failed) { failed = true; msg = m; }
    }
    bool check(bool ok, const std::string& m)
    {
        if (!ok) fail(m);
        return ok;
    }
    template<class A, class B>
    bool eq(const A& got, const B& want, const std::string& what)
    {
        if (!(got == want)) {
            std::ostringstream s;
            s.precision(17);
            s << what << ": got " << got << " want " << want;
            fail(s.str());
            return false;
        }
        return true;
    }
    /// Agreement of all ranks that nobody failed so far (collective).
    bool all_ok()
    {
        int f = failed, g = 0;
        MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        return g == 0;
    }
    std::string path(const std::string& n) const
    {
        return G().scratch + "/" + n;
    }
};

typedef std::function<void(Ctx&)> Prop;

struct Outcome {
    bool failed = false;
    std::string msg;
};

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

inline void write_case(const std::string& f, const std::vector<uint64_t>& v,
                       const std::string& msg, const std::string& desc)
{
    std::ofstream o(f + ".tmp");
    o << "# np " << G().size << "\n";
    std::istringstream m(msg), d(desc);
    std::string l;
    while (std::getline(m, l)) o << "# msg " << l << "\n";
    while (std::getline(d, l)) o << "# case " << l << "\n";
    for (auto x : v) o << x << "\n";
    o.close();
    rename((f + ".tmp").c_str(), f.c_str());
}
inline std::vector<uint64_t> read_case(const std::string& f)
{
    std::ifstream i(f);
    std::vector<uint64_t> v;
    std::string l;
    while (std::getline(i, l)) {
        if (l.empty() || l[0] == '#') continue;
        v.push_back(strtoull(l.c_str(), nullptr, 10));
    }
    return v;
}

inline Outcome run_one(const Prop& p, Ctx& c)
{
    if (G().live) { G().live[0] = 0; G().live[G().live_cap - 1]++; }
    try {
        p(c);
    }
    catch (const Discard&) {
        c.label("discarded");
        c.nontriv = false;
    }
    catch (const std::exception& e) {
        c.fail(std::string("exception: ") + e.what());
    }
    // verdict of all ranks
    int f = c.failed ? c.rank() : c.size(), g = 0;
    MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    Outcome o;
    if (g < c.size()) {
        o.failed = true;
        int len  = int(c.msg.size());
        MPI_Bcast(&len, 1, MPI_INT, g, MPI_COMM_WORLD);
        std::string m = c.msg;
        m.resize(len);
        MPI_Bcast(&m[0], len, MPI_CHAR, g, MPI_COMM_WORLD);
        o.msg = "[rank " + std::to_string(g) + "/" + std::to_string(c.size()) + "] " + m;
    }
    return o;
}

inline bool agree(bool b)  // rank 0 decides
{
    int v = b;
    MPI_Bcast(&v, 1, MPI_INT, 0, MPI_COMM_WORLD);
    return v != 0;
}

inline int run(int argc, char** argv, const Prop& prop)
{
    int init = 0;
    MPI_Initialized(&init);
    if (!init) MPI_Init(&argc, &argv);
    auto& g = G();
    MPI_Comm_rank(MPI_COMM_WORLD, &g.rank);
    MPI_Comm_size(MPI_COMM_WORLD, &g.size);

    uint64_t seed = 1, first = 0, cases = ~0ull >> 1, only = ~0ull;
    double secs = 10, shrink_secs = 20;
    uint64_t min_cases = 0;
    std::string replay, out, fail, live, finding;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--first") first = strtoull(nx().c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10);
        else if (a == "--only") only = strtoull(nx().c_str(), 0, 10);
        else if (a == "--min-cases") min_cases = strtoull(nx().c_str(), 0, 10);
        else if (a == "--finding") finding = nx();
        else if (a == "--job") g.job = atoi(nx().c_str());
        else if (a == "--secs") secs = atof(nx().c_str());
        else if (a == "--shrink-secs") shrink_secs = atof(nx().c_str());
        else if (a == "--replay") replay = nx();
        else if (a == "--out") out = nx();
        else if (a == "--fail") fail = nx();
        else if (a == "--live") live = nx();
        else if (a == "--scratch") g.scratch = nx();
        else if (a == "--tier") g.tier = nx();
    }
    if (!live.empty() && g.rank == 0) {
        g.live_cap = 1 << 17;
        int fd = open(live.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && ftruncate(fd, g.live_cap * 8) == 0) {
            void* m = mmap(0, g.live_cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) g.live = (uint64_t*)m;
        }
        if (fd >= 0) close(fd);
    }
    auto now = [] {
        return std::chrono::duration<double>(
          std::chrono::steady_clock::now().time_since_epoch()).count();
    };
    double t0 = now();

    if (!replay.empty() || !finding.empty()) {
        Ctx c;
        c.replay  = true;
        if (!replay.empty()) c.choices = read_case(replay);
        auto o    = run_one(finding.empty() ? prop : Prop(g.findings.at(finding)), c);
        if (g.rank == 0) {
            std::cout << "case: " << c.desc.str() << "\n";
            std::cout << (o.failed ? "REPLAY-FAIL " + o.msg : std::string("REPLAY-PASS")) << std::endl;
            if (!out.empty()) {
                std::ofstream f(out);
                f << "{\"done\":true,\"failed\":" << (o.failed ? "true" : "false")
                  << ",\"msg\":" << jstr(o.msg) << "}\n";
            }
        }
        MPI_Barrier(MPI_COMM_WORLD);
        MPI_Finalize();
        return o.failed ? 3 : 0;
    }

    uint64_t evals = 0, nontriv = 0, discarded = 0;
    std::set<uint64_t> seen;
    std::map<std::string, uint64_t> labels, counters;
    std::vector<std::string> samples;
    bool bad = false;
    std::string badmsg, baddesc;
    uint64_t shrinks = 0;

    uint64_t k = only != ~0ull ? only : first;
    for (; agree(only != ~0ull ? k == only : (k < first + cases && (now() - t0 < secs || (evals < min_cases && now() - t0 < 8 * secs)))); k++) {
        Ctx c;
        c.case_id = k;
        c.state   = hash({seed, k, uint64_t(g.size)});
        auto o    = run_one(prop, c);
        evals++;
        for (auto& l : c.labels) labels[l]++;
        for (auto& l : c.counters) counters[l.first] += l.second;
        if (c.labels.count("discarded")) discarded++;
        if (c.nontriv) {
            uint64_t h = 7;
            for (auto v : c.rec) h = mix(h ^ v);
            if (seen.insert(h).second) {
                nontriv++;
                if (samples.size() < 4 || (samples.size() < 8 && nontriv % 97 == 0))
                    samples.push_back(c.desc.str().substr(0, 700));
            }
        }
        if (o.failed) {
            bad     = true;
            badmsg  = o.msg;
            baddesc = c.desc.str();
            std::vector<uint64_t> best = c.rec;
            if (g.rank == 0 && !fail.empty()) write_case(fail, best, badmsg, baddesc);
            if (g.rank == 0) std::cout << "FAIL case " << k << " " << badmsg << "\n  " << baddesc << std::endl;
            // shrink in lockstep
            double s0 = now();
            auto attempt = [&](const std::vector<uint64_t>& cand) {
                Ctx d;
                d.replay  = true;
                d.choices = cand;
                shrinks++;
                auto r = run_one(prop, d);
                if (r.failed && (d.rec.size() < best.size() || (d.rec.size() == best.size() && d.rec < best))) {
                    best    = d.rec;
                    badmsg  = r.msg;
                    baddesc = d.desc.str();
                    if (g.rank == 0 && !fail.empty()) write_case(fail, best, badmsg, baddesc);
                    return true;
                }
                return false;
            };
            auto budget = [&] { return agree(now() - s0 < shrink_secs); };
            bool improved = true;
            while (improved && budget()) {
                improved = false;
                for (size_t len : {size_t(64), size_t(16), size_t(8), size_t(4), size_t(3), size_t(2), size_t(1)}) {
                    for (size_t i = 0; i + len <= best.size();) {
                        if (!budget()) goto done;
                        auto cand = best;
                        cand.erase(cand.begin() + i, cand.begin() + i + len);
                        if (attempt(cand)) improved = true;
                        else i += len > 4 ? len / 2 : 1;
                    }
                }
                for (size_t i = 0; i < best.size(); i++) {
                    if (best[i] == 0) continue;
                    if (!budget()) goto done;
                    auto cand = best;
                    cand[i]   = 0;
                    if (attempt(cand)) { improved = true; continue; }
                    uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
                    while (hi - lo > 1) {
                        if (!budget()) goto done;
                        uint64_t mid = lo + (hi - lo) / 2;
                        auto c2      = best;
                        if (i >= c2.size()) break;
                        c2[i] = mid;
                        if (attempt(c2)) { improved = true; hi = i < best.size() ? std::min(mid, best[i]) : 0; if (hi <= lo) break; }
                        else lo = mid;
                    }
                }
            }
        done:
            break;
        }
    }
    if (g.rank == 0 && !out.empty()) {
        std::ofstream f(out);
        f << "{\"done\":true,\"np\":" << g.size << ",\"evaluations\":" << evals
          << ",\"distinct_nontrivial\":" << nontriv << ",\"discarded\":" << discarded
          << ",\"shrink_runs\":" << shrinks
          << ",\"failed\":" << (bad ? "true" : "false") << ",\"msg\":" << jstr(badmsg)
          << ",\"case\":" << jstr(baddesc) << ",\"labels\":{";
        bool first_ = true;
        for (auto& l : labels) { f << (first_ ? "" : ",") << jstr(l.first) << ":" << l.second; first_ = false; }
        f << "},\"counters\":{";
        first_ = true;
        for (auto& l : counters) { f << (first_ ? "" : ",") << jstr(l.first) << ":" << l.second; first_ = false; }
        f << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << jstr(samples[i]);
        f << "]}\n";
    }
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return bad ? 3 : 0;
}

}  // namespace pbt
