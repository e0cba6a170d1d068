// C23: 4D binning pairs each trace with its true closest partner.
#include "setgen.hh"
#include "util.hh"

extern "C" int util_main_fourdbin(int, char**);

// One-sided communication: a process may only read what the owner of a window offered. (Not every MPI
// implementation refuses a read past its end.)
namespace {
std::map<MPI_Win, std::pair<int, std::vector<MPI_Aint>>> windows;
std::string outside;
}
extern "C" int MPI_Win_create(void* base, MPI_Aint size, int unit, MPI_Info info, MPI_Comm comm, MPI_Win* win)
{
    int e = PMPI_Win_create(base, size, unit, info, comm, win), n;
    PMPI_Comm_size(comm, &n);
    std::vector<MPI_Aint> all(static_cast<size_t>(n));
    PMPI_Allgather(&size, 1, MPI_AINT, all.data(), 1, MPI_AINT, comm);
    windows[*win] = {unit, all};
    return e;
}
extern "C" int MPI_Win_free(MPI_Win* win)
{
    windows.erase(*win);
    return PMPI_Win_free(win);
}
extern "C" int MPI_Get(void* to, int n, MPI_Datatype t, int from, MPI_Aint disp, int fn, MPI_Datatype ft, MPI_Win win)
{
    int sz = 0;
    PMPI_Type_size(ft, &sz);
    auto w = windows.find(win);
    if (w != windows.end()) {
        auto &u = w->second;
        if (disp * u.first + MPI_Aint(fn) * sz > u.second[size_t(from)])
            outside = std::to_string(disp * u.first + MPI_Aint(fn) * sz) + " bytes of a window of " + std::to_string(u.second[size_t(from)]);
    }
    return PMPI_Get(to, n, t, from, disp, fn, ft, win);
}

namespace {
struct Pt { double xs, ys, xr, yr; int il, xl; };
/// The dsdr of a pair: the nearer of the forward and the reversed boat
double dsdr(const Pt& a, const Pt& b)
{
    auto h = [](double x, double y) { return std::sqrt(x * x + y * y); };
    double fwd = h(a.xs - b.xs, a.ys - b.ys) + h(a.xr - b.xr, a.yr - b.yr);
    double rev = h(a.xs - b.xr, a.ys - b.yr) + h(a.xr - b.xs, a.yr - b.ys);
    return std::min(fwd, rev);
}
double dsdr_f(const Pt& a, const Pt& b)
{
    auto h = [](float x, float y) { return std::sqrt(x * x + y * y); };
    float fwd = h(float(a.xs - b.xs), float(a.ys - b.ys)) + h(float(a.xr - b.xr), float(a.yr - b.yr));
    float rev = h(float(a.xs - b.xr), float(a.ys - b.yr)) + h(float(a.xr - b.xs), float(a.yr - b.ys));
    return std::min(fwd, rev);
}
/// Is the IEEE number i the IBM number u (of the range and precision of single precision)?
bool same_ibm(uint32_t u, uint32_t i)
{
    double v = std::ldexp(double(u & 0xffffff), 4 * (int((u >> 24) & 127) - 64) - 24) * (u >> 31 ? -1. : 1.), w = double(ref::u2f(i));
    if (std::fabs(v) < 1e-30 || std::fabs(v) > 1e30) return true;
    return std::fabs(v - w) <= 1e-6 * std::fabs(v);
}
struct Survey {
    ref::File F;
    std::vector<Pt> p;       // as single precision holds them
    std::vector<double> xs;  // as stored
    std::vector<size_t> order;
};
void finish(Ctx& c, Survey& s, size_t ns, int inc, int format, const std::vector<std::array<int64_t, 4>>& raw, const std::vector<int>& il, const std::vector<int>& xl, int scal, uint64_t seed, int style)
{
    s.F.ns = ns;
    s.F.inc_us = inc;
    s.F.format = format;
    s.F.text = "C 1 survey";
    s.F.text.resize(3200, ' ');
    s.F.tr.resize(raw.size());
    for (size_t t = 0; t < raw.size(); t++) {
        auto& T = s.F.tr[t];
        for (size_t b = 0; b < 240; b++) T.h[b] = uint8_t(hash({seed, t, b}));
        ref::put16(&T.h[70], scal);
        static const int loc[] = {73, 77, 81, 85};
        for (int k = 0; k < 4; k++) ref::put32(&T.h[loc[k] - 1], uint32_t(int32_t(raw[t][k])));
        ref::put32(&T.h[188], uint32_t(il[t]));
        ref::put32(&T.h[192], uint32_t(xl[t]));
        T.s.resize(ns);
        for (size_t j = 0; j < ns; j++) T.s[j] = sample_bits(style, seed, t, j);
        s.xs.push_back(ref::decode_float(T.h.data(), 73, 71));
        s.p.push_back({double(float(s.xs[t])), double(float(ref::decode_float(T.h.data(), 77, 71))), double(float(ref::decode_float(T.h.data(), 81, 71))), double(float(ref::decode_float(T.h.data(), 85, 71))), il[t], xl[t]});
        s.order.push_back(t);
    }
    std::stable_sort(s.order.begin(), s.order.end(), [&](size_t a, size_t b) { return s.xs[a] < s.xs[b]; });
}
std::string at(const Pt& p)
{
    std::ostringstream o;
    o << "(" << p.xs << "," << p.ys << " " << p.xr << "," << p.yr << " " << p.il << "/" << p.xl << ")";
    return o.str();
}
}  // namespace

static void prop(Ctx& c)
{
    size_t np = size_t(c.size());
    size_t nt[2];
    for (auto& n : nt) n = c.chance(1, 8) ? c.draw(np + 1) : c.count_in(0, 70, 400);
    size_t ns    = c.size_in(0, 6);
    uint64_t seed = c.bits64();
    int geo      = int(c.draw(5));
    bool verbose = c.chance(1, 4), nodsr = c.chance(1, 3), line = c.chance(1, 3);
    bool tmpdir  = c.flip();
    int scal     = c.pick(std::vector<int>{1, -10, -100, 10, 0});
    double unit  = scal < 0 ? -1. / scal : scal == 0 ? 1. : scal;
    // raw coordinates of both surveys
    int64_t step = c.pick(std::vector<int64_t>{1, 7, 50, 1000}), cable = c.pick(std::vector<int64_t>{0, 3, 400, 20000});
    int64_t base = geo == 4 ? 0 : c.pick(std::vector<int64_t>{0, -900, 40000, 5000000});
    int64_t jit  = c.pick(std::vector<int64_t>{0, 1, 5, 60});
    size_t rev   = c.draw(3);  // none, some, all of the monitor sailed the other way
    int nline    = int(1 + c.draw(4));
    bool shuffle = c.flip();
    Survey S[2];
    for (int f = 0; f < 2; f++) {
        std::vector<std::array<int64_t, 4>> raw(nt[f]);
        std::vector<int> il(nt[f]), xl(nt[f]);
        auto perm = c.permutation(shuffle ? nt[f] : 0);
        for (size_t t = 0; t < nt[f]; t++) {
            size_t i = shuffle ? perm[t] : t;
            auto r = [&](uint64_t k, int64_t n) { return n <= 0 ? 0 : int64_t(hash({seed, uint64_t(f), t, k, 77}) % uint64_t(n)); };
            auto& q = raw[t];
            switch (geo) {
                case 0:  // a line sailed along x towing a cable
                case 1:  // a line sailed along y
                {
                    int64_t a = base + int64_t(i) * step + r(1, 2 * jit + 1) - jit, o = r(2, 2 * jit + 1) - jit;
                    int64_t ar = a + cable + r(3, 2 * jit + 1) - jit, orr = r(4, 2 * jit + 1) - jit;
                    if (geo == 0) q = {a, o, ar, orr};
                    else q = {o, a, orr, ar};
                    break;
                }
                case 2:  // scattered
                    for (int k = 0; k < 4; k++) q[size_t(k)] = base + r(uint64_t(k) + 1, 40 * step);
                    break;
                case 3:  // few places, many ties
                    for (int k = 0; k < 4; k++) q[size_t(k)] = base + step * r(uint64_t(k) + 1, 2);
                    break;
                default:  // sums of whole numbers: exact distances, many ties
                    q = {r(1, 40), 0, r(2, 3) * 30, 0};
            }
            if (f == 1 && (rev == 2 || (rev == 1 && r(9, 2)))) { std::swap(q[0], q[2]); std::swap(q[1], q[3]); }
            il[t] = int(r(10, nline)) - 1;
            xl[t] = int(r(11, 2));
        }
        finish(c, S[f], ns, int(c.range(1, 30000)), c.pick(std::vector<int>{5, 5, 1}), raw, il, xl, scal, seed + uint64_t(f), c.flip() ? S_NORMAL : S_INDEX);
    }
    bool exact = true;
    std::vector<double> best(nt[0], HUGE_VAL);
    std::vector<double> all;
    for (size_t i = 0; i < nt[0]; i++)
        for (size_t j = 0; j < nt[1]; j++) {
            auto &a = S[0].p[i], &b = S[1].p[j];
            double d = dsdr(a, b);
            // whole numbers of modest size, axis-aligned: single precision makes no error
            for (double v : {a.xs - b.xs, a.xr - b.xr, a.xs - b.xr, a.xr - b.xs}) if (v != std::floor(v) || std::fabs(v) > 2000) exact = false;
            for (double v : {a.ys - b.ys, a.yr - b.yr, a.ys - b.yr, a.yr - b.ys}) if (v != 0) exact = false;
            if (line && (a.il != b.il || a.xl != b.xl)) continue;
            best[i] = std::min(best[i], d);
            all.push_back(best[i]);
        }
    std::string lim;
    double dsrmax;
    switch (c.draw(6)) {
        case 0: dsrmax = 1.; break;
        case 1: lim = "0"; break;
        case 2: lim = c.flip() ? "1e30" : "inf"; break;
        default: {
            // some partner's distance, near enough or exactly
            double v = all.empty() ? 3. : all[c.draw(uint64_t(1) << 30) % all.size()];
            if (exact ? c.flip() : true) v *= c.pick(std::vector<double>{1.01, 0.99, 1.5, 3.});
            char b[40];
            snprintf(b, sizeof b, "%.9g", v);
            lim = b;
        }
    }
    if (!lim.empty()) dsrmax = double(float(std::stod(lim)));
    size_t block[3];
    for (auto& b : block) b = c.chance(1, 3) ? 0 : 1 + c.draw(20);
    auto d = sg::fresh_dir(c, "b");
    if (c.rank() == 0) {
        ref::spit(d + "base.sgy", S[0].F.encode());
        ref::spit(d + "mon.sgy", S[1].F.encode());
        if (tmpdir) mkdir((d + "tmp").c_str(), 0700);
    }
    barrier();
    c.desc << "np=" << np << " traces " << nt[0] << "+" << nt[1] << " ns=" << ns << " geometry " << geo << " step " << step << " cable " << cable << " base " << base << " jitter " << jit
           << (rev ? rev == 2 ? " reversed" : " some reversed" : "") << (shuffle ? " shuffled" : "") << " scaler " << scal << " limit '" << lim << "'" << (line ? " -x" : "") << (nodsr ? " -p" : "")
           << (verbose ? tmpdir ? " -v with tmp" : " -v" : "") << " blocks " << block[0] << "," << block[1] << "," << block[2] << " formats " << S[0].F.format << "," << S[1].F.format;
    for (int f = 0; f < 2; f++)
        if (nt[f] <= 6) { c.desc << " survey " << f << ":"; for (auto& p : S[f].p) c.desc << at(p); }
    c.label(std::vector<std::string>{"line-x", "line-y", "scattered", "ties", "exact"}[size_t(geo)]);
    c.label_if(rev > 0, "reversed");
    c.label_if(line, "same-line");
    c.label_if(verbose, "verbose");
    c.label_if(nt[0] < np || nt[1] < np, "process-without-traces");
    c.label_if(nt[0] == 0 || nt[1] == 0, "empty");
    for (int k = 0; k < 3; k++) {
        std::string v = "EXSEISDAT_VERIF_4D_BLOCK" + std::to_string(k + 1);
        if (block[k]) setenv(v.c_str(), std::to_string(block[k]).c_str(), 1);
        else unsetenv(v.c_str());
        c.label_if(block[k] && std::max(nt[0], nt[1]) > block[k] * np, "blocks-" + std::to_string(k + 1));
    }
    std::vector<std::string> a = {"exseis-fourdbin", "-a", d + "base.sgy", "-b", d + "mon.sgy", "-c", d + "base.out", "-d", d + "mon.out"};
    if (!lim.empty()) { a.push_back("-t"); a.push_back(lim); }
    if (line) a.push_back("-x");
    if (nodsr) a.push_back("-p");
    if (verbose) a.push_back("-v");
    std::string out;
    outside.clear();
    c.eq(run_util(c, util_main_fourdbin, a, out), 0, "exit status");
    c.check(outside.empty(), "read " + outside);
    if (c.rank() == 0) {
        ref::File O[2];
        static const char* nm[2] = {"base.out", "mon.out"};
        bool ok = true;
        for (int f = 0; f < 2; f++) {
            ok = ok && c.check(ref::parse(ref::slurp(d + nm[f]), O[f]), std::string(nm[f]) + " is not a whole SEG-Y file");
            if (!ok) break;
            c.eq(O[f].ns, ns, "samples");
            c.eq(O[f].inc_us, S[f].F.inc_us, "interval");
            c.eq(O[f].format, 5, "format");
            c.check(O[f].text.compare(0, 23, "ExSeisDat 4d-bin file.\n") == 0, "text");
        }
        if (ok && c.eq(O[0].tr.size(), O[1].tr.size(), "traces of the two outputs")) {
            double rel = exact ? 0. : 1e-6;
            // what must be kept, and with which partner
            struct Want { size_t i; bool must, may; double lo, hi; };
            std::vector<Want> w;
            size_t musts = 0;
            for (size_t i : S[0].order) {
                Want x{i, false, false, best[i] * (1. - rel), best[i] * (1. + rel)};
                x.must = x.hi <= dsrmax && best[i] < HUGE_VAL;
                x.may  = x.lo <= dsrmax && best[i] < HUGE_VAL;
                if (x.may) w.push_back(x);
                musts += x.must;
            }
            c.label_if(musts > 0, "pairs");
            c.label_if(musts > 0 && musts < nt[0], "some-without-partner");
            c.nontrivial(nt[0] > 1 && nt[1] > 1 && musts > 0);
            auto same_trace = [&](int f, const ref::Trace& T, size_t t) {
                auto& I = S[f].F.tr[t];
                for (size_t b = 0; b < 240; b++)
                    if (T.h[b] != I.h[b] && !(!nodsr && ((b >= 224 && b < 228) || b == 214 || b == 215))) return false;
                for (size_t j = 0; j < ns; j++) {
                    uint32_t u = I.s[j];
                    if (S[f].F.format == 5 ? T.s[j] == u : same_ibm(u, T.s[j])) continue;
                    return false;
                }
                return true;
            };
            size_t k = 0, n = O[0].tr.size();
            for (auto& x : w) {
                bool here = k < n && same_trace(0, O[0].tr[k], x.i);
                if (!here) {
                    if (x.must) { c.fail("trace " + std::to_string(x.i) + " " + at(S[0].p[x.i]) + " of the first survey has a partner at " + std::to_string(best[x.i]) + " (limit " + std::to_string(dsrmax) + "): it is not entry " + std::to_string(k) + " of " + std::to_string(n)); break; }
                    continue;
                }
                // the partner
                size_t q = SIZE_MAX;
                bool known = false;
                for (size_t j : S[1].order) {
                    if (!same_trace(1, O[1].tr[k], j)) continue;
                    known = true;
                    auto &A = S[0].p[x.i], &B = S[1].p[j];
                    if (line && (A.il != B.il || A.xl != B.xl)) continue;
                    if (dsdr(A, B) <= x.hi * (1. + rel)) { q = j; break; }
                }
                if (!known) { c.fail("entry " + std::to_string(k) + " of the second output is no trace of the second survey"); break; }
                if (q == SIZE_MAX) { c.fail("entry " + std::to_string(k) + ": the partner of trace " + std::to_string(x.i) + " " + at(S[0].p[x.i]) + " is not the closest one (" + std::to_string(best[x.i]) + ")"); break; }
                if (exact) {
                    // among equals the first in order
                    size_t first = SIZE_MAX;
                    for (size_t j : S[1].order) {
                        auto &A = S[0].p[x.i], &B = S[1].p[j];
                        if (line && (A.il != B.il || A.xl != B.xl)) continue;
                        if (dsdr(A, B) == best[x.i]) { first = j; break; }
                    }
                    if (!same_trace(1, O[1].tr[k], first)) { c.fail("entry " + std::to_string(k) + ": among the equally near partners of trace " + std::to_string(x.i) + " the choice is not trace " + std::to_string(first)); break; }
                }
                if (!nodsr) {
                    for (int f = 0; f < 2; f++) {
                        auto& h = O[f].tr[k].h;
                        double v = ref::decode_float(h.data(), 225, 215), e = std::max(std::fabs(v), best[x.i]) * 2e-6 + 1e-4 + rel * best[x.i];
                        if (!(std::fabs(v - best[x.i]) <= e)) { c.fail("entry " + std::to_string(k) + " of output " + std::to_string(f) + ": dsdr is " + std::to_string(v) + ", not " + std::to_string(best[x.i])); break; }
                    }
                }
                k++;
                if (c.failed) break;
            }
            if (!c.failed) c.eq(n, k, "entries");
        }
    }
    c.all_ok();
    barrier();
    if (chdir("/") != 0) abort();
    barrier();
    if (c.rank() == 0) sg::rmtree(d);
    barrier();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
