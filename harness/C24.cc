// C24: command-line utilities produce what they say.
#include "setgen.hh"
#include "util.hh"
#include "sortref.hh"

extern "C" {
int util_main_concatenate(int, char**);
int util_main_filemake(int, char**);
int util_main_makerep(int, char**);
int util_main_minmax(int, char**);
int util_main_segsort(int, char**);
int util_main_assess(int, char**);
}


// A utility which ends the program comes back to the harness (linked with --wrap=exit)
#include <csetjmp>
namespace { std::jmp_buf back; bool armed = false; int status = 0; }
extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int rc)
{
    if (!armed) __real_exit(rc);
    armed = false;
    status = rc;
    std::longjmp(back, 1);
}
static int prompted_concatenate(int argc, char** argv)
{
    if (setjmp(back)) return status;
    armed = true;
    int rc = util_main_concatenate(argc, argv);
    armed = false;
    return rc;
}
}

static void same(Ctx& c, const ref::Bytes& got, const ref::Bytes& want, const std::string& what)
{
    if (got == want) return;
    c.fail(what + ": " + hexdiff(got, want));
}
static void done(Ctx& c, const std::string& d)
{
    barrier();
    if (chdir("/") != 0) abort();
    barrier();
    if (c.rank() == 0) sg::rmtree(d);
    barrier();
}

// ---------------------------------------------------------------- concatenate, segsort
static void concatenate(Ctx& c, bool sort)
{
    std::string desc;
    auto in = sg::gen(c, 4, 3, 20, S_ANYBITS, desc);
    auto gs = sg::groups(in);
    auto d  = sg::fresh_dir(c, "u");
    sg::write(c, in, d, c.flip());
    sg::memlimit(gs, c.flip() ? 0 : 1 + c.draw(60));
    auto type = c.pick(srt::types());
    std::string msg = c.flip() ? "" : "C 1 made of " + std::to_string(c.draw(1000)) + " pieces";
    c.desc << (sort ? "segsort type " + std::to_string(int(type)) : "concatenate message '" + msg + "'") << " " << desc;
    size_t total = 0;
    for (auto& g : gs) total += g.ids.size();
    c.nontrivial(total > 2);
    std::vector<std::string> a = {sort ? "exseis-segsort" : "exseis-concatenate", "-i", in.pattern, "-o", d + "out_"};
    if (sort) { a.push_back("-t"); a.push_back(std::to_string(int(type))); }
    else if (!msg.empty()) { a.push_back("-m"); a.push_back(msg); }
    // asked beforehand, the answer is given to the first process only (a refusal leaves
    // the input files open in this process, so there are only some)
    static int refusals = 0;
    int asked = sort || !c.chance(1, 3) ? 0 : c.chance(1, 6) && refusals < 12 ? 2 : 1;
    std::istringstream answer(asked == 1 ? c.pick(std::vector<std::string>{"y", "y\n", "  y\n", "yes\n", "\ny\n"}) : c.pick(std::vector<std::string>{"n\n", "n", "N\n", "", "no\n", "0\n"}));
    if (asked) {
        size_t k = 1 + c.draw(a.size() / 2 + 1) * 2;
        a.insert(a.begin() + std::ptrdiff_t(std::min(k, a.size())), "-p");
        c.desc << (asked == 1 ? " accepted" : " refused");
        c.label(asked == 1 ? "accepted" : "refused");
    }
    std::string out;
    std::streambuf* cin = c.rank() == 0 ? std::cin.rdbuf(answer.rdbuf()) : nullptr;
    int rc = run_util(c, sort ? util_main_segsort : asked ? prompted_concatenate : util_main_concatenate, a, out);
    if (cin) { std::cin.rdbuf(cin); std::cin.clear(); }
    c.eq(rc, 0, "exit status");
    if (asked && c.rank() == 0) {
        c.check(out.find("(y/n)") != std::string::npos, "nothing is asked: " + out.substr(0, 200));
        for (auto& n : in.names) c.check(out.find(d + n + "\n") != std::string::npos, "the file " + n + " is not told of before the question");
    }
    if (asked == 2) {
        refusals++;
        if (c.rank() == 0) for (auto& n : sg::listing(d)) c.check(n.compare(0, 4, "out_") != 0, "an output is written all the same: " + n);
        done(c, d);
        return;
    }
    if (c.rank() == 0) {
        auto m = sg::outputs(c, d, gs);
        for (auto& x : m) {
            auto& g = gs[x.first];
            auto& F = x.second.second;
            if (!c.eq(F.tr.size(), g.ids.size(), "traces of " + x.second.first)) break;
            c.eq(F.format, 5, "format of the output");
            std::string want = sort ? "ExSeisPIOL: Set layer output\n" : msg.empty() ? "Concatenated with ExSeisPIOL" : msg;
            c.check(F.text.compare(0, want.size(), want) == 0 && F.text.find_first_not_of('\0', want.size()) == std::string::npos, "text of the output: '" + F.text.substr(0, 60) + "'");
            auto try_order = [&](const std::vector<sg::Id>& ids) {
                for (size_t k = 0; k < ids.size(); k++) {
                    auto& T = in.files[ids[k].f].tr[ids[k].t];
                    if (F.tr[k].s != T.s) return false;
                }
                return true;
            };
            bool ok;
            std::vector<sg::Id> ids = g.ids;
            if (sort) {
                ids = sg::sorted(in, g.ids, type);
                ok  = try_order(ids);
                if (!ok) { auto i2 = sg::sorted(in, sg::interleaved(g), type); ok = try_order(i2); if (ok) ids = i2; }
            }
            else ok = try_order(ids);
            c.check(ok, x.second.first + ": the samples are not those of the input traces in " + (sort ? "sorted" : "the files'") + " order");
            for (size_t k = 0; k < ids.size() && ok && !c.failed; k++) {
                auto& h = in.files[ids[k].f].tr[ids[k].t].h;
                for (auto& f : ref::fields()) {
                    if (f.meta > 31) continue;
                    auto& q = F.tr[k].h;
                    bool eq = f.type == ref::SHORT ? ref::get16(&q[f.loc - 1]) == ref::get16(&h[f.loc - 1])
                            : f.type == ref::LONG  ? ref::get32(&q[f.loc - 1]) == ref::get32(&h[f.loc - 1]) : true;
                    c.check(eq, x.second.first + " trace " + std::to_string(k) + ": header field " + f.name);
                }
                auto a1 = sg::get_keys(h), b1 = sg::get_keys(F.tr[k].h);
                c.check(a1.xs == b1.xs && a1.ys == b1.ys && a1.xr == b1.xr && a1.yr == b1.yr, x.second.first + " trace " + std::to_string(k) + ": coordinates");
            }
        }
    }
    done(c, d);
}

// ---------------------------------------------------------------- filemake
static void filemake(Ctx& c)
{
    // 1 MiB of memory: (240 + 8 ns + 8) bytes per trace
    size_t ns, nt;
    bool big = c.chance(1, 6);
    if (big) { ns = c.pick(std::vector<size_t>{4000, 12000, 32767, 20000}); nt = c.size_in(0, 400000 / ns); c.label("filemake-blocks"); }
    else { ns = 1 + c.size_in(0, 60); nt = c.count_in(0, 60, 3000); }
    double inc = c.pick(std::vector<double>{0.004, 0.002, 0.001, 0.0005, 0.000001, 0.032767, 0.0123});
    bool lob = c.chance(1, 3), rnd = c.chance(1, 3);
    auto name = c.path("made");
    c.desc << "filemake ns " << ns << " nt " << nt << " inc " << inc << (lob ? " lobsided" : "") << (rnd ? " random" : "");
    c.label_if(lob, "lobsided");
    c.label_if(rnd, "random");
    c.nontrivial(nt > 1);
    std::vector<std::string> a = {"exseis-filemake", "-o", name, "-s", std::to_string(ns), "-t", std::to_string(nt), "-m", "1", "-i", [&] { char b[32]; snprintf(b, 32, "%.6f", inc); return std::string(b); }()};
    if (lob) a.push_back("-l");
    if (rnd) a.push_back("-r");
    std::string out;
    c.eq(run_util(c, util_main_filemake, a, out), 0, "exit status");
    if (c.rank() == 0) {
        auto b = ref::slurp(name);
        ref::File F;
        bool whole = ref::parse(b, F);
        // a file of no traces and no samples still has its header
        c.check(whole, "not a whole SEG-Y file: " + std::to_string(b.size()) + " bytes");
        if (whole) {
            c.eq(F.ns, ns, "samples");
            c.eq(F.tr.size(), nt, "traces");
            c.eq(F.inc_us, int(std::lround(inc * 1e6)), "interval");
            c.eq(F.format, 5, "format");
            c.check(F.text.compare(0, 10, "Test file\n") == 0, "text");
            long half = long(nt / 2);
            float fh = float(nt * ns) / 2.0f, off = float(nt * ns) / 4.0f;
            for (size_t t = 0; t < F.tr.size() && !c.failed; t++) {
                auto& h = F.tr[t].h;
                long k  = half - std::labs(long(t) - half);
                struct { const char* n; int loc; bool fl; double v; } w[] = {{"xSrc", 73, true, 1600. + k}, {"ySrc", 77, true, 2400. + k}, {"xRcv", 81, true, 100000. + k}, {"yRcv", 85, true, 3000000. + k},
                    {"xCmp", 181, true, 10000. + k}, {"yCmp", 185, true, 4000. + k}, {"il", 189, false, 2400. + k}, {"xl", 193, false, 1600. + k}, {"tn", 5, false, double(t)}};
                for (auto& x : w) {
                    double g = x.fl ? ref::decode_float(h.data(), x.loc, 71) : double(ref::get32(&h[x.loc - 1]));
                    if (g != x.v) { c.fail("trace " + std::to_string(t) + ": " + x.n + " is " + std::to_string(g) + ", not " + std::to_string(x.v)); break; }
                }
                for (size_t j = 0; j < ns && !c.failed; j++) {
                    float v = fh - std::fabs(float(t * ns + j) - fh) - off;
                    float g = ref::u2f(F.tr[t].s[j]);
                    if (!(std::fabs(g - v) <= 1e-6 * fh)) c.fail("sample " + std::to_string(j) + " of trace " + std::to_string(t) + " is " + std::to_string(g) + ", not " + std::to_string(v));
                }
            }
        }
    }
    drop(name);
}

// ---------------------------------------------------------------- makerep
static void makerep(Ctx& c)
{
    const char* ways[] = {"standard", "naive1", "naive2"};
    int way = int(c.draw(3));
    size_t rep = 1 + c.draw(5);
    // sizes in bytes, the replicator works by blocks of a file system
    size_t block = 2097152, mem = 0;
    {
        static const size_t bs[] = {2097152, 4096, 5000, 8192, 3600, 10000};
        block = bs[c.draw(6)];
        mem   = block * (1 + c.draw(8));
        if (block > 100000) mem = 512 * block;
    }
    size_t ns = c.size_in(0, 40), nt = c.count_in(0, 60, 1000);
    if (c.chance(1, 3)) { ns = 200 + c.draw(800); nt = c.draw(60); }
    if (block > 100000 && c.chance(1, 4)) { ns = 1000 + c.draw(2000); nt = c.draw(1500); c.label("makerep-large"); }
    uint64_t seed = c.bits64();
    ref::File F;
    F.ns = ns;
    F.inc_us = int(c.range(1, 30000));
    F.text = "C 1 payload to repeat";
    F.text.resize(3200, ' ');
    F.tr.resize(nt);
    for (size_t t = 0; t < nt; t++) {
        for (size_t b = 0; b < 240; b++) F.tr[t].h[b] = raw_byte(seed, 0, t, b);
        F.tr[t].s.resize(ns);
        for (size_t j = 0; j < ns; j++) F.tr[t].s[j] = sample_bits(S_ANYBITS, seed, t, j);
    }
    auto b    = F.encode();
    auto name = c.path("in"), o = c.path("out");
    c.desc << "makerep " << ways[way] << " of " << b.size() << " bytes " << rep << " times, blocks of " << block << ", steps of " << mem;
    c.label(std::string("makerep-") + ways[way]);
    c.label_if(b.size() > mem * size_t(c.size()), "makerep-steps");
    c.label_if(b.size() > block, "makerep-blocks");
    c.nontrivial(nt > 1 && rep > 1);
    if (c.rank() == 0) ref::spit(name, b);
    barrier();
    setenv("EXSEISDAT_VERIF_BLOCK", std::to_string(block).c_str(), 1);
    setenv("EXSEISDAT_VERIF_MEMLIM", std::to_string(mem).c_str(), 1);
    std::string out;
    c.eq(run_util(c, util_main_makerep, {"exseis-makerep", "-i", name, "-o", o, "-v", ways[way], "-r", std::to_string(rep)}, out), 0, "exit status");
    unsetenv("EXSEISDAT_VERIF_BLOCK");
    unsetenv("EXSEISDAT_VERIF_MEMLIM");
    if (c.rank() == 0) {
        ref::Bytes want = b;
        for (size_t r = 1; r < rep; r++) want.insert(want.end(), b.begin() + 3600, b.end());
        same(c, ref::slurp(o), want, "the replicated file");
    }
    drop(name);
    drop(o);
}

// ---------------------------------------------------------------- minmax
static void minmax(Ctx& c)
{
    size_t nt = c.count_in(0, 40, 2000), ns = c.size_in(0, 6);
    uint64_t seed = c.bits64();
    int style = int(c.draw(4));
    ref::File F;
    F.ns = ns;
    F.inc_us = int(c.range(1, 30000));
    F.text = "C 1 extremes";
    F.text.resize(3200, ' ');
    F.tr.resize(nt);
    static const int loc[] = {73, 77, 81, 85, 181, 185};
    for (size_t t = 0; t < nt; t++) {
        auto& h = F.tr[t].h;
        ref::put16(&h[70], style == 3 ? -100 : style == 2 ? 10 : 1);
        for (int k = 0; k < 6; k++) {
            int64_t v = int64_t(hash({seed, t, uint64_t(k)}) % (style == 0 ? 3 : 2000001)) - (style == 0 ? 1 : 1000000);
            if (style == 1) v = 1000 + int64_t(t);
            ref::put32(&h[loc[k] - 1], uint32_t(int32_t(v)));
        }
        ref::put32(&h[36], uint32_t(t)); ref::put32(&h[188], uint32_t(7 * t)); ref::put32(&h[192], uint32_t(5 * t));
        ref::put32(&h[4], 999);
        F.tr[t].s.assign(ns, 0x40490fdb);
    }
    auto name = c.path("in"), o = c.path("out");
    c.desc << "minmax of " << nt << " traces, style " << style;
    c.nontrivial(nt > 2);
    if (c.rank() == 0) ref::spit(name, F.encode());
    barrier();
    std::string out;
    c.eq(run_util(c, util_main_minmax, {"exseis-minmax", "-i", name, "-o", o}, out), 0, "exit status");
    if (c.rank() == 0) {
        ref::File R;
        bool ok = ref::parse(ref::slurp(o), R);
        c.check(ok, "the answer is not a whole SEG-Y file");
        if (ok && nt == 0) c.eq(R.tr.size(), size_t(0), "traces named of a file without traces");
        if (ok && nt > 0 && c.eq(R.tr.size(), size_t(12), "traces of the answer")) {
            c.eq(R.ns, size_t(1), "samples of the answer");
            c.eq(R.inc_us, F.inc_us, "interval of the answer");
            for (size_t i = 0; i < 12; i++) {
                auto& h  = R.tr[i].h;
                int k    = int(i) / 4 * 2 + (i % 4) / 2;
                bool max = i % 2;
                size_t n = size_t(uint32_t(ref::get32(&h[4])));
                c.eq(R.tr[i].s[0], 0x3f800000u, "the sample of entry " + std::to_string(i));
                if (!c.check(n < nt, "entry " + std::to_string(i) + " names no trace: " + std::to_string(n))) break;
                double best = ref::decode_float(F.tr[0].h.data(), loc[k], 71);
                for (size_t t = 1; t < nt; t++) { double v = ref::decode_float(F.tr[t].h.data(), loc[k], 71); best = max ? std::max(best, v) : std::min(best, v); }
                c.eq(ref::decode_float(F.tr[n].h.data(), loc[k], 71), best, std::string(max ? "largest" : "smallest") + " value of coordinate " + std::to_string(k));
                for (int q = 0; q < 6; q++) c.eq(ref::decode_float(h.data(), loc[q], 71), ref::decode_float(F.tr[n].h.data(), loc[q], 71), "coordinate " + std::to_string(q) + " of the trace named by entry " + std::to_string(i));
                c.eq(ref::get32(&h[188]), ref::get32(&F.tr[n].h[188]), "in-line of the trace named by entry " + std::to_string(i));
            }
        }
    }
    drop(name);
    drop(o);
}
// ---------------------------------------------------------------- assess
static void assess(Ctx& c)
{
    std::string desc;
    auto in = sg::gen(c, 4, 3, 6, S_INDEX, desc);
    auto d  = sg::fresh_dir(c, "a");
    sg::write(c, in, d, c.flip());
    c.desc << "assess " << desc;
    c.nontrivial(in.files.size() > 1);
    std::string out;
    c.eq(run_util(c, util_main_assess, {"exseis-assess", in.pattern}, out), 0, "exit status");
    size_t at = 0;
    for (size_t f = 0; f < in.files.size(); f++) {
        auto& F = in.files[f];
        auto find = [&](const std::string& s) { size_t p = out.find(s, at); if (p == std::string::npos) { c.fail("'" + s + "' is not told of file " + std::to_string(f)); return; } at = p; };
        std::ostringstream inc;
        inc << 1e-6 * F.inc_us;
        find("File: " + d + in.names[f] + "\n");
        find("Ns: " + std::to_string(F.ns) + "\n");
        find("Nt: " + std::to_string(F.tr.size()) + "\n");
        find("Inc: " + inc.str() + "\n");
    }
    for (size_t f = 0; f < in.files.size(); f++) c.check(out.find(in.files[f].text.substr(0, 20)) != std::string::npos, "the text of file " + std::to_string(f) + " is not told");
    size_t n = 0;
    for (size_t p = out.find("File: "); p != std::string::npos; p = out.find("File: ", p + 1)) n++;
    c.eq(n, in.files.size(), "files told of");
    done(c, d);
}

static void prop(Ctx& c)
{
    c.desc << "np=" << c.size() << " ";
    switch (c.draw(9)) {
        case 8: c.label("assess"); assess(c); return;
        case 7: c.label("concatenate"); concatenate(c, false); return;
        case 6: c.label("segsort"); concatenate(c, true); return;
        case 5: case 4: c.label("minmax"); minmax(c); return;
        case 3: case 2: c.label("filemake"); filemake(c); return;
        default: c.label("makerep"); makerep(c); return;
    }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
