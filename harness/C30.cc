// C30: working memory follows the limit and the request, not the size of the data.
// The C++ allocations of the whole program are counted; their highest point during a call is compared with
// what the call may hold: the block limit (or what it transfers) and a few words per trace.
#include "setgen.hh"
#include "util.hh"
#include "ExSeisDat/Flow.hh"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include <malloc.h>
#include <fcntl.h>
#include <new>
namespace PU = EP::param_utils;
extern "C" int util_main_filemake(int, char**);

static long bytes = 0, peak = 0;
static void* take(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    bytes += long(malloc_usable_size(p));
    if (bytes > peak) peak = bytes;
    return p;
}
static void give(void* p)
{
    if (!p) return;
    bytes -= long(malloc_usable_size(p));
    free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

struct Meter {
    long base;
    Meter() : base(bytes) { peak = bytes; }
    size_t used() const { return size_t(peak - base); }
};
struct Quiet {
    std::ostringstream s;
    std::streambuf* o;
    Quiet() : o(std::cout.rdbuf(s.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); }
};
static const size_t KB = 1024;
static size_t tightest = 0;  // per mille of the bound used, at most
static void within(Ctx& c, size_t used, size_t bound, size_t whole, const std::string& what)
{
    if (getenv("C30_SHOW") && c.rank() == 0) fprintf(stderr, "USED %s %zu of %zu (whole %zu) %s\n", what.c_str(), used, bound, whole, c.desc.str().c_str());
    tightest = std::max(tightest, used * 1000 / bound);
    if (used > bound) c.fail(what + ": " + std::to_string(used) + " bytes in use at once; bound " + std::to_string(bound) + ", data of a process " + std::to_string(whole));
}

/// A file written a trace at a time
template<class H> static void stream(const std::string& name, size_t ns, int inc, size_t nt, H head)
{
    ref::File F;
    F.text.assign(3200, ' ');
    F.ns = ns;
    F.inc_us = inc;
    auto b = F.encode();
    int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (write(fd, b.data(), b.size()) < 0) abort();
    std::vector<uint8_t> t(240 + 4 * ns);
    for (size_t i = 0; i < nt; i++) {
        std::fill(t.begin(), t.begin() + 240, 0);
        ref::put16(&t[70], 1);
        ref::put16(&t[68], 1);
        head(i, t.data());
        for (size_t j = 0; j < ns; j++) { uint32_t u = ref::f2u(float((i * 7 + j) % 100) + 1.f); ref::put32(&t[240 + 4 * j], u); }
        if (write(fd, t.data(), t.size()) < 0) abort();
    }
    close(fd);
}

// ------------------------------------------------------------------ data sets
static float level(const float*, size_t, float t, size_t) { return t; }
static void a_set(Ctx& c)
{
    size_t ns = 4000 + c.draw(8000), nf = 1 + c.draw(3), P = size_t(c.size());
    size_t per = P * (30 + c.draw(30));  // traces of a file
    if (nf == 1) per *= 2;
    size_t dosz = 240 + 4 * ns, block = 3 + c.draw(6);
    struct O { int k; size_t a, b; };
    std::vector<O> ops;
    size_t no = c.draw(4);
    c.desc << "set of " << nf << " files of " << per << " traces of " << ns << " samples, limit " << block << " traces;";
    for (size_t i = 0; i < no; i++) {
        O o{int(c.draw(6)), c.draw(9), c.draw(100)};
        ops.push_back(o);
        c.desc << " " << o.k << "/" << o.a << "/" << o.b;
    }
    bool spread = c.flip();
    uint64_t seed = c.draw(1u << 16);
    auto dir = sg::fresh_dir(c, "mem");
    if (c.rank() == 0)
        for (size_t f = 0; f < nf; f++)
            stream(dir + "in_" + std::to_string(f) + ".segy", ns, 1000, per, [&](size_t i, uint8_t* h) {
                ref::put32(h + 72, uint32_t(hash({seed, f, i}) % (spread ? 1000000 : 3)));
                ref::put32(h + 188, uint32_t(hash({seed, f, i, 1}) % 50));
            });
    barrier();
    size_t keep = EF::verif_memlim;
    // what the limit counts for one trace: in, out and as it is stored
    size_t lim = EF::verif_memlim = block * (dosz + 2 * 4 * ns + 1200);
    size_t used;
    std::vector<std::string> out;
    {
        Quiet q;
        auto piol = new_piol();
        Meter m;
        {
            EF::Set s(piol, dir + "in_*");
            for (auto& o : ops) switch (o.k) {
                case 0: s.sort(srt::types()[o.a]); break;
                case 1: s.taper(exseis::utils::linear_taper, 1 + o.b, o.a); break;
                case 2: s.AGC(level, 1 + o.a, 2.f); break;
                case 3: s.temporalFilter(EP::FltrType::Lowpass, EP::FltrDmn::Time, EP::PadType::Symmetric, 1000, 2, std::vector<float>{200, 0}); break;
                case 4: s.temporalFilter(EP::FltrType::Highpass, EP::FltrDmn::Freq, EP::PadType::Zero, 1000, 2, std::vector<float>{0, 200}); break;
                default: { std::vector<EP::CoordElem> mm(4); s.getMinMax(PIOL_META_xSrc, PIOL_META_ySrc, mm.data()); }
            }
            out = s.output(dir + "o");
        }
        used = m.used();
        c.check(!is_err(piol), "an error was recorded");
    }
    EF::verif_memlim = keep;
    // the blocks of the limit with their copies, a few traces, and words for each trace of all headers
    // (small problems are sorted on one process)
    within(c, used, 2 * lim + 8 * dosz + 2000 * nf * per + 200 * KB, nf * per / P * dosz, "data set");
    size_t got = 0;
    for (auto& o : out) { struct stat st; if (stat(o.c_str(), &st) == 0) got += (size_t(st.st_size) - 3600) / dosz; }
    c.eq(got, nf * per, "traces of the output");
    c.nontrivial(true);
    c.label("set");
    c.label_if(nf > 1, "several files");
    if (chdir("/") != 0) c.fail("chdir");
    barrier();
    if (c.rank() == 0) sg::rmtree(dir);
    barrier();
}

// -------------------------------------------------------------------- gathers
static void a_gather(Ctx& c)
{
    size_t ns = 2000 + c.draw(3000), P = size_t(c.size()), gs = 1 + c.draw(4), ng = P * (20 + c.draw(40)), angles = 1 + c.draw(4);
    size_t dosz = 240 + 4 * ns;
    c.desc << "angles of " << ng << " gathers of " << gs << " traces of " << ns << " samples, " << angles << " of each";
    auto dir = sg::fresh_dir(c, "memg");
    if (c.rank() == 0) {
        stream(dir + "in_0.segy", ns, 1000, ng * gs, [&](size_t i, uint8_t* h) { ref::put32(h + 188, uint32_t(1 + i / gs)); ref::put32(h + 192, 1); });
        stream(dir + "vel.segy", 4, 1000, ng, [&](size_t i, uint8_t* h) { ref::put32(h + 188, uint32_t(1 + i)); ref::put32(h + 192, 1); });
    }
    barrier();
    size_t used, keep = EF::verif_memlim;
    // what remains after the gathers are made is a copy in blocks of the limit
    size_t lim = EF::verif_memlim = (2 + c.draw(6)) * (dosz + 2 * 4 * ns + 1200);
    {
        Quiet q;
        auto piol = new_piol();
        Meter m;
        {
            EF::Set s(piol, dir + "in_*");
            s.toAngle(dir + "vel.segy", 1, angles, 0.01);
            s.output(dir + "o");
        }
        used = m.used();
    }
    EF::verif_memlim = keep;
    within(c, used, 2 * lim + 6 * (gs + angles) * dosz + 3000 * ng * gs + 200 * KB, ng * gs / P * dosz, "gathers");
    c.nontrivial(true);
    c.label("gathers");
    if (chdir("/") != 0) c.fail("chdir");
    barrier();
    if (c.rank() == 0) sg::rmtree(dir);
    barrier();
}

// ------------------------------------------------------- a very large file
static void a_large(Ctx& c)
{
    size_t ns = 1 + c.draw(2000), dosz = 240 + 4 * ns;
    size_t nt = (size_t(1) << (22 + c.draw(8))) / dosz * c.pick(std::vector<size_t>{1, 3, 40});
    std::string name = c.path("large.segy");
    bool make = c.flip();
    c.desc << "file of " << nt << " traces of " << ns << " samples" << (make ? ", written" : "") << ";";
    if (c.rank() == 0) {
        unlink(name.c_str());
        if (!make) {
            stream(name, ns, 1000, 0, [](size_t, uint8_t*) {});
            if (truncate(name.c_str(), off_t(3600 + nt * dosz)) != 0) nt = 0;
        }
    }
    MPI_Bcast(&nt, sizeof nt, MPI_BYTE, 0, MPI_COMM_WORLD);
    barrier();
    auto io = gen_io(c, 100 * KB);
    io.maxSize = std::max<size_t>(io.maxSize, 1000);
    auto piol = new_piol();
    auto some = [&](size_t& off, size_t& n) {
        n = std::min<size_t>(nt, c.count_in(0, 20, 200));
        off = nt > n ? c.bits64() % (nt - n + 1) : 0;
        c.desc << " " << off << "+" << n;
    };
    // one after the other, or spread over the file
    auto listed = [&](size_t off, size_t n) {
        std::vector<size_t> l(n);
        bool far = n > 1 && c.flip();
        for (size_t i = 0; i < n; i++) l[i] = far ? nt / n * i + off % (nt / n) : off + i;
        if (far) c.desc << " spread", c.label("spread list");
        return l;
    };
    auto cost = [&](size_t n, bool samples) { return (samples ? 12 * n * dosz : 0) + 3000 * n + 100 * KB; };
    size_t steps = 1 + c.draw(5);
    if (make) {
        Meter m;
        size_t most = 0;
        bool with   = false;
        {
            auto w = open_write(piol, name, io);
            w->writeNs(ns);
            w->writeNt(nt);
            w->writeInc(0.001);
            for (size_t s = 0; s < steps; s++) {
                size_t off, n;
                int k = int(c.draw(3));
                some(off, n);
                most = std::max(most, n);
                with |= k != 2;
                Fv t(k != 2 ? n * ns : 0, 1.f);
                EP::Param p(n);
                auto l = listed(off, n);
                if (k == 0) w->writeTrace(off, n, t.data(), &p);
                else if (k == 1) w->writeTraceNonContiguous(n, l.data(), t.data());
                else w->writeParamNonContiguous(n, l.data(), &p);
            }
        }
        within(c, m.used(), cost(most, with), nt * dosz, "writing");
    }
    else {
        Meter m;
        auto r = open_read(piol, name, io);
        c.eq(r->readNt(), nt, "number of traces");
        within(c, m.used(), cost(0, false), nt * dosz, "opening");
        for (size_t s = 0; s < steps; s++) {
            size_t off, n;
            int k = int(c.draw(5));
            some(off, n);
            Meter q;
            Fv t(k != 2 && k != 3 ? n * ns : 0, 1.f);
            EP::Param p(n);
            auto l = listed(off, n);
            if (k == 4) std::reverse(l.begin(), l.end());
            if (k == 0) r->readTrace(off, n, t.data(), &p);
            else if (k == 1) r->readTraceNonContiguous(n, l.data(), t.data());
            else if (k == 2) r->readParamNonContiguous(n, l.data(), &p);
            else if (k == 3) r->readParam(off, n, &p);
            else r->readTraceNonMonotonic(n, l.data(), t.data(), &p);
            within(c, q.used(), cost(n, k != 2 && k != 3), nt * dosz, "reading");
        }
    }
    c.check(!is_err(piol), "an error was recorded");
    c.nontrivial(nt * dosz > (size_t(1) << 22));
    c.label("large file");
    barrier();
    if (c.rank() == 0) unlink(name.c_str());
    barrier();
}

// ------------------------------------------------------------------- filemake
static void a_make(Ctx& c)
{
    size_t ns = 4000 + c.draw(20000), P = size_t(c.size()), nt = P * 8000000 / (4 * ns + 240);
    bool lob = c.chance(1, 3), rnd = c.flip();
    auto name = c.path("made.segy");
    c.desc << "filemake ns " << ns << " nt " << nt << (lob ? " lobsided" : "") << (rnd ? " random" : "");
    if (c.rank() == 0) unlink(name.c_str());
    barrier();
    std::vector<std::string> a = {"exseis-filemake", "-o", name, "-s", std::to_string(ns), "-t", std::to_string(nt), "-m", "1", "-i", "0.001"};
    if (lob) a.push_back("-l");
    if (rnd) a.push_back("-r");
    std::string out;
    Meter m;
    c.eq(run_util(c, util_main_filemake, a, out), 0, "exit status");
    // the blocks, and the writer's copy of one
    within(c, m.used(), 3 << 20, nt / P * (240 + 4 * ns), "filemake");
    c.nontrivial(true);
    c.label("filemake");
    barrier();
    if (c.rank() == 0) unlink(name.c_str());
    barrier();
}
static void prop(Ctx& c)
{
    int w = int(c.draw(20));
    if (w < 9) a_set(c);
    else if (w < 12) a_gather(c);
    else if (w < 19) a_large(c);
    else a_make(c);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
