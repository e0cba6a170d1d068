// C22: damaged input never crashes the reader or corrupts memory.
#include "common.hh"
#include "util.hh"
#include "setgen.hh"
#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/Logger.hh"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include <dirent.h>
#include <fcntl.h>

extern "C" int util_main_minmax(int, char**);
extern "C" int util_main_versort(int, char**);

/// Bytes of a file, followed by zeros (a hole) up to its size
struct Image {
    ref::Bytes b;
    uint64_t size = 0;
    uint8_t at(uint64_t i) const { return i < b.size() ? b[i] : 0; }
    void get(uint64_t i, size_t n, uint8_t* o) const { for (size_t k = 0; k < n; k++) o[k] = at(i + k); }
    int u16(uint64_t i) const { return at(i) << 8 | at(i + 1); }
    size_t ns() const { return size < 3600 ? 0 : size_t(u16(3220)); }
    int inc() const { return size < 3600 ? 0 : int(int16_t(u16(3216))); }
    int format() const { return size < 3600 ? 0 : int(int16_t(u16(3224))); }
    uint64_t dosz() const { return 240 + 4 * uint64_t(ns()); }
    uint64_t nt() const { return size < 3600 ? 0 : (size - 3600) / dosz(); }
    std::array<uint8_t, 240> head(uint64_t t) const { std::array<uint8_t, 240> h; get(3600 + t * dosz(), 240, h.data()); return h; }
    uint32_t samp(uint64_t t, size_t j) const { uint8_t w[4]; get(3600 + t * dosz() + 240 + 4 * j, 4, w); return ref::getu32(w); }
};
static void put(Ctx& c, const std::string& name, const Image& im)
{
    if (c.rank() == 0) {
        ref::spit(name, im.b);
        if (truncate(name.c_str(), off_t(im.size)) != 0) abort();
    }
    barrier();
}
static double ibm(uint32_t w)
{
    double m = double(w & 0xffffff);
    int e    = int((w >> 24) & 127) - 64;
    double v = std::ldexp(m, 4 * e - 24);
    return w >> 31 ? -v : v;
}
static size_t reports(const std::shared_ptr<EP::ExSeis>& p)
{
    size_t n = 0;
    for (auto& i : p->log->loglist()) n += i.stat == EP::Logger::Status::Error || i.stat == EP::Logger::Status::Warning;
    return n;
}

// --------------------------------------------------------- generation
static ref::File gen_base(Ctx& c)
{
    ref::File f;
    uint64_t seed = c.bits64();
    f.ns     = c.size_in(0, 30);
    f.inc_us = int(c.range(0, 5000));
    f.format = c.chance(1, 3) ? 1 : 5;
    size_t nt = c.size_in(0, 16);
    for (size_t i = 0; i < 3200; i++) f.text[i] = char("C 12 A"[hash({seed, i}) % 6]);
    f.tr.resize(nt);
    int hs = int(c.draw(3));
    for (size_t t = 0; t < nt; t++) {
        if (hs == 1) for (size_t b = 0; b < 240; b++) f.tr[t].h[b] = raw_byte(seed, 1, t, b);
        if (hs == 2) {
            for (auto& e : ref::fields()) ref_put(f.tr[t].h, e, int64_t(hash({seed, t, uint64_t(e.meta)}) % 1000));
            ref::put32(&f.tr[t].h[188], uint32_t(1 + t / 4)); ref::put32(&f.tr[t].h[192], uint32_t(1 + t % 4));
        }
        f.tr[t].s.resize(f.ns);
        for (size_t j = 0; j < f.ns; j++) f.tr[t].s[j] = sample_bits(S_ANYBITS, seed, t, j);
    }
    return f;
}
static int odd16(Ctx& c)
{
    static const int v[] = {0, 1, 2, 0x7f, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfffe, 60, 61};
    return c.flip() ? int(c.draw(65536)) : v[c.draw(sizeof(v) / sizeof(v[0]))];
}
static uint32_t odd32(Ctx& c)
{
    static const uint32_t v[] = {0, 1, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0x7ffffffeu, 65536, 0xffff0000u};
    return c.flip() ? uint32_t(c.bits64()) : v[c.draw(sizeof(v) / sizeof(v[0]))];
}
/// One damage; returns its name
static const char* damage(Ctx& c, Image& im)
{
    auto& b = im.b;
    auto pos = [&](size_t n) { return b.size() <= n ? 0 : c.size_in(0, b.size() - n); };
    switch (c.draw(15)) {
        case 0: case 1: {  // cut at a position, often near the end of something
            size_t ds = im.ns() * 4 + 240, n = 0;
            switch (c.draw(4)) {
                case 0: n = pos(0); break;
                case 1: { static const size_t e[] = {0, 1, 400, 3199, 3200, 3201, 3599, 3600, 3601, 3839, 3840, 3841}; n = e[c.draw(12)]; break; }
                case 2: n = 3600 + ds * c.size_in(0, 17) + c.size_in(0, 4); break;
                default: n = 3600 + ds * c.size_in(0, 17) - c.size_in(0, 4); break;
            }
            b.resize(std::min(n, b.size()));
            return "cut";
        }
        case 2: {
            size_t n = c.flip() ? c.size_in(1, 8) : c.size_in(1, 2000);
            uint64_t s = c.bits64();
            for (size_t i = 0; i < n; i++) b.push_back(uint8_t(hash({s, i})));
            return "extended";
        }
        case 3: {
            size_t n = c.size_in(1, 300), p = pos(n);
            uint64_t s = c.bits64();
            for (size_t i = 0; i < n && p + i < b.size(); i++) b[p + i] = uint8_t(hash({s, i}));
            return "overwritten";
        }
        case 4: if (b.size() >= 3600) ref::put16(&b[3220], odd16(c)); return "ns";
        case 5: if (b.size() >= 3600) ref::put16(&b[3216], odd16(c)); return "interval";
        case 6: if (b.size() >= 3600) ref::put16(&b[3224], c.flip() ? int(c.draw(17)) : odd16(c)); return "format";
        case 7: if (b.size() >= 3600) ref::put16(&b[3200 + 2 * c.draw(200)], odd16(c)); return "file-header";
        case 8: if (b.size() >= 3600) { ref::put16(&b[3504], odd16(c)); ref::put16(&b[3502], odd16(c)); } return "extended-text";
        case 9: if (b.size() >= 3200) { uint64_t s = c.bits64(); int k = int(c.draw(3)); for (size_t i = 0; i < 3200; i++) b[i] = k == 0 ? uint8_t(hash({s, i})) : k == 1 ? 0 : uint8_t(0x40); } return "text";
        case 10: case 11: {  // fields of trace headers
            if (im.size >= 3840 || b.size() >= 3840) {
                Image v = im; v.size = b.size();
                size_t n = c.size_in(1, 6);
                uint64_t k = v.nt();
                for (size_t i = 0; i < n; i++) {
                    uint64_t t = k ? c.draw(k) : 0;
                    auto& f = ref::fields()[c.draw(ref::NFIELDS)];
                    uint8_t* h = &b[3600 + t * v.dosz()];
                    if (3600 + t * v.dosz() + 240 > b.size()) continue;
                    if (f.type == ref::SHORT) ref::put16(h + f.loc - 1, odd16(c));
                    else ref::put32(h + f.loc - 1, odd32(c));
                    if (f.scal) ref::put16(h + f.scal - 1, odd16(c));
                }
            }
            return "trace-header";
        }
        case 12: {  // a piece repeated or taken out
            size_t n = c.size_in(1, 500), p = pos(n);
            n = std::min(n, b.size() - p);
            if (c.flip()) b.erase(b.begin() + long(p), b.begin() + long(p + n));
            else { ref::Bytes x(b.begin() + long(p), b.begin() + long(p + n)); b.insert(b.begin() + long(pos(0)), x.begin(), x.end()); }
            return "shifted";
        }
        case 13: { for (size_t k = 1 + c.draw(8); k > 0 && !b.empty(); k--) { size_t p = size_t(c.draw(b.size())); b[p] = uint8_t(b[p] ^ (1u << c.draw(8))); } return "bits"; }
        default: {
            size_t n = c.size_in(0, 6000);
            uint64_t s = c.bits64();
            b.assign(n, 0);
            int k = int(c.draw(3));
            if (k) for (size_t i = 0; i < n; i++) b[i] = k == 1 ? uint8_t(hash({s, i})) : 0xff;
            return "noise";
        }
    }
}
static Image gen_image(Ctx& c, bool hole)
{
    Image im;
    im.b    = gen_base(c).encode();
    im.size = im.b.size();
    size_t k = c.draw(5);
    for (size_t i = 0; i < k; i++) { c.label(damage(c, im)); im.size = im.b.size(); }
    if (hole && c.chance(1, 6)) {  // a large hole at the end
        static const uint64_t s[] = {1u << 20, 1ull << 31, 1ull << 32, 1ull << 33, 1ull << 37, 1ull << 40};
        uint64_t w = s[c.draw(6)];
        im.size = std::max<uint64_t>(im.size, w + c.draw(10000) - 5000);
        c.label("hole");
    }
    c.desc << " bytes " << im.b.size() << " size " << im.size << " ns " << im.ns() << " nt " << im.nt() << " format " << im.format();
    return im;
}

// --------------------------------------------------------- reading
/// A buffer whose surroundings are watched
template<class T> struct Guard {
    std::vector<T> v;
    size_t n, g = 4;
    T fill;
    Guard(size_t n_, T f) : v(n_ + 8, f), n(n_), fill(f) {}
    T* data() { return v.data() + g; }
    bool intact() const { for (size_t i = 0; i < g; i++) if (memcmp(&v[i], &fill, sizeof(T)) || memcmp(&v[g + n + i], &fill, sizeof(T))) return false; return true; }
};
static std::string trace_differs(const Image& im, uint64_t t, const float* s)
{
    for (size_t j = 0; j < im.ns(); j++) {
        uint32_t w = im.samp(t, j), g = ref::f2u(s[j]);
        if (im.format() == 1) {
            double v = ibm(w);
            float x  = float(v);
            // to within the last place; beyond the range of a float is infinite
            bool ok = ref::f2u(x) == g || (std::isfinite(v) && std::fabs(double(s[j]) - v) <= std::ldexp(std::fabs(v), -22))
                      || (std::fabs(v) < 1.2e-38 && std::fabs(double(s[j])) < 1.2e-38);
            if (ok) continue;
            // beyond the range of a float
            if (std::fabs(v) > 3.4e38 && std::fabs(double(s[j])) > 3.4e38) continue;
        }
        else if (g == w) continue;
        std::ostringstream o;
        o << "sample " << j << " of trace " << t << " is stored as " << std::hex << w << " and read as " << g;
        return o.str();
    }
    return "";
}
static void reader(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    Image im = gen_image(c, true);
    auto name = c.path("d");
    put(c, name, im);
    const bool bad = c.all_ok();
    (void)bad;
    auto piol = new_piol();
    IoOpt io;
    if (c.flip()) { io.use = true; io.coll = c.flip(); io.maxSize = 1 + c.size_in(0, 8000); }
    {
        auto r = open_read(piol, name, io);
        size_t nt = r->readNt(), ns = r->readNs();
        double inc = r->readInc();
        bool told = reports(piol) > 0;
        c.check(nt <= im.nt(), "more traces are reported than the file holds");
        c.check(nt == im.nt() || told, "fewer traces are reported than the file holds, silently");
        c.check(ns == im.ns() || told, "another number of samples is reported, silently");
        c.check(std::fabs(inc - 1e-6 * im.inc()) < 1e-12 || told, "another interval is reported, silently");
        c.check(im.size < 3600 || im.format() == 1 || im.format() == 5 || told, "samples of a format which is not known are taken as they are, silently");
        // text
        const std::string& tx = r->readText();
        if (im.size < 3600) c.check(tx.empty() || told, "a text was read from a file without a header");
        else if (!told) {
            c.check(tx.size() == 3200, "size of the text");
            size_t pa = 0, digits = 0;
            for (size_t i = 0; i < 3200; i++) { pa += im.at(i) >= 32 && im.at(i) < 127; digits += im.at(i) >= '0' && im.at(i) <= '9'; }
            if (tx.size() == 3200 && pa > 3000 && digits > 400) {
                bool same = true;
                for (size_t i = 0; i < 3200 && same; i++) same = uint8_t(tx[i]) == im.at(i);
                c.check(same, "the text is another than the file's");
            }
        }
        if (!c.all_ok()) return;
        // every process goes by the counts it was given: they are the same
        bool usable = nt == im.nt() && ns == im.ns();
        size_t rounds = usable ? c.size_in(1, 3) : 0;
        RuleSpec R = gen_rule(c);
        auto rule  = R.make();
        size_t most = std::max<size_t>(1, std::min<size_t>(12, 2000000 / (4 * ns + 240)));
        for (size_t k = 0; k < rounds && nt > 0; k++) {
            int kind = int(c.draw(3)), what = int(c.draw(3));
            std::vector<Sv> ids(np);
            for (int q = 0; q < np; q++) {
                if (kind == 0) {
                    uint64_t n = c.size_in(0, most), o;
                    o = c.chance(1, 3) ? nt - std::min<uint64_t>(nt, n) : c.draw(nt);
                    n = std::min<uint64_t>(n, nt - o);
                    for (uint64_t i = 0; i < n; i++) ids[q].push_back(o + i);
                }
                else {
                    size_t n = c.size_in(0, most);
                    for (size_t i = 0; i < n; i++) ids[q].push_back(c.chance(1, 4) ? nt - 1 : c.draw(nt));
                    if (kind == 1) { std::sort(ids[q].begin(), ids[q].end()); ids[q].erase(std::unique(ids[q].begin(), ids[q].end()), ids[q].end()); }
                }
            }
            auto& id = ids[me];
            size_t n = id.size(), skip = what != 0 ? c.draw(3) : 0;
            c.desc << "; " << (kind == 0 ? "range" : kind == 1 ? "list" : "any order") << (what == 0 ? " samples" : what == 1 ? " headers" : " both") << vstr(id, 4);
            Guard<float> g(n * ns, ref::u2f(0x7fc0beefu));
            EP::Param prm(rule, n + skip);
            float* tr = what != 1 ? g.data() : const_cast<float*>(EP::TRACE_NULL);
            EP::Param* pp = what != 0 ? &prm : PIOL_PARAM_NULL;
            size_t off = n ? id[0] : 0;
            EP::ReadInterface* ri = *r;
            if (kind == 0) { if (what == 1) ri->readParam(off, n, pp, skip); else ri->readTrace(off, n, tr, pp, skip); }
            else if (kind == 1) { if (what == 1) ri->readParamNonContiguous(n, id.data(), pp, skip); else ri->readTraceNonContiguous(n, id.data(), tr, pp, skip); }
            else ri->readTraceNonMonotonic(n, id.data(), tr, pp, skip);
            bool t2 = reports(piol) > 0;
            c.check(g.intact(), "samples were written outside the buffer");
            for (size_t i = 0; i < n && !t2; i++) {
                if (what != 1) { auto s = trace_differs(im, id[i], g.data() + i * ns); if (!s.empty()) { c.fail(s); break; } }
                if (what != 0) { auto h = im.head(id[i]); auto s = prm_vs_header(&prm, i + skip, R, h.data()); if (!s.empty()) { c.fail("trace " + std::to_string(id[i]) + ": " + s); break; } }
            }
            if (!c.all_ok()) return;
        }
        c.nontrivial(im.size > 0 && (rounds > 0));
    }
    drop(name);
}

// --------------------------------------------------------- data sets, models and tools
static void model(Ctx& c)
{
    Image im = gen_image(c, false);
    auto name = c.path("m");
    put(c, name, im);
    auto piol = new_piol();
    {
        size_t n  = im.nt() ? 1 + c.size_in(0, 8) : c.draw(2);
        std::vector<EP::Gather_info> q(n);
        for (size_t i = 0; i < n; i++) {
            // a position some trace has, or any other
            auto h = im.head(im.nt() ? c.draw(im.nt()) : 0);
            q[i] = {1, ref::get32(&h[188]), ref::get32(&h[192])};
            if (c.chance(1, 4)) q[i].inline_ = int32_t(odd32(c));
            if (c.chance(1, 4)) q[i].crossline += int64_t(c.draw(7)) - 3;
        }
        c.nontrivial(im.nt() > 1);
        exseis::utils::MPI_Distributed_vector<EP::Gather_info> g(n, MPI_COMM_WORLD);
        if (c.rank() == 0) for (size_t i = 0; i < n; i++) g.set(i, q[i]);
        barrier();
        auto m = EP::makeFile<EP::ReadSEGYModel>(piol, name);
        bool told = reports(piol) > 0;
        size_t ns = m->readNs();
        c.check(m->readNt() <= im.nt(), "more traces are reported than the file holds");
        c.check(ns == im.ns() || told, "another number of samples is reported, silently");
        c.check(im.nt() == 0 || told || uint64_t(m->il.count) * uint64_t(m->xl.count) <= im.nt(), "the grid has more cells than the file has traces");
        if (!c.all_ok()) return;
        if (m->readNt() == im.nt() && ns == im.ns()) {
            auto v = m->readModel(0, n, g);
            told   = reports(piol) > 0;
            c.eq(v.size(), n * ns, "samples returned");
            // each is a trace of the file
            for (size_t i = 0; i < n && v.size() == n * ns && !told && im.format() != 1; i++) {
                bool found = false;
                for (size_t t = 0; t < im.nt() && !found; t++) found = trace_differs(im, t, v.data() + i * ns).empty();
                if (!found) { c.fail("position " + std::to_string(i) + ": not a trace of the file, silently"); break; }
            }
        }
        barrier();
    }
    piol.reset();
    drop(name);
}
/// Sets are built from whatever the pattern finds
static void sets(Ctx& c)
{
    size_t nf = 1 + c.draw(3);
    std::vector<Image> im(nf);
    auto d = sg::fresh_dir(c, "s");
    for (size_t f = 0; f < nf; f++) {
        im[f] = gen_image(c, false);
        c.desc << "; ";
        put(c, d + "in_" + std::to_string(f) + (f ? ".sgy" : ".segy"), im[f]);
    }
    int op = int(c.draw(3));
    c.label(op == 0 ? "set-copy" : op == 1 ? "set-sort" : "set-minmax");
    // traces by group
    std::map<std::pair<int, int>, std::vector<std::pair<size_t, uint64_t>>> grp;
    for (size_t f = 0; f < nf; f++) for (uint64_t t = 0; t < im[f].nt(); t++) grp[{int(im[f].ns()), im[f].inc()}].push_back({f, t});
    size_t total = 0;
    for (auto& g : grp) total += g.second.size();
    c.nontrivial(total > 1);
    auto piol = new_piol();
    {
        exseis::Flow::Set s(piol, d + "in_*", d + "out_");
        if (op == 1) s.sort(c.pick(srt::types()));
        if (op == 2) { EP::CoordElem mm[4]; s.getMinMax(PIOL_META_xSrc, PIOL_META_ySrc, mm); }
        s.output(d + "out_");
    }
    bool told = reports(piol) > 0;
    piol.reset();
    barrier();
    if (c.rank() == 0 && !told) {
        for (auto& n : sg::listing(d)) {
            if (n.compare(0, 4, "out_") != 0) continue;
            Image o;
            o.b = ref::slurp(d + n);
            o.size = o.b.size();
            if (!c.check(o.size >= 3600 && o.size == 3600 + o.nt() * o.dosz(), n + " is not a whole SEG-Y file")) break;
            auto it = grp.find({int(o.ns()), o.inc()});
            if (it == grp.end()) { c.check(o.nt() == 0, n + " has the samples and interval of no input"); continue; }
            auto& want = it->second;
            c.check(o.format() == 5, "format of the output");
            if (!c.eq(o.nt(), uint64_t(want.size()), "traces of " + n)) break;
            std::vector<char> used(want.size(), 0);
            for (uint64_t t = 0; t < o.nt() && !c.failed; t++) {
                std::vector<float> v(o.ns());
                for (size_t j = 0; j < o.ns(); j++) v[j] = ref::u2f(o.samp(t, j));
                bool found = false;
                for (size_t k = 0; k < want.size() && !found; k++) {
                    if (used[k] || (op != 1 && k != t)) continue;
                    if (trace_differs(im[want[k].first], want[k].second, v.data()).empty()) { used[k] = 1; found = true; }
                }
                c.check(found, "trace " + std::to_string(t) + " of " + n + " is no trace of the input");
            }
            want.clear();
        }
        for (auto& g : grp) c.check(g.second.empty() || c.failed, "the traces of a group were not written");
    }
    barrier();
    if (chdir("/") != 0) abort();
    barrier();
    if (c.rank() == 0) sg::rmtree(d);
    barrier();
}
static void tools(Ctx& c)
{
    Image im = gen_image(c, false);
    auto name = c.path("t"), o = c.path("o");
    put(c, name, im);
    std::string out;
    c.nontrivial(im.nt() > 1);
    if (c.flip()) {
        c.label("minmax");
        int rc = run_util(c, util_main_minmax, {"exseis-minmax", "-i", name, "-o", o}, out);
        // what is reported is printed
        int told = !out.empty(), any = 0;
        MPI_Allreduce(&told, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        c.label_if(any, "reported");
        Image r;
        r.b = ref::slurp(o);
        r.size = r.b.size();
        if (c.rank() == 0 && im.nt() > 0 && rc == 0 && !any) {
            c.eq(r.nt(), uint64_t(12), "traces of the answer");
            c.eq(r.ns(), size_t(1), "samples of the answer");
            for (uint64_t t = 0; t < r.nt(); t++) {
                auto h = r.head(t);
                c.check(uint32_t(ref::get32(&h[4])) < im.nt(), "a trace the file does not have is named");
            }
        }
        if (c.rank() == 0 && im.nt() == 0 && rc == 0 && !any) c.check(r.size == 0 || r.nt() * r.dosz() + 3600 == r.size, "the answer is not a whole SEG-Y file");
    }
    else {
        c.label("versort");
        run_util(c, util_main_versort, {"exseis-versort", "-i", name, "-t", std::to_string(int(c.pick(srt::types())))}, out);
        if (c.rank() == 0) c.check((out.find("Success") != std::string::npos) != (out.find("Failure") != std::string::npos), "neither success nor failure is told: " + out);
    }
    drop(name);
    drop(o);
}
static void prop(Ctx& c)
{
    switch (c.draw(8)) {
        case 7: c.label("model"); model(c); return;
        case 6: c.label("set"); sets(c); return;
        case 5: c.label("tool"); tools(c); return;
        default: c.label("reader"); reader(c); return;
    }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
