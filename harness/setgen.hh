// Input file collections for data-set checks.
#pragma once
#include "sortref.hh"
#include "ExSeisDat/Flow/Set.hh"
#include <dirent.h>
namespace EF = exseis::Flow;
namespace exseis { namespace Flow { extern size_t verif_memlim; } }

namespace sg {
struct Inputs {
    std::string dir;             // scratch directory, with a trailing '/'
    std::vector<std::string> names;  // in glob order
    std::vector<ref::File> files;
    std::vector<std::vector<srt::Rec>> keys;
    std::string pattern;
};
inline void rmtree(const std::string& d)
{
    DIR* p = opendir(d.c_str());
    if (!p) return;
    while (auto* e = readdir(p)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        if (unlink((d + "/" + n).c_str()) != 0) rmtree(d + "/" + n);
    }
    closedir(p);
    rmdir(d.c_str());
}
inline std::vector<std::string> listing(const std::string& d)
{
    std::vector<std::string> v;
    DIR* p = opendir(d.c_str());
    if (!p) return v;
    while (auto* e = readdir(p)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") v.push_back(n);
    }
    closedir(p);
    std::sort(v.begin(), v.end());
    return v;
}
/// An empty scratch directory that is also the working directory (collective).
inline std::string fresh_dir(Ctx& c, const std::string& n)
{
    std::string d = c.path(n);
    barrier();
    if (c.rank() == 0) {
        rmtree(d);
        mkdir(d.c_str(), 0700);
    }
    barrier();
    if (chdir(d.c_str()) != 0) c.fail("chdir");
    barrier();
    return d + "/";
}
/// Put a value into a header field; FLOAT fields are stored as value/scale
inline void put_float(std::array<uint8_t, 240>& h, int loc, double v, int scal)
{
    double s = scal < 0 ? -double(scal) : scal == 0 ? 1. : 1. / double(scal);
    ref::put32(&h[loc - 1], uint32_t(int32_t(std::llround(v * s))));
}
inline void put_keys(std::array<uint8_t, 240>& h, const srt::Rec& r, int scal)
{
    ref::put16(&h[70], scal);
    put_float(h, 73, r.xs, scal);
    put_float(h, 77, r.ys, scal);
    put_float(h, 81, r.xr, scal);
    put_float(h, 85, r.yr, scal);
    ref::put32(&h[36], uint32_t(int32_t(r.off)));
    ref::put32(&h[188], uint32_t(int32_t(r.il)));
    ref::put32(&h[192], uint32_t(int32_t(r.xl)));
}
/// The keys a reader of header h sees.
inline srt::Rec get_keys(const std::array<uint8_t, 240>& h)
{
    srt::Rec r;
    r.xs  = ref::decode_float(h.data(), 73, 71);
    r.ys  = ref::decode_float(h.data(), 77, 71);
    r.xr  = ref::decode_float(h.data(), 81, 71);
    r.yr  = ref::decode_float(h.data(), 85, 71);
    r.off = ref::get32(&h[36]);
    r.il  = ref::get32(&h[188]);
    r.xl  = ref::get32(&h[192]);
    return r;
}
/// scal 0: every file its own power-of-two scaler; all other header bytes random.
inline Inputs gen(Ctx& c, size_t maxfiles, size_t maxgroups, size_t maxnt, int sample_style, std::string& d, size_t minns = 1)
{
    Inputs in;
    size_t nf = 1 + c.draw(maxfiles), ng = 1 + c.draw(maxgroups);
    std::vector<std::pair<size_t, int>> grp;
    for (size_t g = 0; g < ng; g++) {
        size_t ns = minns + c.size_in(0, 12);
        int inc   = c.pick(std::vector<int>{4000, 2000, 1, 500, 32767});
        if (g && c.chance(1, 3)) ns = grp[0].first;
        if (g && c.chance(1, 3)) inc = grp[0].second;
        grp.push_back({ns, inc});
    }
    uint64_t seed = c.draw(1u << 20);
    static const std::vector<std::string> ext = {".segy", ".sgy", ".SEGY", ".SGY"};
    d = "files:";
    for (size_t f = 0; f < nf; f++) {
        size_t nt = c.count_in(0, maxnt, 40 * maxnt);
        auto gr   = grp[c.draw(ng)];
        std::string kd;
        auto keys = srt::gen(c, nt, kd, true);
        int scal  = c.pick(std::vector<int>{1, 0, -1, -2, -4, 2});
        ref::File F;
        F.ns     = gr.first;
        F.inc_us = gr.second;
        F.text   = "input file number " + std::to_string(f);
        F.text.resize(3200, ' ');
        F.tr.resize(nt);
        for (size_t t = 0; t < nt; t++) {
            auto& T = F.tr[t];
            for (size_t b = 0; b < 240; b++) T.h[b] = uint8_t(hash({seed, f, t, b}));
            ref::put16(&T.h[68], int(hash({seed, f, t, 999}) % 2 ? -100 : 10));
            static const int ss[] = {1, -10, 10, -100, 0};
            ref::put16(&T.h[200], ss[hash({seed, f, t, 998}) % 5]);
            if (scal == 2) { keys[t].xs *= 2; keys[t].ys *= 2; keys[t].xr *= 2; keys[t].yr *= 2; }
            put_keys(T.h, keys[t], scal);
            T.s.resize(F.ns);
            for (size_t j = 0; j < F.ns; j++) T.s[j] = sample_bits(sample_style, seed, f * 100000 + t, j);
        }
        char nm[32];
        snprintf(nm, sizeof nm, "in_%02zu", f);
        in.names.push_back(nm + c.pick(ext));
        in.files.push_back(F);
        in.keys.push_back(keys);
        d += " [nt=" + std::to_string(nt) + " ns=" + std::to_string(F.ns) + " inc=" + std::to_string(F.inc_us)
             + " scaler=" + std::to_string(scal) + " " + kd + "]";
    }
    return in;
}
inline void write(Ctx& c, Inputs& in, const std::string& dir, bool decoys = false)
{
    in.dir     = dir;
    in.pattern = dir + "in_*";
    if (c.rank() == 0) {
        for (size_t f = 0; f < in.files.size(); f++) ref::spit(dir + in.names[f], in.files[f].encode());
        if (decoys && !in.files.empty()) {
            ref::spit(dir + "in_00.dat", in.files[0].encode());
            ref::spit(dir + "in_01.segy.bak", in.files[0].encode());
        }
    }
    barrier();
}
struct Id {
    size_t f, t;
    bool operator==(const Id& o) const { return f == o.f && t == o.t; }
};
struct Group {
    size_t ns;
    int inc;
    std::vector<size_t> files;
    std::vector<Id> ids;  // file order
};
inline std::vector<Group> groups(const Inputs& in)
{
    std::map<std::pair<size_t, int>, Group> m;
    for (size_t f = 0; f < in.files.size(); f++) {
        auto& g = m[{in.files[f].ns, in.files[f].inc_us}];
        g.ns    = in.files[f].ns;
        g.inc   = in.files[f].inc_us;
        g.files.push_back(f);
        for (size_t t = 0; t < in.files[f].tr.size(); t++) g.ids.push_back({f, t});
    }
    std::vector<Group> v;
    for (auto& x : m) v.push_back(x.second);
    return v;
}
/// ids ordered by trace number first, file second (the library's tie order)
inline std::vector<Id> interleaved(const Group& g)
{
    auto v = g.ids;
    std::stable_sort(v.begin(), v.end(), [](const Id& a, const Id& b) { return a.t < b.t; });
    return v;
}
/// other: lines are read from bytes 9 and 21
inline std::vector<Id> sorted(const Inputs& in, const std::vector<Id>& from, EP::SortType t, bool other = false)
{
    std::vector<srt::Rec> r;
    for (auto& i : from) {
        auto& h = in.files[i.f].tr[i.t].h;
        r.push_back(get_keys(h));
        if (other) {
            r.back().il = ref::get32(&h[8]);
            r.back().xl = ref::get32(&h[20]);
            r.back().xs = ref::decode_float(h.data(), 73, 69);
            r.back().ys = ref::decode_float(h.data(), 77, 69);
            r.back().xr = ref::decode_float(h.data(), 81, 69);
            r.back().yr = ref::decode_float(h.data(), 85, 69);
        }
    }
    std::vector<Id> o;
    for (size_t k : srt::order(t, r)) o.push_back(from[k]);
    return o;
}
/// Which group an output file belongs to, by its (ns, interval)
inline int group_of(const std::vector<Group>& gs, const ref::File& f)
{
    for (size_t g = 0; g < gs.size(); g++) if (gs[g].ns == f.ns && gs[g].inc == f.inc_us) return int(g);
    return -1;
}
inline std::string idstr(const std::vector<Id>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 40; i++) s += (i ? "," : "") + std::to_string(v[i].f) + ":" + std::to_string(v[i].t);
    return s + "]";
}
}  // namespace sg

namespace sg {
/// Replace the samples of every trace by generated ones: f(file, trace, index)
template<class F> inline void set_samples(Inputs& in, F f)
{
    for (size_t k = 0; k < in.files.size(); k++)
        for (size_t t = 0; t < in.files[k].tr.size(); t++) f(k, t, in.files[k].tr[t].s);
}
/// Read back every out_* file of a directory, matched to the groups; fails the case if they do not match up.
inline std::map<int, std::pair<std::string, ref::File>> outputs(Ctx& c, const std::string& dir, const std::vector<Group>& gs, const std::string& prefix = "out_")
{
    std::map<int, std::pair<std::string, ref::File>> m;
    for (auto& n : listing(dir)) {
        if (n.substr(0, prefix.size()) != prefix) continue;
        ref::File F;
        if (!ref::parse(ref::slurp(dir + n), F)) { c.fail(n + " is not a whole SEG-Y file"); return m; }
        int g = group_of(gs, F);
        if (g < 0 || m.count(g)) { c.fail(n + " has the samples and interval of no input group, or of one already written"); return m; }
        m[g] = {n, F};
    }
    c.eq(m.size(), gs.size(), "output files");
    return m;
}
/// A block size limit that makes small memory blocks of the library's set evaluation (0: the default)
inline void memlimit(const std::vector<Group>& gs, size_t mem)
{
    size_t one = 0;
    for (auto& g : gs) one = std::max(one, 5 * sizeof(size_t) + 240 + 4 * g.ns + 2 * (240 + 4000) + 8 * g.ns);
    EF::verif_memlim = mem ? one * (mem / 4 + 1) : 1024ul * 1024 * 1024;
}
}  // namespace sg
