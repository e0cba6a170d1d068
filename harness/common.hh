#pragma once
#include "pbt.hh"
#include "segyref.hh"

#include "ExSeisDat/PIOL.hh"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ObjectSEGY.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/WriteSEGY.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/PIOL/segy_utils.hh"

#include <memory>

using pbt::Ctx;
using pbt::hash;
namespace EP = exseis::PIOL;

typedef std::vector<float> Fv;
typedef std::vector<size_t> Sv;

inline std::shared_ptr<EP::ExSeis> new_piol(MPI_Comm comm = MPI_COMM_WORLD)
{
    return EP::ExSeis::New(PIOL_VERBOSITY_NONE, comm);
}
inline bool is_err(const std::shared_ptr<EP::ExSeis>& p) { return p->log->isErr(); }

/// I/O options of one open file.
struct IoOpt {
    bool use      = false;
    bool coll     = true;
    size_t maxSize = 0;
    MPI_Comm comm = MPI_COMM_WORLD;
    std::string str() const
    {
        if (!use) return "default-io";
        return std::string(coll ? "coll" : "indep") + ",max=" + std::to_string(maxSize);
    }
};
/// min_block: bytes of one trace record. The limit must be able to hold it.
inline IoOpt gen_io(Ctx& c, size_t dosz)
{
    IoOpt o;
    if (!c.chance(1, 2)) return o;
    o.use  = true;
    o.coll = !c.chance(1, 3);
    size_t base = std::max<size_t>(2 * dosz, 3600);
    o.maxSize   = base + c.size_in(0, 6 * dosz);
    // a limit of less than a trace
    if (c.chance(1, 4)) o.maxSize = 1 + dosz / 40 + c.size_in(0, 2 * dosz);
    return o;
}
struct Reader {
    std::unique_ptr<EP::ReadDirect> d;
    std::shared_ptr<EP::ExSeis> piol;
};
inline std::unique_ptr<EP::ReadDirect> open_read(const std::shared_ptr<EP::ExSeis>& p, const std::string& n, const IoOpt& o)
{
    if (!o.use && o.comm == MPI_COMM_WORLD) return std::make_unique<EP::ReadDirect>(p, n);
    EP::DataMPIIO::Opt d;
    if (o.use) { d.coll = o.coll; d.maxSize = o.maxSize; }
    d.fcomm = o.comm;
    EP::ObjectSEGY::Opt ob;
    EP::ReadSEGY::Opt f;
    return std::make_unique<EP::ReadDirect>(p, n, d, ob, f);
}
inline std::unique_ptr<EP::WriteDirect> open_write(const std::shared_ptr<EP::ExSeis>& p, const std::string& n, const IoOpt& o)
{
    if (!o.use && o.comm == MPI_COMM_WORLD) return std::make_unique<EP::WriteDirect>(p, n);
    EP::DataMPIIO::Opt d;
    if (o.use) { d.coll = o.coll; d.maxSize = o.maxSize; }
    d.fcomm = o.comm;
    EP::ObjectSEGY::Opt ob;
    EP::WriteSEGY::Opt f;
    return std::make_unique<EP::WriteDirect>(p, n, d, ob, f);
}

// ---------------------------------------------------------------- samples
/// Styles of generated sample bits
enum SampleStyle { S_INDEX, S_NORMAL, S_ANYBITS, S_SPECIAL, S_NSTYLES };
inline uint32_t sample_bits(int style, uint64_t seed, uint64_t trace, uint64_t j)
{
    uint64_t h = hash({seed, trace, j, 77});
    switch (style) {
        case S_INDEX: return ref::f2u(float(1 + trace * 100 + j));
        case S_NORMAL: return ref::f2u(float((double(h % 2000001) - 1000000.) / 1024.));
        case S_ANYBITS: return uint32_t(h);
        default: {
            static const uint32_t sp[] = {0u, 0x80000000u, 0x3f800000u, 0x7f800000u, 0xff800000u,
              0x7fc00000u, 0x7fa00001u, 0xffc12345u, 0x7f800001u, 1u, 0x80000001u, 0x007fffffu, 0x00800000u,
              0x7f7fffffu, 0xff7fffffu, 0x01020304u, 0x000000ffu, 0x0000ff00u, 0x00ff0000u};
            return sp[h % (sizeof(sp) / 4)];
        }
    }
}
inline std::string hexdiff(const ref::Bytes& a, const ref::Bytes& b)
{
    std::ostringstream s;
    s << "sizes " << a.size() << " vs " << b.size();
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i]) {
            s << "; first difference at byte " << i << ": " << int(a[i]) << " vs " << int(b[i]);
            break;
        }
    return s.str();
}
template<class T> inline std::string vstr(const std::vector<T>& v, size_t lim = 24)
{
    std::ostringstream s;
    s << "[";
    for (size_t i = 0; i < v.size() && i < lim; i++) s << (i ? "," : "") << v[i];
    if (v.size() > lim) s << ",...(" << v.size() << ")";
    s << "]";
    return s.str();
}
inline size_t offset_of(const std::vector<size_t>& part, int rank)
{
    size_t o = 0;
    for (int i = 0; i < rank; i++) o += part[i];
    return o;
}
inline void barrier() { MPI_Barrier(MPI_COMM_WORLD); }
/// Remove a scratch file (rank 0), collectively.
inline void drop(const std::string& f)
{
    barrier();
    if (pbt::G().rank == 0) unlink(f.c_str());
    barrier();
}

// ---------------------------------------------------------------- rules
struct RuleSpec {
    std::vector<ref::Field> ent;
    bool copy = false;
    std::string str() const
    {
        std::string s = copy ? "COPY " : "";
        for (auto& f : ent) s += std::string(f.name) + "@" + std::to_string(f.loc) + " ";
        return s;
    }
    const ref::Field* find(int meta) const
    {
        for (auto& f : ent) if (f.meta == meta) return &f;
        return nullptr;
    }
    std::shared_ptr<EP::Rule> make() const
    {
        auto r = std::make_shared<EP::Rule>(std::vector<EP::Meta>{});
        for (auto& f : ent) add(*r, f);
        if (copy) r->addCopy();
        return r;
    }
    static bool standard(const ref::Field& f)
    {
        for (auto& g : ref::fields())
            if (g.meta == f.meta) return g.type == f.type && g.loc == f.loc && g.scal == f.scal;
        return false;
    }
    static void add(EP::Rule& r, const ref::Field& f)
    {
        auto m = EP::Meta(f.meta);
        if (standard(f)) r.addRule(m);
        else if (f.type == ref::LONG) r.addLong(m, EP::Tr(f.loc));
        else if (f.type == ref::SHORT) r.addShort(m, EP::Tr(f.loc));
        else r.addSEGYFloat(m, EP::Tr(f.loc), EP::Tr(f.scal));
    }
};
/// Extra entries at positions no standard entry uses.
inline const std::vector<ref::Field>& custom_fields()
{
    static const std::vector<ref::Field> f = {
      {31, ref::LONG, 121, 0, "Misc1"}, {32, ref::SHORT, 131, 0, "Misc2"}, {33, ref::FLOAT, 141, 151, "Misc3"},
      {34, ref::FLOAT, 237, 71, "Misc4"}, {30, ref::FLOAT, 161, 165, "dsdr"}};
    return f;
}
inline RuleSpec gen_rule(Ctx& c, bool allow_copy = true, bool allow_custom = true)
{
    RuleSpec r;
    auto& F  = ref::fields();
    int kind = int(c.draw(4));
    if (kind == 0) { for (int i = 0; i < ref::NDEFAULT; i++) r.ent.push_back(F[i]); }
    else if (kind == 1) { for (int i = 0; i < ref::NFIELDS; i++) r.ent.push_back(F[i]); }
    else {
        for (int i = 0; i < ref::NFIELDS; i++) if (c.chance(1, 3)) r.ent.push_back(F[i]);
    }
    if (allow_custom) {
        if (c.chance(1, 2))
            for (auto& f : custom_fields()) if (c.flip()) r.ent.push_back(f);
        if (c.chance(1, 6) && r.find(26) == nullptr) r.ent.push_back({26, ref::LONG, 233, 0, "il"});
        if (c.chance(1, 6) && r.find(20) == nullptr && r.find(22) == nullptr && !r.find(21))
            r.ent.push_back({20, ref::FLOAT, 81, 131 + 20, "xSrc"});  // moved, own scaler next to Misc3's
    }
    // overlapping pairs are left out: the moved xSrc shares Misc3's scaler on purpose
    if (c.flip()) std::reverse(r.ent.begin(), r.ent.end());
    if (allow_copy) r.copy = c.chance(1, 4);
    return r;
}
/// Reference header bytes for one trace, all float entries being integers below 2^31 (scaler 1).
inline void ref_put(std::array<uint8_t, 240>& h, const ref::Field& f, int64_t v)
{
    if (f.type == ref::SHORT) ref::put16(&h[f.loc - 1], int(v));
    else ref::put32(&h[f.loc - 1], uint32_t(int32_t(v)));
    if (f.type == ref::FLOAT) ref::put16(&h[f.scal - 1], 1);
}

/// Value of entry e of trace t in version v: any value of the type; floats are integers, so the scaler is 1.
inline int64_t ent_value(uint64_t seed, uint64_t ver, uint64_t t, const ref::Field& f)
{
    uint64_t h = hash({seed, ver, t, uint64_t(f.meta), 99});
    if (f.type == ref::SHORT) return int16_t(h);
    if (f.type == ref::LONG) return int32_t(h);
    return int64_t(h % 2000001) - 1000000;
}
inline void set_ent(EP::Param* p, size_t k, const ref::Field& f, int64_t v)
{
    auto m = EP::Meta(f.meta);
    if (f.type == ref::FLOAT) EP::param_utils::setPrm(k, m, exseis::utils::Floating_point(v), p);
    else if (f.type == ref::LONG) EP::param_utils::setPrm(k, m, exseis::utils::Integer(v), p);
    else EP::param_utils::setPrm(k, m, int16_t(v), p);
}
inline uint8_t raw_byte(uint64_t seed, uint64_t ver, uint64_t t, uint64_t b) { return uint8_t(hash({seed, ver, t, b, 5})); }
inline void fill_param(EP::Param* p, size_t k, const RuleSpec& R, uint64_t seed, uint64_t ver, uint64_t t)
{
    if (R.copy) for (size_t b = 0; b < 240; b++) p->c[k * 240 + b] = raw_byte(seed, ver, t, b);
    for (auto& f : R.ent) set_ent(p, k, f, ent_value(seed, ver, t, f));
}
inline std::array<uint8_t, 240> ref_header(const RuleSpec& R, uint64_t seed, uint64_t ver, uint64_t t)
{
    std::array<uint8_t, 240> h;
    h.fill(0);
    if (R.copy) for (size_t b = 0; b < 240; b++) h[b] = raw_byte(seed, ver, t, b);
    for (auto& f : R.ent) ref_put(h, f, ent_value(seed, ver, t, f));
    return h;
}
/// Compare one read-back parameter set with header bytes; returns "" or what differs.
inline std::string prm_vs_header(const EP::Param* p, size_t k, const RuleSpec& R, const uint8_t* h)
{
    std::ostringstream s;
    s.precision(17);
    if (R.copy)
        for (size_t q = 0; q < 240; q++)
            if (p->c[k * 240 + q] != h[q]) { s << "raw header byte " << q + 1; return s.str(); }
    for (auto& f : R.ent) {
        auto m = EP::Meta(f.meta);
        if (f.type == ref::LONG) {
            int64_t g = EP::param_utils::getPrm<exseis::utils::Integer>(k, m, p), w = ref::get32(h + f.loc - 1);
            if (g != w) { s << f.name << ": got " << g << " want " << w; return s.str(); }
        }
        else if (f.type == ref::SHORT) {
            int g = EP::param_utils::getPrm<int16_t>(k, m, p), w = ref::get16(h + f.loc - 1);
            if (g != w) { s << f.name << ": got " << g << " want " << w; return s.str(); }
        }
        else {
            double g = EP::param_utils::getPrm<exseis::utils::Floating_point>(k, m, p), w = ref::decode_float(h, f.loc, f.scal);
            if (!(std::fabs(g - w) <= 1e-12 * std::fabs(w))) { s << f.name << ": got " << g << " want " << w; return s.str(); }
        }
    }
    return "";
}
/// How one logical call is divided: per-rank trace numbers.
struct Share {
    bool list = false;
    std::vector<Sv> ids;
    std::string str() const
    {
        std::string s = list ? "list" : "range";
        for (auto& v : ids) s += vstr(v, 5);
        return s;
    }
};
/// Divide an ascending set of traces among np ranks.
inline Share gen_share(Ctx& c, const Sv& set, int np)
{
    Share o;
    bool contig = set.empty() || set.back() - set.front() + 1 == set.size();
    o.list      = !contig || c.chance(1, 2);
    o.ids.resize(np);
    if (o.list && c.chance(1, 2)) { for (size_t t : set) o.ids[c.draw(np)].push_back(t); }
    else {
        auto p   = c.partition(set.size(), np);
        size_t k = 0;
        for (int r = 0; r < np; r++) for (size_t i = 0; i < p[r]; i++) o.ids[r].push_back(set[k++]);
    }
    return o;
}
/// Now and then everything happens far into a (sparse) file: the first trace used, around a byte position
/// which some number of bits or some block size can not hold.
inline size_t gen_far(Ctx& c, size_t ns)
{
    if (!c.chance(1, 12)) return 0;
    static const std::vector<uint64_t> at = {1ull << 31, 1ull << 32, 5000000000ull, 1ull << 24, 1ull << 35};
    uint64_t b = c.pick(at), dosz = 240 + 4 * ns;
    c.label("far into the file");
    return size_t((b - 3600) / dosz) - size_t(c.draw(4));
}
inline void do_write(EP::WriteDirect& w, const Share& s, const Sv& ids, float* trc, const EP::Param* prm)
{
    size_t off = ids.empty() ? 0 : ids[0], n = ids.size();
    if (trc == nullptr) {
        if (s.list) w.writeParamNonContiguous(n, ids.data(), prm);
        else w.writeParam(off, n, prm);
    }
    else {
        if (s.list) w.writeTraceNonContiguous(n, ids.data(), trc, prm);
        else w.writeTrace(off, n, trc, prm);
    }
}
