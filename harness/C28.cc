// C28: process groups get the right collective answers and work independently of one another.
#include "setgen.hh"
#include "sortref.hh"
#include "ExSeisDat/Flow.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/utils/mpi/MPI_type.hh"
#include <dirent.h>
#include <sys/stat.h>
using exseis::utils::Integer;
namespace PU = EP::param_utils;

/// A group of processes, as every process knows it: members in group order.
struct Group { std::vector<int> member; };

template<class T> static T value(uint64_t seed, uint64_t r, uint64_t k, int style)
{
    uint64_t h = hash({seed, r, k, 3});
    if (style == 0) return T(h % 5);
    T v;
    memcpy(&v, &h, sizeof(T));
    return v;
}
template<class T> static void gather_vec(Ctx& c, const EP::CommunicatorMPI& cm, const char* name, const Group& g, int gr, size_t n, uint64_t seed, int style)
{
    std::vector<T> in(n);
    for (size_t k = 0; k < n; k++) in[k] = value<T>(seed, gr, k, style);
    const std::vector<T> keep = in;
    auto out = cm.gather(in);
    std::vector<T> want;
    for (size_t r = 0; r < g.member.size(); r++) for (size_t k = 0; k < n; k++) want.push_back(value<T>(seed, r, k, style));
    if (out.size() != want.size()) c.fail(std::string("gather of ") + name + " has " + std::to_string(out.size()) + " values, want " + std::to_string(want.size()));
    else if (n && memcmp(out.data(), want.data(), sizeof(T) * want.size())) c.fail(std::string("gather of ") + name + " gives " + vstr(out) + " want " + vstr(want));
    if (n && memcmp(in.data(), keep.data(), sizeof(T) * n)) c.fail("gather changed its input");
    if (n > 0) {
        auto one = cm.gather(in[0]);
        bool ok  = one.size() == g.member.size();
        for (size_t r = 0; ok && r < one.size(); r++) {
            T w = value<T>(seed, r, 0, style);
            ok  = memcmp(&one[r], &w, sizeof(T)) == 0;
        }
        if (!ok) c.fail(std::string("gather of one ") + name + " per process gives " + vstr(one));
        // through the abstract interface as well
        const EP::CommunicatorInterface& ci = cm;
        auto two = ci.gather(in);
        if (two.size() != want.size() || memcmp(two.data(), want.data(), sizeof(T) * want.size())) c.fail(std::string("gather of ") + name + " through the interface gives " + vstr(two));
    }
}
/// One send of a value of type T round the ring: the MPI type has T's size and kind.
template<class T> static void mpi_type(Ctx& c, const char* name, MPI_Comm comm, int rank, int np, uint64_t seed)
{
    int sz = 0;
    MPI_Type_size(exseis::utils::MPI_type<T>(), &sz);
    c.eq(size_t(sz), sizeof(T), std::string("MPI size of ") + name);
    // the largest and smallest value: a type of another kind orders them the other way
    T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(), a = T(0), b = T(0);
    T mine = seed % np == uint64_t(rank) ? lo : hi;
    MPI_Allreduce(&mine, &a, 1, exseis::utils::MPI_type<T>(), MPI_MIN, comm);
    mine = seed % np == uint64_t(rank) ? hi : lo;
    MPI_Allreduce(&mine, &b, 1, exseis::utils::MPI_type<T>(), MPI_MAX, comm);
    if (a != lo || b != hi) c.fail(std::string("reduction of ") + name + " over the group");
}

static void collectives(Ctx& c, const std::shared_ptr<EP::ExSeis>& piol, const Group& g, int gr, MPI_Comm comm, size_t gi, size_t ng)
{
    size_t G = g.member.size(), rounds = 1 + c.draw(5);
    std::vector<std::string> said;
    for (size_t k = 0; k < rounds; k++) {
        size_t kind = c.draw(11), n = c.count_in(0, c.chance(1, 8) ? 3000 : 12, 70000);
        int style   = int(c.draw(2));
        uint64_t seed0 = c.draw(1u << 20);
        uint64_t seed = seed0 * ng + gi;     // each group its own values
        if (gi % 2) n = n / 2;               // and its own lengths
        auto& cm = *piol->comm;
        static const char* names[] = {"double", "float", "Integer", "size_t", "sum", "max", "min", "offset", "barrier", "rank", "types"};
        c.desc << " " << names[kind] << "/" << n << (style ? "*" : "");
        c.label(names[kind]);
        std::vector<uint64_t> v(G);
        for (size_t r = 0; r < G; r++) {
            v[r] = hash({seed, r, 8});
            if (style == 0) v[r] %= 4;
            if (hash({seed, r, 9}) % 4 == 0) v[r] = 0;
            if (style && hash({seed, r, 9}) % 4 == 1) v[r] = ~0ull;
        }
        uint64_t s = 0, mx = 0, mn = ~0ull, off = 0;
        for (size_t r = 0; r < G; r++) { s += v[r]; mx = std::max(mx, v[r]); mn = std::min(mn, v[r]); if (int(r) < gr) off += v[r]; }
        switch (kind) {
            case 0: gather_vec<double>(c, cm, "double", g, gr, n, seed, style); break;
            case 1: gather_vec<float>(c, cm, "float", g, gr, n, seed, style); break;
            case 2: gather_vec<Integer>(c, cm, "Integer", g, gr, n, seed, style); break;
            case 3: gather_vec<size_t>(c, cm, "size_t", g, gr, n, seed, style); break;
            case 4: c.eq(cm.sum(v[gr]), s, "sum of " + vstr(v)); break;
            case 5: c.eq(cm.max(v[gr]), mx, "max of " + vstr(v)); c.eq(piol->max(v[gr]), mx, "max through the library handle"); break;
            case 6: c.eq(cm.min(v[gr]), mn, "min of " + vstr(v)); break;
            case 7: c.eq(cm.offset(v[gr]), off, "offset in " + vstr(v) + " of process " + std::to_string(gr)); break;
            case 8: cm.barrier(); piol->barrier(); break;
            case 9:
                c.eq(cm.getRank(), size_t(gr), "rank in the group");
                c.eq(cm.getNumRank(), G, "processes in the group");
                c.eq(piol->getRank(), size_t(gr), "rank from the library handle");
                c.eq(piol->getNumRank(), G, "processes from the library handle");
                {
                    int cmp = 0;
                    MPI_Comm_compare(cm.getComm(), comm, &cmp);
                    c.check(cmp == MPI_IDENT, "getComm gives another communicator");
                }
                break;
            default:
                mpi_type<double>(c, "double", comm, gr, int(G), seed);
                mpi_type<long double>(c, "long double", comm, gr, int(G), seed);
                mpi_type<int>(c, "int", comm, gr, int(G), seed);
                mpi_type<long>(c, "long", comm, gr, int(G), seed);
                mpi_type<unsigned long>(c, "unsigned long", comm, gr, int(G), seed);
                mpi_type<unsigned>(c, "unsigned", comm, gr, int(G), seed);
                mpi_type<long long>(c, "long long", comm, gr, int(G), seed);
                mpi_type<float>(c, "float", comm, gr, int(G), seed);
                mpi_type<short>(c, "short", comm, gr, int(G), seed);
                mpi_type<unsigned short>(c, "unsigned short", comm, gr, int(G), seed);
                int sz = 0;
                MPI_Type_size(exseis::utils::MPI_type<char>(), &sz);
                c.eq(sz, 1, "MPI size of char");
                MPI_Type_size(exseis::utils::MPI_type<unsigned char>(), &sz);
                c.eq(sz, 1, "MPI size of unsigned char");
        }
    }
}

/// What a group does with its own file. Failures are collected: other groups may be elsewhere.
struct Work {
    size_t ns, nt;
    uint64_t seed;
    int style;
    RuleSpec R;
    std::vector<Share> writes;   // over group ranks
    std::vector<size_t> rpart;
    IoOpt io;
    int extra;                   // 1 minmax, 2 sort, 3 data set, 4 gathers, 5 data set of several steps
    std::string dir;
    EP::SortType type;
};
static float twice(const float*, size_t, float, size_t) { return 2; }
static std::string work(const Work& w, const std::shared_ptr<EP::ExSeis>& piol, const std::string& name, int gr, int G, MPI_Comm comm)
{
    std::ostringstream e;
    auto cr = w.R.make();
    {
        auto f = open_write(piol, name, w.io);
        f->writeNs(w.ns);
        f->writeNt(w.nt);
        f->writeInc(0.004);
        f->writeText("text of " + std::to_string(w.seed));
        for (auto& s : w.writes) {
            auto& ids = s.ids[gr];
            std::vector<float> t(ids.size() * w.ns);
            t.reserve(1);  // not null: do_write would take the call to be one without samples
            EP::Param p(cr, ids.size());
            for (size_t k = 0; k < ids.size(); k++) {
                fill_param(&p, k, w.R, w.seed, 0, ids[k]);
                for (size_t j = 0; j < w.ns; j++) t[k * w.ns + j] = ref::u2f(sample_bits(w.style, w.seed, ids[k], j));
            }
            do_write(*f, s, ids, t.data(), &p);
        }
    }
    MPI_Barrier(comm);
    // the bytes, by one member of the group
    if (gr == 0) {
        auto b = ref::slurp(name);
        if (b.size() != 3600 + w.nt * (240 + 4 * w.ns)) e << "file size " << b.size() << "; ";
        else for (size_t t = 0; t < w.nt; t++) {
            auto h = ref_header(w.R, w.seed, 0, t);
            size_t at = 3600 + t * (240 + 4 * w.ns);
            // (bytes no rule names are not judged here)
            for (auto& f : w.R.ent) {
                size_t n = f.type == ref::SHORT ? 2 : 4;
                if (memcmp(&b[at + f.loc - 1], &h[f.loc - 1], n)) { e << f.name << " of trace " << t << " on disk; "; break; }
            }
            for (size_t j = 0; j < w.ns; j++)
                if (ref::getu32(&b[at + 240 + 4 * j]) != sample_bits(w.style, w.seed, t, j)) { e << "sample " << j << " of trace " << t << " on disk; "; break; }
            if (!e.str().empty()) break;
        }
    }
    size_t off = offset_of(w.rpart, gr), n = w.rpart[gr];
    {
        auto r = open_read(piol, name, w.io);
        if (r->readNs() != w.ns || r->readNt() != w.nt) { e << "read " << r->readNs() << " samples, " << r->readNt() << " traces; "; n = 0; }
        std::vector<float> t(n * w.ns);
        EP::Param p(cr, n);
        r->readTrace(off, n, t.data(), &p);
        for (size_t k = 0; k < n; k++) {
            auto h = ref_header(w.R, w.seed, 0, off + k);
            auto s = prm_vs_header(&p, k, w.R, h.data());
            if (!s.empty()) { e << "trace " << off + k << " " << s << "; "; break; }
            for (size_t j = 0; j < w.ns; j++)
                if (ref::f2u(t[k * w.ns + j]) != sample_bits(w.style, w.seed, off + k, j)) { e << "sample " << j << " of trace " << off + k << " read back; "; break; }
            if (!e.str().empty()) break;
        }
        if (w.extra == 1 && r->readNt() == w.nt) {
            // any non-index entry of the rules, floats being read as such
            const ref::Field& f = w.R.ent[0];
            std::vector<EP::CoordElem> mm(4);
            auto dbl = std::make_shared<EP::Rule>(std::vector<EP::Meta>{PIOL_META_xSrc, PIOL_META_ySrc});
            EP::Param q(dbl, n);
            for (size_t k = 0; k < n; k++) {
                PU::setPrm(k, PIOL_META_xSrc, double(ent_value(w.seed, 0, off + k, f)), &q);
                PU::setPrm(k, PIOL_META_ySrc, double(off + k), &q);
            }
            EP::getMinMax(piol.get(), off, n, PIOL_META_xSrc, PIOL_META_ySrc, &q, mm.data());
            if (w.nt) {
                double lo = 1e300, hi = -1e300;
                for (size_t t = 0; t < w.nt; t++) { double x = double(ent_value(w.seed, 0, t, f)); lo = std::min(lo, x); hi = std::max(hi, x); }
                if (mm[0].val != lo || mm[1].val != hi || mm[2].val != 0 || mm[3].val != double(w.nt - 1) || mm[2].num != 0 || mm[3].num != w.nt - 1)
                    e << "minimum " << mm[0].val << " maximum " << mm[1].val << " want " << lo << ", " << hi << ", or the ends " << mm[2].num << "," << mm[3].num << " of " << w.nt << "; ";
            }
        }
    }
    if (w.extra == 2) {
        std::string kd;
        auto rule = std::make_shared<EP::Rule>(std::vector<EP::Meta>{PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_il, PIOL_META_xl, PIOL_META_Offset, PIOL_META_gtn});
        EP::Param p(rule, w.rpart[gr]);
        auto key = [&](size_t t) { return int64_t(hash({w.seed, t, 4}) % 3); };
        for (size_t k = 0; k < w.rpart[gr]; k++) {
            for (auto m : {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv}) PU::setPrm(k, m, 1., &p);
            for (auto m : {PIOL_META_xl, PIOL_META_Offset}) PU::setPrm(k, m, Integer(1), &p);
            PU::setPrm(k, PIOL_META_il, Integer(key(off + k)), &p);
            PU::setPrm(k, PIOL_META_gtn, Integer(off + k), &p);
        }
        auto l = EP::sort(piol.get(), PIOL_SORTTYPE_LineOff, &p);
        Sv want(w.nt);
        for (size_t i = 0; i < w.nt; i++) want[i] = i;
        std::stable_sort(want.begin(), want.end(), [&](size_t a, size_t b) { return key(a) < key(b); });
        Sv inv(w.nt);
        for (size_t i = 0; i < w.nt; i++) inv[want[i]] = i;
        if (l.size() != w.rpart[gr]) e << "sort returned " << l.size() << "; ";
        else for (size_t k = 0; k < l.size(); k++) if (l[k] != inv[off + k]) { e << "sorted place of trace " << off + k << " is " << l[k] << " want " << inv[off + k] << "; "; break; }
    }
    if (w.extra == 3 || w.extra == 5) {
        std::vector<std::string> outs;
        auto gain = [&](uint32_t u) { return w.extra == 5 ? ref::f2u(4 * ref::u2f(u)) : u; };
        auto key = [&](size_t t) { return ent_value(w.seed, 0, t, *w.R.find(PIOL_META_il)); };
        {
            auto rule = std::make_shared<EP::Rule>(std::vector<EP::Meta>{PIOL_META_il, PIOL_META_COPY});
            exseis::Flow::Set s(piol, name, rule);
            if (w.extra == 5) s.AGC(twice, 1, 1.f);
            s.sort([](const EP::Param* p, const size_t i, const size_t j) { return PU::getPrm<Integer>(i, PIOL_META_il, p) < PU::getPrm<Integer>(j, PIOL_META_il, p); });
            if (w.extra == 5) s.AGC(twice, 1, 1.f);
            outs = s.output(name + "-out");
        }
        MPI_Barrier(comm);
        if (outs.size() != 1) e << outs.size() << " outputs of the data set; ";
        else if (gr == 0) {
            auto b = ref::slurp(outs[0]);
            Sv want(w.nt);
            for (size_t i = 0; i < w.nt; i++) want[i] = i;
            std::stable_sort(want.begin(), want.end(), [&](size_t x, size_t y) { return key(x) < key(y); });
            if (b.size() != 3600 + w.nt * (240 + 4 * w.ns)) e << "data set output size " << b.size() << "; ";
            else for (size_t t = 0; t < w.nt; t++) for (size_t j = 0; j < w.ns; j++)
                if (ref::getu32(&b[3600 + t * (240 + 4 * w.ns) + 240 + 4 * j]) != gain(sample_bits(w.style, w.seed, want[t], j))) { e << "sample " << j << " of data set trace " << t << "; "; t = w.nt; break; }
            unlink(outs[0].c_str());
        }
    }
    if (w.extra == 4) {
        auto r = open_read(piol, name, w.io);
        EP::ReadInterface* ri = *r;
        auto g = EP::getIlXlGathers(piol.get(), ri);
        size_t k = 0;
        // in-line and cross-line as the headers say (0 when no rule wrote them)
        auto il = w.R.find(PIOL_META_il), xl = w.R.find(PIOL_META_xl);
        auto val = [&](const ref::Field* f, size_t t) -> int64_t { return f ? ent_value(w.seed, 0, t, *f) : 0; };
        bool std_il = il && RuleSpec::standard(*il), std_xl = xl && RuleSpec::standard(*xl);
        if ((!il || std_il) && (!xl || std_xl) && !w.R.copy) {
            for (size_t t = 0; t < w.nt; k++) {
                size_t u = t;
                while (u < w.nt && val(il, u) == val(il, t) && val(xl, u) == val(xl, t)) u++;
                if (k >= g.size() || g[k].num_traces != u - t) { e << "gather " << k << " is wrong; "; break; }
                t = u;
            }
        }
    }
    MPI_Barrier(comm);
    if (is_err(piol)) e << "an error was recorded; ";
    return e.str();
}

static void prop(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    // groups: any division of the processes, any order within a group
    size_t ng = 1 + c.draw(size_t(np));
    std::vector<int> color(np), key(np);
    for (int r = 0; r < np; r++) { color[r] = int(c.draw(ng)); key[r] = int(c.draw(4)); }
    if (ng == 1 && c.flip()) for (int r = 0; r < np; r++) key[r] = r;
    bool world = ng == 1 && c.flip();
    if (world) for (int r = 0; r < np; r++) key[r] = r;
    std::vector<Group> G(ng);
    for (size_t g = 0; g < ng; g++) {
        for (int r = 0; r < np; r++) if (color[r] == int(g)) G[g].member.push_back(r);
        std::stable_sort(G[g].member.begin(), G[g].member.end(), [&](int a, int b) { return key[a] < key[b]; });
    }
    MPI_Comm comm = MPI_COMM_WORLD;
    if (!world) MPI_Comm_split(MPI_COMM_WORLD, color[me], key[me], &comm);
    size_t gi = size_t(color[me]);
    int gr = int(std::find(G[gi].member.begin(), G[gi].member.end(), me) - G[gi].member.begin());
    size_t used = 0, big = 0;
    for (auto& g : G) { used += !g.member.empty(); big += g.member.size() > 1; }
    c.desc << "groups";
    for (auto& g : G) c.desc << " " << vstr(g.member);
    c.label_if(used > 1, "several groups");
    c.label_if(used > 1 && big > 0, "several groups, one of more than one process");
    bool coll = c.chance(1, 2);
    std::string dir = coll ? "" : sg::fresh_dir(c, "groups");
    {
        auto piol = new_piol(comm);
        if (coll) {
            c.desc << " collectives:";
            c.label("collectives");
            c.nontrivial(np > 1);
            collectives(c, piol, G[gi], gr, comm, gi, ng);
            c.check(!is_err(piol), "an error was recorded");
        }
        else {
            std::vector<std::vector<Work>> todo(ng);
            for (size_t g = 0; g < ng; g++) {
                if (G[g].member.empty()) continue;
                int gn = int(G[g].member.size());
                size_t rounds = 1 + c.draw(2);
                c.desc << " group " << g << ":";
                for (size_t k = 0; k < rounds; k++) {
                    Work w;
                    w.ns    = c.size_in(1, 20);
                    w.nt    = c.size_in(0, 24);
                    w.seed  = c.draw(1u << 20) * ng + g;
                    w.style = int(c.draw(S_NSTYLES));
                    w.R     = gen_rule(c, false, false);
                    if (w.R.ent.empty()) w.R.ent.push_back(ref::fields()[0]);
                    size_t nb = c.size_in(1, 3);
                    auto p = c.partition(w.nt, nb);
                    size_t o = 0;
                    for (size_t b = 0; b < nb; b++) {
                        Sv set(p[b]);
                        for (auto& x : set) x = o++;
                        w.writes.push_back(gen_share(c, set, gn));
                    }
                    w.rpart = c.partition(w.nt, size_t(gn));
                    w.io    = gen_io(c, 240 + 4 * w.ns);
                    w.extra = std::min(int(c.draw(8)), 5);
                    if (w.extra == 5 && w.style > S_NORMAL) w.extra = 3;
                    if ((w.extra == 3 || w.extra == 5) && (w.nt == 0 || !w.R.find(PIOL_META_il) || !RuleSpec::standard(*w.R.find(PIOL_META_il)))) w.extra = 0;
                    static const char* ex[] = {"", "+minmax", "+sort", "+set", "+gathers", "+long set"};
                    c.desc << " " << w.nt << "x" << w.ns << " " << w.writes.size() << " writes " << w.io.str() << ex[w.extra];
                    c.label_if(w.extra > 0, ex[w.extra] + 1 * (w.extra > 0));
                    todo[g].push_back(w);
                }
            }
            c.label("files");
            c.nontrivial(used > 1);
            std::string err;
            for (size_t k = 0; k < todo[gi].size(); k++) {
                Work w = todo[gi][k];
                w.io.comm = comm;
                // without options a file belongs to the processes of its library handle
                bool plain = !w.io.use;
                if (plain) w.io.comm = MPI_COMM_WORLD;
                std::string name = std::string(dir + "g" + std::to_string(gi) + "-" + std::to_string(k) + ".segy");
                auto s = work(w, piol, name, gr, int(G[gi].member.size()), comm);
                if (!s.empty()) err += "group " + std::to_string(gi) + " file " + std::to_string(k) + ": " + s;
                if (gr == 0) unlink(name.c_str());
            }
            if (!err.empty()) c.fail(err);
        }
        barrier();
    }
    if (!world) MPI_Comm_free(&comm);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
