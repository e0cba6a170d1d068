// C09: the parallel header sort returns the globally ordered permutation.
#include "sortref.hh"
namespace PU = EP::param_utils;
using exseis::utils::Floating_point;
using exseis::utils::Integer;

static Sv gather_all(const Sv& v, MPI_Comm comm)
{
    int n = int(v.size()), np, tot = 0;
    MPI_Comm_size(comm, &np);
    std::vector<int> cnt(np), dis(np);
    MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, comm);
    for (int i = 0; i < np; i++) { dis[i] = tot; tot += cnt[i]; }
    Sv o(tot + 1);
    MPI_Allgatherv(v.data(), n, MPI_UINT64_T, o.data(), cnt.data(), dis.data(), MPI_UINT64_T, comm);
    o.resize(tot);
    return o;
}
static void put(EP::Param* p, size_t k, const RuleSpec& R, const srt::Rec& r, uint64_t seed, size_t g)
{
    fill_param(p, k, R, seed, 0, g);
    auto F = [&](EP::Meta m, double v) { PU::setPrm(k, m, Floating_point(v), p); };
    auto I = [&](EP::Meta m, int64_t v) { PU::setPrm(k, m, Integer(v), p); };
    F(PIOL_META_xSrc, r.xs); F(PIOL_META_ySrc, r.ys); F(PIOL_META_xRcv, r.xr); F(PIOL_META_yRcv, r.yr);
    I(PIOL_META_Offset, r.off); I(PIOL_META_il, r.il); I(PIOL_META_xl, r.xl);
    PU::setPrm(k, PIOL_META_gtn, g, p);
    PU::setPrm(k, PIOL_META_ltn, g, p);
}
static std::string same(const EP::Param* a, size_t i, const EP::Param* b, size_t j, const RuleSpec& R)
{
    if (R.copy) for (size_t q = 0; q < 240; q++)
        if (a->c[i * 240 + q] != b->c[j * 240 + q]) return "raw header byte " + std::to_string(q + 1);
    for (auto& f : R.ent) {
        auto m = EP::Meta(f.meta);
        bool ok = f.type == ref::LONG ? PU::getPrm<Integer>(i, m, a) == PU::getPrm<Integer>(j, m, b)
                  : f.type == ref::SHORT ? PU::getPrm<int16_t>(i, m, a) == PU::getPrm<int16_t>(j, m, b)
                                         : PU::getPrm<Floating_point>(i, m, a) == PU::getPrm<Floating_point>(j, m, b);
        if (!ok) return f.name;
    }
    for (auto m : {PIOL_META_gtn, PIOL_META_ltn})
        if (PU::getPrm<size_t>(i, m, a) != PU::getPrm<size_t>(j, m, b)) return m == PIOL_META_gtn ? "gtn" : "ltn";
    return "";
}

static void prop(Ctx& c)
{
    // the communicator the library is given
    int np = c.size(), rank = c.rank();
    MPI_Comm comm = MPI_COMM_WORLD;
    bool sub = np > 1 && c.chance(1, 5);
    bool rev = false;
    int groups = 1;
    if (sub) {
        rev    = c.flip();
        groups = 1 + int(c.draw(2));
        MPI_Comm_split(MPI_COMM_WORLD, rank % groups, rev ? -rank : rank, &comm);
        MPI_Comm_rank(comm, &rank);
        MPI_Comm_size(comm, &np);
    }
    size_t n = c.count_in(0, c.chance(1, 6) ? 400 : 60, 6000);
    // every rank draws the same partition for world and for group sizes
    std::vector<size_t> part;
    {
        std::vector<std::vector<size_t>> ps;
        bool every = c.chance(1, 3);  // each process holds at least four
        if (every) n = std::max(n, size_t(4 * c.size()));
        for (int g = 1; g <= c.size(); g++) {
            ps.push_back(c.partition(every ? n - 4 * g : n, g));
            if (every) for (auto& x : ps.back()) x += 4;
        }
        part = ps[np - 1];
    }
    std::string kd;
    auto recs = srt::gen(c, n, kd);
    auto type = c.pick(srt::types());
    RuleSpec R;
    auto& F = ref::fields();
    for (auto& f : F) {
        bool need = f.meta == PIOL_META_xSrc || f.meta == PIOL_META_ySrc || f.meta == PIOL_META_xRcv || f.meta == PIOL_META_yRcv
                    || f.meta == PIOL_META_Offset || f.meta == PIOL_META_il || f.meta == PIOL_META_xl;
        if (need || c.chance(1, 4)) R.ent.push_back(f);
    }
    R.copy = c.chance(1, 3);
    if (c.flip()) std::reverse(R.ent.begin(), R.ent.end());
    uint64_t seed = c.draw(1u << 16);
    bool fo       = c.flip();
    size_t mode   = c.draw(4);  // 0 type/file order, 1 comp file order, 2 comp sorted order, 3 own comparison
    c.desc << "n=" << n << " parts=" << vstr(part) << " sort=" << srt::name(type) << " mode=" << mode << " " << kd
           << " rules=" << R.str() << (sub ? " sub-communicators" : "");
    c.label(srt::name(type));
    c.label_if(sub, "sub-communicator");
    c.label_if(R.copy, "raw-copy");
    size_t mn = n;
    for (auto x : part) mn = std::min(mn, x);
    c.label(mn == 0 ? "a rank with none" : mn < 4 ? "a rank with 1-3" : "ranks with 4 or more");
    size_t t = srt::ties(type, recs);
    c.label_if(t > 0, "ties");
    c.label_if(mode == 3, "own-comparison");

    Sv want;
    EP::CompareP comp = EP::getComp(type);
    if (mode == 3) {  // descending in-line, then original order
        want.resize(n);
        for (size_t i = 0; i < n; i++) want[i] = i;
        std::stable_sort(want.begin(), want.end(), [&](size_t a, size_t b) { return recs[a].il > recs[b].il; });
        comp = [](const EP::Param* p, const size_t i, const size_t j) {
            auto a = PU::getPrm<Integer>(i, PIOL_META_il, p), b = PU::getPrm<Integer>(j, PIOL_META_il, p);
            return a > b || (a == b && PU::getPrm<size_t>(i, PIOL_META_ltn, p) < PU::getPrm<size_t>(j, PIOL_META_ltn, p));
        };
        // a comparison which says nothing of equal traces
        if (seed % 2)
            comp = [](const EP::Param* p, const size_t i, const size_t j) {
                return PU::getPrm<Integer>(i, PIOL_META_il, p) > PU::getPrm<Integer>(j, PIOL_META_il, p);
            };
    }
    else want = srt::order(type, recs);
    Sv ident(n), inv(n);
    for (size_t k = 0; k < n; k++) { inv[want[k]] = k; ident[k] = k; }
    c.nontrivial(n > 2 && want != ident && (np > 1 || t > 0));

    auto piol = new_piol(comm);
    size_t off = offset_of(part, rank), lnt = part[rank];
    auto rule  = R.make();
    rule->addRule(PIOL_META_gtn);
    rule->addRule(PIOL_META_ltn);
    if (!rule->getEntry(PIOL_META_gtn)) rule->addIndex(PIOL_META_gtn);
    if (!rule->getEntry(PIOL_META_ltn)) rule->addIndex(PIOL_META_ltn);
    EP::Param prm(rule, lnt), all(rule, n);
    for (size_t i = 0; i < n; i++) put(&all, i, R, recs[i], seed, i);
    for (size_t i = 0; i < lnt; i++) put(&prm, i, R, recs[off + i], seed, off + i);
    Sv list;
    bool file_order = true;
    switch (mode) {
        case 0: list = EP::sort(piol.get(), type, &prm); break;
        case 1: list = EP::sort(piol.get(), &prm, comp, true); break;
        case 2: list = EP::sort(piol.get(), &prm, comp, false); file_order = false; break;
        default: file_order = fo; list = EP::sort(piol.get(), &prm, comp, file_order);
    }
    c.eq(list.size(), lnt, "length of the returned list");
    auto got = gather_all(list, comm);
    if (got != (file_order ? inv : want))
        c.fail(std::string("list in ") + (file_order ? "file" : "sorted") + " order is " + vstr(got, 40) + " want " + vstr(file_order ? inv : want, 40));
    c.eq(prm.size(), lnt, "parameters left");
    for (size_t i = 0; i < lnt && !c.failed; i++) {
        auto s = same(&prm, i, &all, want[off + i], R);
        if (!s.empty()) c.fail("sorted parameter set " + std::to_string(off + i) + " is not that of trace " + std::to_string(want[off + i]) + ": " + s);
    }
    c.check(!is_err(piol), "an error was recorded");

    // the local helper: numbering of a list in sorted order
    if (!c.failed) {
        size_t m = c.count_in(0, 40, 3000), a = 1 + c.draw(50);
        Sv v(m);
        for (auto& x : v) x = c.draw(a);
        auto ix = EP::getSortIndex(m, v.data());
        std::set<size_t> seen(ix.begin(), ix.end());
        bool ok = ix.size() == m && seen.size() == m && (m == 0 || *seen.rbegin() == m - 1);
        for (size_t i = 1; ok && i < m; i++) ok = v[ix[i - 1]] <= v[ix[i]];
        c.check(ok, "getSortIndex of " + vstr(v) + " gives " + vstr(ix));
    }
    piol.reset();
    if (sub) MPI_Comm_free(&comm);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
