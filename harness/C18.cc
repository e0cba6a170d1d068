// C18: block decomposition.
#include "setgen.hh"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
namespace U = exseis::utils;

static size_t big(Ctx& c)
{
    switch (c.draw(6)) {
        case 0: return c.draw(20);
        case 1: return c.draw(5000);
        case 2: return size_t(1) << c.draw(64);
        case 3: return (size_t(1) << c.draw(64)) - 1;
        case 4: return std::numeric_limits<size_t>::max() - c.draw(4);
        default: return c.bits64() >> c.draw(64);
    }
}
static std::string S(size_t v) { return std::to_string(v); }

static void functions(Ctx& c)
{
    size_t n = big(c), k = c.chance(1, 8) ? big(c) : 1 + c.size_in(0, c.chance(1, 4) ? 3000 : 40);
    if (k == 0) k = 1;
    c.desc << "range " << n << " over " << k;
    c.label_if(n < k, "more processes than indices");
    c.label_if(n > (size_t(1) << 40), "huge range");
    c.nontrivial(n > 1 && k > 1);
    bool all = k <= 4000;
    std::vector<size_t> ranks;
    if (all) for (size_t r = 0; r < k; r++) ranks.push_back(r);
    else for (int q = 0; q < 300; q++) {
        size_t r = q == 0 ? 0 : q == 1 ? k - 1 : q == 2 ? std::min(n % k, k - 1) : q == 3 ? (n % k ? n % k - 1 : 0) : hash({n, k, uint64_t(q)}) % k;
        ranks.push_back(r);
    }
    size_t at = 0, lo = std::numeric_limits<size_t>::max(), hi = 0;
    for (size_t r : ranks) {
        auto d = U::block_decomposition(n, k, r);
        auto e = U::exseis_block_decomposition(n, k, r);
        if (e.global_offset != d.global_offset || e.local_size != d.local_size) return c.fail("the C function disagrees for process " + S(r));
        if (all) {
            if (d.global_offset != at) return c.fail("process " + S(r) + " starts at " + S(d.global_offset) + ", the previous ended at " + S(at));
            at += d.local_size;
        }
        else {
            if (d.global_offset > n || d.local_size > n - d.global_offset) return c.fail("block of process " + S(r) + " ends past the range");
            if (r + 1 < k) {
                auto x = U::block_decomposition(n, k, r + 1);
                if (x.global_offset != d.global_offset + d.local_size) return c.fail("a gap or overlap after process " + S(r));
            }
            else if (d.global_offset + d.local_size != n) return c.fail("the last block ends at " + S(d.global_offset + d.local_size));
            if (r == 0 && d.global_offset != 0) return c.fail("the first block starts at " + S(d.global_offset));
        }
        lo = std::min(lo, d.local_size);
        hi = std::max(hi, d.local_size);
        // locations: the ends of the block, one inside
        if (d.local_size) for (size_t l : {size_t(0), d.local_size - 1, size_t(hash({n, r}) % d.local_size)}) {
            auto w = U::block_decomposition_location(n, k, d.global_offset + l);
            if (w.rank != r || w.local_index != l)
                return c.fail("index " + S(d.global_offset + l) + " is located at " + S(w.rank) + ":" + S(w.local_index) + ", want " + S(r) + ":" + S(l));
        }
        if (n <= 6000) for (size_t l = 0; l < d.local_size; l++) {
            auto w = U::block_decomposition_location(n, k, d.global_offset + l);
            if (w.rank != r || w.local_index != l) return c.fail("index " + S(d.global_offset + l) + " is located at " + S(w.rank) + ":" + S(w.local_index));
        }
    }
    if (all && at != n) return c.fail("the blocks cover " + S(at) + " of " + S(n));
    if (hi - lo > 1) return c.fail("block sizes " + S(lo) + " and " + S(hi));
    if (hi != n / k + (n % k != 0 && ranks.front() < n % k)) return c.fail("largest block " + S(hi));
}

/// Records which traces this process handles
static std::vector<uint64_t> g_seen;
static exseis::utils::Trace_value watch(const exseis::utils::Trace_value* s, size_t, exseis::utils::Trace_value, size_t)
{
    if (g_seen.empty() || g_seen.back() != uint64_t(s[0])) g_seen.push_back(uint64_t(s[0]));
    return 1;
}

static void gatherv(std::vector<uint64_t>& v)
{
    int n = int(v.size()), np, tot = 0;
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    std::vector<int> cnt(np), dis(np);
    MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < np; i++) { dis[i] = tot; tot += cnt[i]; }
    std::vector<uint64_t> o(tot + 1);
    MPI_Allgatherv(v.data(), n, MPI_UINT64_T, o.data(), cnt.data(), dis.data(), MPI_UINT64_T, MPI_COMM_WORLD);
    o.resize(tot);
    v = o;
}
/// The traces of the files of a set each process works on
static void set(Ctx& c)
{
    std::string d;
    auto in = sg::gen(c, 3, 2, c.chance(1, 6) ? 60 : 15, S_INDEX, d, 3);
    sg::set_samples(in, [](size_t f, size_t t, std::vector<uint32_t>& v) { for (auto& x : v) x = ref::f2u(float(1 + f * 10000 + t)); });
    c.desc << "np=" << c.size() << " set " << d;
    auto gs = sg::groups(in);
    c.label("set");
    c.nontrivial(c.size() > 1 && !gs[0].ids.empty());
    auto dir = sg::fresh_dir(c, "set");
    sg::write(c, in, dir);
    g_seen.clear();
    auto piol = new_piol();
    {
        EF::Set s(piol, in.pattern);
        s.AGC(watch, 1, 1.f);
        s.output(dir + "out_");
    }
    piol->isErr();
    piol.reset();
    barrier();
    for (size_t f = 0; f < in.files.size(); f++) {
        std::vector<uint64_t> mine;
        for (uint64_t v : g_seen) if ((v - 1) / 10000 == f) mine.push_back((v - 1) % 10000);
        size_t mn = std::numeric_limits<size_t>::max(), mx = 0;
        std::vector<uint64_t> sz{mine.size()};
        gatherv(sz);
        for (auto v : sz) { mn = std::min(mn, size_t(v)); mx = std::max(mx, size_t(v)); }
        c.check(mx - mn <= 1, "file " + S(f) + ": the processes work on " + vstr(sz) + " traces");
        gatherv(mine);
        c.eq(mine.size(), in.files[f].tr.size(), "traces of file " + S(f) + " worked on");
        for (size_t i = 0; i < mine.size() && i < in.files[f].tr.size(); i++)
            if (mine[i] != i) { c.fail("file " + S(f) + ": trace " + S(mine[i]) + " where trace " + S(i) + " is due"); break; }
    }
}
static void prop(Ctx& c)
{
    if (c.chance(1, 4)) set(c);
    else functions(c);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
