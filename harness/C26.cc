// C26: a check of the order of a file accepts exactly the ordered files.
#include "setgen.hh"
#include "util.hh"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
extern "C" int util_main_versort(int, char**);

static ref::File make(Ctx& c, const std::vector<srt::Rec>& v, size_t ns)
{
    ref::File F;
    F.ns = ns; F.inc_us = 4000; F.tr.resize(v.size());
    for (size_t t = 0; t < v.size(); t++) {
        for (size_t b = 0; b < 240; b++) F.tr[t].h[b] = uint8_t(hash({v.size(), t, b}));
        ref::put16(&F.tr[t].h[68], 1);
        ref::put16(&F.tr[t].h[200], 1);
        sg::put_keys(F.tr[t].h, v[t], 1);
        F.tr[t].s.assign(ns, ref::f2u(float(t)));
    }
    (void)c;
    return F;
}
static bool ordered(EP::SortType t, const std::vector<srt::Rec>& v)
{
    for (size_t i = 1; i < v.size(); i++) if (srt::key(t, v[i]) < srt::key(t, v[i - 1])) return false;
    return true;
}
static void prop(Ctx& c)
{
    auto type = c.pick(srt::types());
    size_t n  = c.count_in(0, c.chance(1, 8) ? 200 : 30, 5000);
    std::string kd;
    auto v = srt::gen(c, n, kd, true);
    // as it is, ordered, ordered but for one swap or one displaced trace, ordered by a neighbouring key
    int how = int(c.draw(6));
    auto by = how == 5 ? c.pick(srt::types()) : type;
    std::string what = "as generated";
    if (how) {
        auto o = srt::order(by, v);
        std::vector<srt::Rec> w;
        for (size_t k : o) w.push_back(v[k]);
        v    = w;
        what = "ordered by " + std::string(srt::name(by));
        if (n > 1 && (how == 2 || how == 3)) {
            size_t i = c.draw(n - 1);
            if (c.chance(1, 2)) {  // at the boundary of a share
                size_t q = size_t(c.size()) > 1 ? 1 + c.draw(uint64_t(c.size() - 1)) : 0;
                size_t b = exseis::utils::block_decomposition(n, size_t(c.size()), q).global_offset;
                if (b > 0 && b < n) i = b - 1;
            }
            std::swap(v[i], v[i + 1]);
            what += " with traces " + std::to_string(i) + " and the next swapped";
        }
        else if (n > 1 && how == 4) {
            size_t i = c.draw(n), j = c.draw(n);
            auto x = v[i];
            v.erase(v.begin() + long(i));
            v.insert(v.begin() + long(j), x);
            what += " with trace " + std::to_string(i) + " moved to " + std::to_string(j);
        }
    }
    bool want = ordered(type, v);
    int way   = int(c.draw(4));  // 0 blocks, 1 uneven shares, 2 the tool, 3 a set's sort first
    auto part = c.partition(n, c.size());
    c.desc << "np=" << c.size() << " nt=" << n << " " << kd << " " << what << " check=" << srt::name(type)
           << (way == 0 ? " blocks" : way == 1 ? " shares " + vstr(part) : way == 2 ? " tool" : " after sorting");
    c.label(want ? "ordered" : "not ordered");
    c.label(way == 0 ? "blocks" : way == 1 ? "uneven shares" : way == 2 ? "tool" : "after sorting");
    size_t breaks = 0, inner = 0;
    {
        size_t at = 0;
        std::vector<size_t> ends;
        for (int r = 0; r < c.size(); r++) { at += way == 1 ? part[r] : exseis::utils::block_decomposition(n, size_t(c.size()), size_t(r)).local_size; ends.push_back(at); }
        for (size_t i = 1; i < n; i++) if (srt::key(type, v[i]) < srt::key(type, v[i - 1])) {
            breaks++;
            inner += std::find(ends.begin(), ends.end(), i) == ends.end();
        }
    }
    c.label_if(breaks > 0 && inner == 0, "out of order at process boundaries only");
    c.nontrivial(n > 2);
    auto dir = sg::fresh_dir(c, "order");
    std::string name = dir + "in_00.segy";
    if (c.rank() == 0) ref::spit(name, make(c, v, 2).encode());
    barrier();
    if (way == 3) {
        auto piol = new_piol();
        {
            EF::Set s(piol, dir + "in_*");
            s.sort(type);
            auto o = s.output(dir + "out_");
            if (o.size() == 1) name = o[0];
            else c.fail("the sort wrote " + std::to_string(o.size()) + " files");
        }
        piol->isErr();
        want = true;
    }
    if (!c.all_ok()) return;
    if (way == 2) {
        std::string out;
        int t = 0;
        for (size_t i = 0; i < srt::types().size(); i++) if (srt::types()[i] == type) t = int(type);
        int rc = run_util(c, util_main_versort, {"exseis-versort", "-i", name, "-t", std::to_string(t)}, out);
        c.eq(rc, 0, "exit status of the tool");
        int yes = out.find("Success") != std::string::npos, no = out.find("Failure") != std::string::npos;
        int sum[2] = {yes, no}, all[2];
        MPI_Allreduce(sum, all, 2, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        c.check((all[0] > 0) != (all[1] > 0), "the tool printed Success " + std::to_string(all[0]) + " and Failure " + std::to_string(all[1]) + " times");
        c.check((all[0] > 0) == want, std::string("the tool says the file is ") + (all[0] ? "" : "not ") + "in order");
    }
    else {
        auto piol = new_piol();
        bool ok;
        {
            EP::ReadDirect r(piol, name);
            EP::ReadInterface* ri = r;
            auto d = exseis::utils::block_decomposition(n, size_t(c.size()), size_t(c.rank()));
            if (way == 1) d = {offset_of(part, c.rank()), part[c.rank()]};
            ok = EP::checkOrder(ri, d, type);
        }
        int mine = ok, all;
        MPI_Allreduce(&mine, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        c.check(bool(all) == want, std::string("the check ") + (all ? "accepts" : "refuses") + " a file that is " + (want ? "" : "not ") + "in order");
        c.check(!is_err(piol), "an error was recorded");
        piol.reset();
    }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
