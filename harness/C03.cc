// C03: the output file does not depend on how the work was split up.
#include "common.hh"

struct Step { int what; Share share; };  // what: 0 both, 1 samples, 2 params
struct Config {
    int k;  // participating ranks
    std::vector<Step> steps;
    IoOpt io;
    int nt_mode;
    std::string str() const
    {
        std::string s = "{k=" + std::to_string(k) + " " + io.str();
        for (auto& x : steps) s += std::string(" ") + "btp"[x.what] + ":" + x.share.str();
        return s + "}";
    }
};
static Config gen_config(Ctx& c, size_t nt, size_t ns, int np)
{
    Config f;
    f.k  = c.flip() ? np : int(1 + c.draw(np));
    f.io = gen_io(c, 240 + 4 * ns);
    f.nt_mode = int(c.draw(2));
    size_t nb = c.size_in(1, 4);
    std::vector<Sv> batches(nb);
    if (c.chance(1, 3)) { for (size_t t = 0; t < nt; t++) batches[c.draw(nb)].push_back(t); }
    else {
        auto p = c.partition(nt, nb);
        size_t o = 0;
        for (size_t b = 0; b < nb; b++) for (size_t j = 0; j < p[b]; j++) batches[b].push_back(o++);
    }
    for (size_t bi : c.permutation(nb)) {
        int m = int(c.draw(3));
        if (m == 0) f.steps.push_back({0, gen_share(c, batches[bi], f.k)});
        else {
            f.steps.push_back({m, gen_share(c, batches[bi], f.k)});
            f.steps.push_back({3 - m, gen_share(c, batches[bi], f.k)});
        }
    }
    return f;
}
static double coord(uint64_t seed, uint64_t t, const ref::Field& f)
{
    uint64_t h = hash({seed, t, uint64_t(f.meta), 3});
    return (h % 3 == 0) ? double(h % 1000003) / 100. : double(int64_t(h % 200000) - 100000);
}

static void prop(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    size_t ns   = c.size_in(1, 40);
    size_t nt   = c.count_in(1, 40, 3000);
    RuleSpec R  = gen_rule(c);
    uint64_t ds = c.draw(1 << 20);
    std::string text = "C03 text " + std::to_string(ds);
    int inc     = 1 + int(c.draw(32767));
    Config A = gen_config(c, nt, ns, np), B = gen_config(c, nt, ns, np);
    c.desc << "ns=" << ns << " nt=" << nt << " rule=" << R.str() << " A=" << A.str() << " B=" << B.str();
    c.label_if(A.k != B.k, "different process counts");
    c.label_if(A.io.use != B.io.use || A.io.coll != B.io.coll, "different I/O options");
    bool diff = A.str() != B.str();
    c.label_if(R.copy, "raw copy rule");
    c.nontrivial(diff && nt > 1);

    std::string fn[2] = {c.path("c03a.segy"), c.path("c03b.segy")};
    auto write        = [&](Config& f, const std::string& name) {
        MPI_Comm sub;
        MPI_Comm_split(MPI_COMM_WORLD, me < f.k ? 0 : 1, me, &sub);
        if (me < f.k) {
            f.io.comm = sub;
            auto piol = new_piol(sub);
            {
                auto w = open_write(piol, name, f.io);
                if (f.nt_mode == 1) w->writeNt(nt);
                w->writeNs(ns);
                w->writeInc(inc * 1e-6);
                w->writeText(text);
                auto rule = R.make();
                for (auto& s : f.steps) {
                    auto& ids = s.share.ids[me];
                    std::vector<float> buf(ids.size() * ns);
                    for (size_t k = 0; k < ids.size(); k++)
                        for (size_t j = 0; j < ns; j++) {
                            uint32_t u = sample_bits(S_ANYBITS, ds, ids[k], j);
                            memcpy(&buf[k * ns + j], &u, 4);
                        }
                    float dummy = 0;
                    float* tp = s.what == 2 ? nullptr : buf.empty() ? &dummy : buf.data();
                    if (s.what == 1) do_write(*w, s.share, ids, tp, PIOL_PARAM_NULL);
                    else {
                        EP::Param p(rule, ids.size());
                        for (size_t k = 0; k < ids.size(); k++) {
                            fill_param(&p, k, R, ds, 0, ids[k]);
                            for (auto& e : R.ent) if (e.type == ref::FLOAT) EP::param_utils::setPrm(k, EP::Meta(e.meta), coord(ds, ids[k], e), &p);
                        }
                        do_write(*w, s.share, ids, tp, &p);
                    }
                }
            }
            c.check(!is_err(piol), "a valid write recorded an error");
        }
        MPI_Comm_free(&sub);
        barrier();
    };
    write(A, fn[0]);
    write(B, fn[1]);
    auto a = ref::slurp(fn[0]);
    if (me == 0) {
        auto b = ref::slurp(fn[1]);
        if (a != b) c.fail("files differ (A vs B): " + hexdiff(a, b));
        c.eq(a.size(), 3600 + nt * (240 + 4 * ns), "file size");
        // anchor to the reference: samples and text
        for (size_t t = 0; t < nt && !c.failed; t++)
            for (size_t j = 0; j < ns && !c.failed; j++)
                c.eq(ref::getu32(&a[3600 + t * (240 + 4 * ns) + 240 + 4 * j]), sample_bits(S_ANYBITS, ds, t, j), "sample");
        if (!c.failed) c.check(memcmp(a.data(), text.data(), text.size()) == 0, "text header");
    }
    // Read with a third configuration
    int k = c.flip() ? np : int(1 + c.draw(np));
    IoOpt rio = gen_io(c, 240 + 4 * ns);
    int what  = int(c.draw(3));
    Sv all(nt);
    for (size_t t = 0; t < nt; t++) all[t] = t;
    Share sh = gen_share(c, all, k);
    c.desc << " read k=" << k << " " << rio.str() << " " << sh.str();
    if (c.all_ok()) {
        MPI_Comm sub;
        MPI_Comm_split(MPI_COMM_WORLD, me < k ? 0 : 1, me, &sub);
        if (me < k) {
            rio.comm  = sub;
            auto piol = new_piol(sub);
            auto r    = open_read(piol, fn[0], rio);
            auto& ids = sh.ids[me];
            size_t n = ids.size(), off = n ? ids[0] : 0;
            std::vector<float> buf(n * ns);
            EP::Param p(R.make(), n);
            float dummy = 0;
            float* tp   = buf.empty() ? &dummy : buf.data();
            if (sh.list) {
                if (what == 0) r->readTraceNonContiguous(n, ids.data(), tp, &p);
                else if (what == 1) r->readTraceNonContiguous(n, ids.data(), tp);
                else r->readParamNonContiguous(n, ids.data(), &p);
            }
            else {
                if (what == 0) r->readTrace(off, n, tp, &p);
                else if (what == 1) r->readTrace(off, n, tp);
                else r->readParam(off, n, &p);
            }
            size_t dosz = 240 + 4 * ns;
            for (size_t q = 0; q < n && !c.failed; q++) {
                const uint8_t* h = &a[3600 + ids[q] * dosz];
                if (what != 1) {
                    auto d = prm_vs_header(&p, q, R, h);
                    if (!d.empty()) c.fail("read of trace " + std::to_string(ids[q]) + ": " + d);
                }
                if (what != 2)
                    for (size_t j = 0; j < ns && !c.failed; j++) {
                        uint32_t g;
                        memcpy(&g, &buf[q * ns + j], 4);
                        c.eq(g, ref::getu32(h + 240 + 4 * j), "read of trace " + std::to_string(ids[q]) + " sample " + std::to_string(j));
                    }
            }
            c.check(!is_err(piol), "a valid read recorded an error");
            r.reset();
        }
        MPI_Comm_free(&sub);
    }
    drop(fn[0]);
    drop(fn[1]);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
