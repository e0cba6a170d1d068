// C25: velocity models and the conversion of radon gathers to angle gathers.
#include "setgen.hh"
#include "util.hh"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
namespace U = exseis::utils;
extern "C" int util_main_radon(int, char**);

struct Grid {
    int64_t il0, xl0, ilinc, xlinc;
    size_t nil, nxl;
    bool il_fast;
    size_t ns;
    int inc;
    size_t nt() const { return nil * nxl; }
    size_t at(size_t i, size_t x) const { return il_fast ? x * nil + i : i * nxl + x; }
    int32_t il(int64_t i) const { return int32_t(il0 + ilinc * i); }
    int32_t xl(int64_t x) const { return int32_t(xl0 + xlinc * x); }
};
static Grid gen_grid(Ctx& c)
{
    Grid g;
    g.nil = 1 + c.size_in(0, 6);
    g.nxl = 1 + c.size_in(0, 6);
    auto st = [&] { return c.pick(std::vector<int64_t>{1, 2, 10, -1, -3, 700}); };
    auto og = [&] { return c.pick(std::vector<int64_t>{1, 0, 1000, -20, 2000000}); };
    g.il0 = og(); g.xl0 = og(); g.ilinc = st(); g.xlinc = st();
    g.il_fast = c.flip();
    g.ns  = 1 + c.size_in(0, 8);
    g.inc = c.pick(std::vector<int>{4000, 2000, 1000, 8000, 333});
    c.desc << "np=" << c.size() << " model in-lines " << g.nil << " from " << g.il0 << " by " << g.ilinc << ", cross-lines " << g.nxl << " from " << g.xl0 << " by " << g.xlinc
           << (g.il_fast ? ", in-lines consecutive" : ", cross-lines consecutive") << " ns=" << g.ns << " inc=" << g.inc;
    c.label_if(g.nil == 1 || g.nxl == 1, "grid of one line");
    return g;
}
static ref::File grid_file(const Grid& g, uint64_t seed, const std::function<uint32_t(size_t, size_t)>& sample)
{
    ref::File F;
    F.ns = g.ns; F.inc_us = g.inc; F.tr.resize(g.nt());
    for (size_t i = 0; i < g.nil; i++) for (size_t x = 0; x < g.nxl; x++) {
        size_t t = g.at(i, x);
        auto& T  = F.tr[t];
        for (size_t b = 0; b < 240; b++) T.h[b] = uint8_t(hash({seed, t, b}));
        ref::put32(&T.h[188], uint32_t(g.il(int64_t(i))));
        ref::put32(&T.h[192], uint32_t(g.xl(int64_t(x))));
        T.s.resize(g.ns);
        for (size_t j = 0; j < g.ns; j++) T.s[j] = sample(t, j);
    }
    return F;
}

static void model(Ctx& c)
{
    auto g = gen_grid(c);
    uint64_t seed = c.draw(1u << 20);
    size_t n = c.size_in(0, 20);
    std::vector<int64_t> pi(n), px(n);
    bool stray = c.chance(1, 3);  // some positions are outside the grid
    size_t outside = 0;
    auto pos = [&](size_t count) { return stray && c.chance(1, 4) ? (c.flip() ? -1 - int64_t(c.draw(3)) : int64_t(count + c.draw(3))) : int64_t(c.draw(count)); };
    auto in_grid = [&](size_t k) { return pi[k] >= 0 && size_t(pi[k]) < g.nil && px[k] >= 0 && size_t(px[k]) < g.nxl; };
    for (size_t k = 0; k < n; k++) { pi[k] = pos(g.nil); px[k] = pos(g.nxl); outside += !in_grid(k); }
    auto part = c.partition(n, c.size());
    int way = int(c.draw(3));
    c.desc << " | " << n << " positions, shares " << vstr(part) << (way == 0 ? " range" : way == 1 ? " list" : " ReadModel");
    if (outside) c.desc << ", " << outside << " outside the grid";
    c.label_if(outside, "outside the grid");
    c.label(way == 0 ? "range" : way == 1 ? "list" : "ReadModel");
    c.nontrivial(g.nt() > 2 && n > 1);
    std::string name = c.path("model.segy");
    auto F = grid_file(g, seed, [&](size_t t, size_t j) { return sample_bits(S_NORMAL, seed, t, j); });
    if (c.rank() == 0) ref::spit(name, F.encode());
    barrier();
    auto piol = new_piol();
    {
        U::MPI_Distributed_vector<EP::Gather_info> gather(n, MPI_COMM_WORLD);
        if (c.rank() == 0) for (size_t k = 0; k < n; k++) gather.set(k, {1 + k, g.il(pi[k]), g.xl(px[k])});
        MPI_Barrier(MPI_COMM_WORLD);
        auto m = EP::makeFile<EP::ReadSEGYModel>(piol, name);
        auto line = [&](const char* w, const EP::Model3dInterface::CoordinateParameters& p, int64_t start, size_t count, int64_t step) {
            c.eq(int64_t(p.start), start, std::string("origin of the ") + w);
            c.eq(size_t(p.count), count, std::string("count of the ") + w);
            if (count > 1) c.eq(int64_t(p.increment), step, std::string("step of the ") + w);
        };
        line("in-lines", m->il, g.il0, g.nil, g.ilinc);
        line("cross-lines", m->xl, g.xl0, g.nxl, g.xlinc);
        c.eq(m->readNs(), g.ns, "samples of the model");
        c.eq(m->readNt(), g.nt(), "traces of the model");
        size_t off = offset_of(part, c.rank()), me = part[c.rank()];
        std::vector<size_t> list;
        for (size_t k = 0; k < me; k++) list.push_back(way == 1 ? hash({seed, k, uint64_t(c.rank())}) % n : off + k);
        std::vector<float> v;
        if (way == 0) v = m->readModel(off, me, gather);
        else if (way == 1) v = m->readModel(me, list.data(), gather);
        else {
            EP::ReadModel rm(piol, name);
            v = rm.readModel(off, me, gather);
        }
        c.eq(v.size(), me * g.ns, "samples returned");
        for (size_t k = 0; k < me && c.eq(v.size(), me * g.ns, "samples returned"); k++) {
            size_t q = list[k];
            bool on  = in_grid(q);
            for (size_t j = 0; j < g.ns; j++) if (ref::f2u(v[k * g.ns + j]) != (on ? F.tr[g.at(size_t(pi[q]), size_t(px[q]))].s[j] : 0u)) {
                c.fail("position " + std::to_string(q) + " (in-line " + std::to_string(pi[q]) + ", cross-line " + std::to_string(px[q]) + "): not " + (on ? "the stored trace" : "zeros"));
                k = me;
                break;
            }
        }
        barrier();
    }
    c.check(!is_err(piol), "an error was recorded");
    piol.reset();
    barrier();
    drop(name);
}

struct Tr { int32_t il, xl; std::vector<float> s; };
static exseis::utils::Trace_value twice(const exseis::utils::Trace_value*, size_t, exseis::utils::Trace_value, size_t) { return 2; }
static exseis::utils::Trace_value thrice(const exseis::utils::Trace_value*, size_t, exseis::utils::Trace_value, size_t) { return 3; }

static void angle(Ctx& c)
{
    auto g = gen_grid(c);
    uint64_t seed = c.draw(1u << 20);
    double vmax   = c.pick(std::vector<double>{3, 10, 60, 3000, -10});
    auto V = grid_file(g, seed, [&](size_t t, size_t j) { return ref::f2u(float(vmax * double(hash({seed, t, j}) % 1000) / 1000.)); });
    size_t vbin = 1 + c.size_in(0, vmax > 100 ? 1000 : 5), oGSz = 1 + c.size_in(0, 12);
    bool tool   = c.chance(1, 4);
    double oInc = tool || c.flip() ? std::atan(1) * 4.0 / 180 : 0.001 * double(1 + c.draw(32));
    int before = tool ? 0 : int(c.draw(2)), sort = tool ? 0 : int(c.draw(6)), after = tool ? 0 : int(c.draw(3)), second = tool ? 0 : int(c.chance(1, 8));
    bool first = c.flip();  // a sort comes before the gain
    // radon files
    std::string d;
    size_t nf = tool ? 1 : 1 + c.draw(3);
    std::vector<std::pair<size_t, int>> grp;
    for (int k = 0; k < 2; k++) grp.push_back({3 + c.size_in(0, 8), c.pick(std::vector<int>{4000, 2000, 1000, 500})});
    sg::Inputs in;
    for (size_t f = 0; f < nf; f++) {
        auto gr = grp[c.chance(1, 3)];
        ref::File F;
        F.ns = gr.first; F.inc_us = gr.second;
        size_t gathers = c.size_in(0, 8);
        d += " [ns=" + std::to_string(F.ns) + " inc=" + std::to_string(F.inc_us) + " gathers:";
        for (size_t k = 0; k < gathers; k++) {
            size_t i = c.draw(g.nil), x = c.draw(g.nxl), n = c.chance(1, 40) ? 200 + c.draw(500) : 1 + c.size_in(0, 7);
            d += " " + std::to_string(n) + "x(" + std::to_string(i) + "," + std::to_string(x) + ")";
            for (size_t t = 0; t < n; t++) {
                ref::Trace T;
                for (size_t b = 0; b < 240; b++) T.h[b] = uint8_t(hash({seed, f, F.tr.size(), b, 3}));
                ref::put32(&T.h[188], uint32_t(g.il(int64_t(i))));
                ref::put32(&T.h[192], uint32_t(g.xl(int64_t(x))));
                for (size_t j = 0; j < F.ns; j++) T.s.push_back(ref::f2u(float(1 + f * 100000 + F.tr.size() * 100 + j)));
                F.tr.push_back(T);
            }
        }
        d += "]";
        char nm[32];
        snprintf(nm, sizeof nm, "in_%02zu.segy", f);
        in.names.push_back(nm);
        in.files.push_back(F);
    }
    c.desc << " velocities to " << vmax << " bin " << vbin << " angles " << oGSz << " by " << oInc << (tool ? " tool" : "") << (before ? " gain before" : "") << (sort == 1 ? " sorted by line" : sort == 2 ? " sorted by offset" : "")
           << (after == 1 ? " gain after" : after == 2 ? " two gains after" : "") << (second ? " converted twice" : "") << d;
    auto gs = sg::groups(in);
    // reference: groups in order of (samples, interval), gathers in file order
    std::map<size_t, std::vector<Tr>> want;  // by samples
    std::map<std::pair<size_t, int>, std::vector<std::vector<char>>> gany;
    std::map<size_t, std::vector<std::vector<char>>> any;  // samples which may be either of two
    size_t ngather = 0;
    double vinc = g.inc / 1e6;
    std::map<std::pair<size_t, int>, std::vector<Tr>> stage;
    std::vector<std::vector<sg::Id>> orders;
    for (auto& q : gs) {
        auto ids = q.ids;
        if (sort == 1 || sort == 2) {
            std::set<uint32_t> offs;
            for (auto& id : ids) offs.insert(ref::get32(&in.files[id.f].tr[id.t].h[36]));
            if (offs.size() != ids.size()) sort = 0;  // no ties
        }
        orders.push_back(ids);
    }
    for (size_t k = 0; k < gs.size(); k++) {
        auto& q  = gs[k];
        auto& L  = stage[{q.ns, q.inc}];
        auto ids = orders[k];
        if (sort == 1 || sort == 2) ids = sg::sorted(in, ids, sort == 1 ? PIOL_SORTTYPE_LineROff : PIOL_SORTTYPE_ROffLine);
        for (auto& id : ids) {
            auto& T = in.files[id.f].tr[id.t];
            Tr r{int32_t(ref::get32(&T.h[188])), int32_t(ref::get32(&T.h[192])), {}};
            for (auto u : T.s) r.s.push_back(ref::u2f(u) * (before ? 2.f : 1.f));
            L.push_back(r);
        }
    }
    for (int round = 0; round < 1 + second; round++) {
        std::map<std::pair<size_t, int>, std::vector<Tr>> next;
        std::map<std::pair<size_t, int>, std::vector<std::vector<char>>> nany;
        for (auto& q : stage) {
            size_t ns  = q.first.first;
            double inc = (round ? double(std::llround(oInc * 1e6)) : double(q.first.second)) / 1e6;
            auto& L    = q.second;
            auto& O    = next[q.first];
            auto& A    = nany[q.first];
            for (size_t b = 0; b < L.size();) {
                size_t e = b;
                while (e < L.size() && L[e].il == L[b].il && L[e].xl == L[b].xl) e++;
                ngather++;
                size_t i = size_t((L[b].il - g.il0) / g.ilinc), x = size_t((L[b].xl - g.xl0) / g.xlinc);
                auto& vt = V.tr[g.at(i, x)].s;
                for (size_t a = 0; a < oGSz; a++) {
                    Tr r{L[b].il, L[b].xl, std::vector<float>(ns, 0.f)};
                    std::vector<char> fuzzy(ns, 0);
                    for (size_t z = 0; z < ns; z++) {
                        std::set<int64_t> ks;
                        for (double eps : {-1e-6, 0., 1e-6}) {
                            double w  = std::floor(std::max(0., double(z) * inc / vinc + eps));
                            size_t vi = std::min(size_t(w), g.ns - 1);
                            double u  = double(ref::u2f(vt[vi])) / std::cos(double(a) * oInc);
                            for (double e2 : {-1e-6, 0., 1e-6}) {
                                double kk = double(std::llround(u + e2 * std::max(1., std::fabs(u) * 1e-6)));
                                ks.insert(kk < 0 ? -1 : int64_t(kk) / int64_t(vbin));
                            }
                        }
                        bool one = ks.size() == 1;
                        int64_t k = *ks.begin();
                        // how the first trace of a gather takes part is left open
                        if (!one || k == 0) fuzzy[z] = 1;
                        else if (k > 0 && size_t(k) < e - b) {
                            r.s[z] = L[b + size_t(k)].s[z];
                            if (round && gany[q.first][b + size_t(k)][z]) fuzzy[z] = 1;
                        }
                    }
                    O.push_back(r);
                    A.push_back(fuzzy);
                }
                b = e;
            }
        }
        stage = next;
        gany  = nany;
    }
    // the groups of one number of samples now share their interval too
    for (auto& q : stage) {
        auto& w = want[q.first.first];
        w.insert(w.end(), q.second.begin(), q.second.end());
        auto& a = any[q.first.first];
        a.insert(a.end(), gany[q.first].begin(), gany[q.first].end());
    }
    c.label(tool ? "tool" : "angle");
    c.label_if(sort == 1 || sort == 2, "sorted first");
    c.label_if(gs.size() > 1, "several groups");
    c.label_if(ngather < size_t(c.size()), "fewer gathers than processes");
    c.nontrivial(ngather > 1);
    auto dir = sg::fresh_dir(c, "angle");
    if (c.rank() == 0) ref::spit(dir + "vel.segy", V.encode());
    sg::write(c, in, dir);
    std::vector<std::string> names;
    if (tool) {
        std::string out;
        int rc = run_util(c, util_main_radon, {"exseis-radon", "-i", dir + "in_*", "-v", dir + "vel.segy", "-o", dir + "out_", "-b", std::to_string(vbin), "-a", std::to_string(oGSz)}, out);
        c.eq(rc, 0, "exit status of the tool");
        for (auto& n : sg::listing(dir)) if (n.substr(0, 4) == "out_") names.push_back(dir + n);
    }
    else {
        auto piol = new_piol();
        {
            EF::Set s(piol, in.pattern);
            if (before && !first) s.AGC(twice, 1, 1.f);
            if (sort == 1 || sort == 2) s.sort(sort == 1 ? PIOL_SORTTYPE_LineROff : PIOL_SORTTYPE_ROffLine);
            if (before && first) s.AGC(twice, 1, 1.f);
            for (int k = 0; k < 1 + second; k++) {
                if (oInc == std::atan(1) * 4.0 / 180) s.toAngle(dir + "vel.segy", vbin, oGSz);
                else s.toAngle(dir + "vel.segy", vbin, oGSz, oInc);
            }
            if (after) s.AGC(thrice, 1, 1.f);
            if (after == 2) s.AGC(twice, 1, 1.f);
            names = s.output(dir + "out_");
        }
        piol->isErr();
        piol.reset();
    }
    barrier();
    c.eq(names.size(), want.size(), "output files");
    float gain = after == 0 ? 1.f : after == 1 ? 3.f : 6.f;
    std::set<size_t> seen;
    for (auto& n : names) {
        if (!c.all_ok()) break;
        ref::File F;
        if (!ref::parse(ref::slurp(n), F)) { c.fail(n + " is not a whole SEG-Y file"); break; }
        auto it = want.find(F.ns);
        if (it == want.end() || !seen.insert(F.ns).second) { c.fail(n + " has an unexpected number of samples"); break; }
        auto& W = it->second;
        c.check(std::abs(F.inc_us - int(std::llround(oInc * 1e6))) <= 1, "interval of the output is " + std::to_string(F.inc_us));
        c.eq(F.tr.size(), W.size(), "traces of the output (" + std::to_string(oGSz) + " per gather)");
        if (F.tr.size() != W.size()) break;
        for (size_t t = 0; t < W.size(); t++) {
            auto& T = F.tr[t];
            if (int32_t(ref::get32(&T.h[188])) != W[t].il || int32_t(ref::get32(&T.h[192])) != W[t].xl) { c.fail("output trace " + std::to_string(t) + " is of another gather"); break; }
            bool bad = false;
            for (size_t z = 0; z < F.ns && !bad; z++) {
                float got = ref::u2f(T.s[z]);
                if (any[F.ns][t][z]) continue;
                if (got != W[t].s[z] * gain) {
                    char b[200];
                    snprintf(b, sizeof b, "output trace %zu (angle %zu) sample %zu is %.9g, want %.9g", t, t % oGSz, z, double(got), double(W[t].s[z] * gain));
                    c.fail(b);
                    bad = true;
                }
            }
            if (bad) break;
        }
    }
}
static void prop(Ctx& c)
{
    if (c.flip()) model(c);
    else angle(c);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
