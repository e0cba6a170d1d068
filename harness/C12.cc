// C12: global extremes of a distributed set of traces.
#include "setgen.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
namespace PU = EP::param_utils;
using exseis::utils::Floating_point;
using exseis::utils::Integer;

static const size_t NONE = std::numeric_limits<size_t>::max();

/// Check one minimum and maximum over values v, where trace k has number num(k)
static std::string judge(const std::vector<double>& v, const EP::CoordElem* mm, const std::function<bool(size_t, double)>& attains, const char* which)
{
    char b[300];
    if (v.empty()) {
        if (mm[0].num != NONE || mm[1].num != NONE) { snprintf(b, sizeof b, "%s of no traces: names traces %zu and %zu", which, mm[0].num, mm[1].num); return b; }
        return "";
    }
    double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
    if (!(mm[0].val == lo)) { snprintf(b, sizeof b, "minimum %s is %.17g, want %.17g", which, mm[0].val, lo); return b; }
    if (!(mm[1].val == hi)) { snprintf(b, sizeof b, "maximum %s is %.17g, want %.17g", which, mm[1].val, hi); return b; }
    if (!attains(mm[0].num, lo)) { snprintf(b, sizeof b, "trace %zu named for the minimum %s does not attain %.17g", mm[0].num, which, lo); return b; }
    if (!attains(mm[1].num, hi)) { snprintf(b, sizeof b, "trace %zu named for the maximum %s does not attain %.17g", mm[1].num, which, hi); return b; }
    return "";
}
static void same_everywhere(Ctx& c, const EP::CoordElem* mm, size_t n)
{
    std::vector<uint64_t> mine, first;
    for (size_t i = 0; i < n; i++) {
        uint64_t u;
        std::memcpy(&u, &mm[i].val, 8);
        mine.push_back(u);
        mine.push_back(mm[i].num);
    }
    first = mine;
    MPI_Bcast(first.data(), int(first.size()), MPI_UINT64_T, 0, MPI_COMM_WORLD);
    c.check(first == mine, "the answer differs from that of the first process");
}
/// n values of one of several styles
static std::vector<double> values(Ctx& c, size_t n, bool integral, std::string& d)
{
    static const char* nm[] = {"negative", "positive", "mixed", "few", "one", "wide", "ramp up", "ramp down", "peak", "dip"};
    int style     = int(c.draw(10));
    uint64_t seed = c.draw(1u << 20);
    int e         = int(c.range(-3, 3));
    size_t at     = n ? c.draw(n) : 0;
    d = nm[style];
    std::vector<double> v(n);
    for (size_t i = 0; i < n; i++) {
        double h = double(hash({seed, i}) % 100001) / 10.;  // 0 .. 10000
        double x = 0;
        switch (style) {
            case 0: x = -1 - h; break;
            case 1: x = 1 + h; break;
            case 2: x = h - 5000; break;
            case 3: x = double(int(hash({seed, i}) % 3) - 1) * 7; break;
            case 4: x = e * 11; break;
            case 5:
                if (integral) x = double(int32_t(hash({seed, i})) / 3);
                else {
                    uint64_t u = hash({seed, i});
                    std::memcpy(&x, &u, 8);
                    if (!std::isfinite(x)) x = 0;
                }
                break;
            case 6: x = double(i) * (e ? e : 1) - 3; break;
            case 7: x = -double(i) * (e ? e : 1) + 3; break;
            case 8: x = i == at ? -1 : -1 - h - 1; break;
            case 9: x = i == at ? 1 : h + 2; break;
        }
        v[i] = integral ? std::trunc(x) : x;
    }
    return v;
}

struct Pt { double x, y; };
struct Bare { const double* p; };  // an element that must not be looked at when there are none

static void raw(Ctx& c)
{
    size_t n = c.count_in(0, c.chance(1, 6) ? 300 : 40, 6000);
    auto part = c.partition(n, c.size());
    size_t base = c.chance(1, 4) ? c.draw(1000000) : 0;
    std::string dx, dy;
    auto X = values(c, n, false, dx), Y = values(c, n, false, dy);
    bool null = c.flip(), deref = c.chance(1, 3);
    c.desc << "np=" << c.size() << " direct n=" << n << " shares=" << vstr(part) << " first number=" << base << " x:" << dx << " y:" << dy;
    c.label("direct");
    c.nontrivial(n > 1 && c.size() > 1);
    size_t off = offset_of(part, c.rank()), me = part[c.rank()];
    auto piol = new_piol();
    std::vector<EP::CoordElem> mm(4, EP::CoordElem{-1, 1});
    if (deref) {
        std::vector<double> xy;
        for (size_t i = 0; i < me; i++) { xy.push_back(X[off + i]); xy.push_back(Y[off + i]); }
        std::vector<Bare> b;
        for (size_t i = 0; i < me; i++) b.push_back({&xy[2 * i]});
        EP::getMinMax<Bare>(piol.get(), base + off, me, me || !null ? b.data() : nullptr,
            [](const Bare& a) -> Floating_point { return a.p[0]; }, [](const Bare& a) -> Floating_point { return a.p[1]; }, mm.data());
    }
    else {
        std::vector<Pt> b;
        for (size_t i = 0; i < me; i++) b.push_back({X[off + i], Y[off + i]});
        EP::getMinMax<Pt>(piol.get(), base + off, me, me || !null ? b.data() : nullptr,
            [](const Pt& a) -> Floating_point { return a.x; }, [](const Pt& a) -> Floating_point { return a.y; }, mm.data());
    }
    for (int k = 0; k < 2; k++) {
        auto& V = k ? Y : X;
        auto s = judge(V, mm.data() + 2 * k, [&](size_t t, double v) { return t >= base && t - base < n && V[t - base] == v; }, k ? "y" : "x");
        if (!s.empty()) c.fail(s);
    }
    same_everywhere(c, mm.data(), 4);
    piol.reset();
}

static void meta(Ctx& c)
{
    size_t n = c.count_in(0, 40, 3000);
    auto part = c.partition(n, c.size());
    static const std::vector<std::pair<EP::Meta, bool>> ms = {{PIOL_META_xSrc, false}, {PIOL_META_ySrc, false}, {PIOL_META_xRcv, false},
        {PIOL_META_yRcv, false}, {PIOL_META_xCmp, false}, {PIOL_META_yCmp, false}, {PIOL_META_il, true}, {PIOL_META_xl, true},
        {PIOL_META_Offset, true}, {PIOL_META_tn, true}, {PIOL_META_tnr, true}};
    auto a = c.pick(ms), b = c.pick(ms);
    std::string dx, dy;
    bool isame = a.first == b.first;
    auto X = values(c, n, a.second, dx), Y = isame ? X : values(c, n, b.second, dy);
    bool copy = c.flip();
    c.desc << "np=" << c.size() << " parameters n=" << n << " shares=" << vstr(part) << " fields " << int(a.first) << "," << int(b.first) << (copy ? " raw copy" : "") << " x:" << dx << " y:" << dy;
    c.label("parameters");
    c.nontrivial(n > 1 && c.size() > 1);
    auto rule = std::make_shared<EP::Rule>(std::vector<EP::Meta>{PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv,
        PIOL_META_xCmp, PIOL_META_yCmp, PIOL_META_il, PIOL_META_xl, PIOL_META_Offset, PIOL_META_tn, PIOL_META_tnr});
    if (copy) rule->addRule(PIOL_META_COPY);
    size_t off = offset_of(part, c.rank()), me = part[c.rank()];
    auto piol = new_piol();
    EP::Param prm(rule, me);
    auto put = [&](size_t i, std::pair<EP::Meta, bool> m, double v) {
        if (m.second) PU::setPrm(i, m.first, Integer(v), &prm);
        else PU::setPrm(i, m.first, Floating_point(v), &prm);
    };
    for (size_t i = 0; i < me; i++) { put(i, a, X[off + i]); put(i, b, Y[off + i]); }
    std::vector<EP::CoordElem> mm(4, EP::CoordElem{-1, 1});
    EP::getMinMax(piol.get(), off, me, a.first, b.first, &prm, mm.data());
    for (int k = 0; k < 2; k++) {
        auto& V = k ? Y : X;
        auto s = judge(V, mm.data() + 2 * k, [&](size_t t, double v) { return t < n && V[t] == v; }, k ? "second" : "first");
        if (!s.empty()) c.fail(s);
    }
    same_everywhere(c, mm.data(), 4);
    piol.reset();
}

static void set(Ctx& c)
{
    std::string d;
    auto in = sg::gen(c, 3, 2, 20, S_INDEX, d);
    // coordinates of one sign, far from zero, in some cases
    int shift = int(c.draw(3));
    for (size_t f = 0; f < in.files.size(); f++) for (auto& T : in.files[f].tr) if (shift) {
        for (int loc : {73, 77, 81, 85, 189, 193}) {
            int32_t v = int32_t(ref::get32(&T.h[loc - 1]));
            v = v / 2;
            v = shift == 1 ? -std::abs(v) - 1000 : std::abs(v) + 1000;
            ref::put32(&T.h[loc - 1], uint32_t(v));
        }
    }
    auto gs = sg::groups(in);
    struct M { EP::Meta m; std::function<double(const srt::Rec&)> f; };
    static const std::vector<M> ms = {{PIOL_META_xSrc, [](const srt::Rec& r) { return r.xs; }}, {PIOL_META_ySrc, [](const srt::Rec& r) { return r.ys; }},
        {PIOL_META_xRcv, [](const srt::Rec& r) { return r.xr; }}, {PIOL_META_yRcv, [](const srt::Rec& r) { return r.yr; }},
        {PIOL_META_il, [](const srt::Rec& r) { return double(r.il); }}, {PIOL_META_xl, [](const srt::Rec& r) { return double(r.xl); }}};
    size_t ia = c.draw(ms.size()), ib = c.draw(ms.size());
    int rules = int(c.draw(3));
    bool lam = rules && c.chance(1, 3), again = c.chance(1, 3);
    size_t total = 0, nonempty = 0;
    for (auto& f : in.files) { total += f.tr.size(); nonempty += !f.tr.empty(); }
    c.desc << "np=" << c.size() << " set " << d << (shift == 1 ? " all negative" : shift == 2 ? " all positive" : "") << " fields " << ia << "," << ib << " rules=" << rules << (lam ? " functions" : "");
    c.label("set");
    c.label_if(gs.size() > 1, "several groups");
    c.label_if(nonempty > 1, "several files");
    c.label_if(shift == 1, "all negative");
    c.nontrivial(total > 1 && (nonempty > 1 || c.size() > 1));
    auto dir = sg::fresh_dir(c, "set");
    sg::write(c, in, dir);
    auto piol = new_piol();
    {
        std::unique_ptr<EF::Set> s;
        if (rules == 0) s = std::make_unique<EF::Set>(piol, in.pattern);
        else {
            auto R = std::make_shared<EP::Rule>(std::initializer_list<EP::Meta>{ms[ia].m, ms[ib].m});
            if (rules == 2) R->addRule(PIOL_META_COPY);
            s = std::make_unique<EF::Set>(piol, in.pattern, "", R);
        }
        for (int k = 0; k < 1 + again; k++) {
            std::vector<EP::CoordElem> mm(4, EP::CoordElem{-1, 1});
            auto ma = ms[ia].m, mb = ms[ib].m;
            if (lam)
                s->getMinMax([ma](const EP::Param& p) -> Floating_point { return PU::getPrm<Floating_point>(0, ma, &p); },
                             [mb](const EP::Param& p) -> Floating_point { return PU::getPrm<Floating_point>(0, mb, &p); }, mm.data());
            else s->getMinMax(ma, mb, mm.data());
            for (int q = 0; q < 2; q++) {
                auto& m = ms[q ? ib : ia];
                std::vector<double> V;
                for (auto& g : gs) for (auto& i : g.ids) V.push_back(m.f(sg::get_keys(in.files[i.f].tr[i.t].h)));
                auto attains = [&](size_t t, double v) {
                    for (auto& g : gs) if (t < g.ids.size() && m.f(sg::get_keys(in.files[g.ids[t].f].tr[g.ids[t].t].h)) == v) return true;
                    // or counted over every file of the set
                    for (size_t f = 0, n = t; f < in.files.size(); n -= in.files[f].tr.size(), f++) {
                        if (n < in.files[f].tr.size()) return m.f(sg::get_keys(in.files[f].tr[n].h)) == v;
                    }
                    return false;
                };
                auto e = judge(V, mm.data() + 2 * q, attains, q ? "second" : "first");
                if (!e.empty()) c.fail(e);
            }
            same_everywhere(c, mm.data(), 4);
            std::swap(ia, ib);
        }
    }
    piol->isErr();
    piol.reset();
    barrier();
}

static void prop(Ctx& c)
{
    switch (c.draw(3)) {
        case 0: raw(c); break;
        case 1: meta(c); break;
        default: set(c);
    }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
