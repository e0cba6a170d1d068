// Reference model of the sort keys: written from the names of the sort types (SortType.h).
#pragma once
#include "common.hh"
#include "ExSeisDat/PIOL/operations/sort.hh"

namespace srt {
struct Rec {
    double xs = 0, ys = 0, xr = 0, yr = 0;
    int64_t off = 0, il = 0, xl = 0;
    std::string str() const
    {
        std::ostringstream s;
        s << "(" << xs << "," << ys << "," << xr << "," << yr << "," << off << "," << il << "," << xl << ")";
        return s.str();
    }
};
inline double dist2(const Rec& a) { return (a.xs - a.xr) * (a.xs - a.xr) + (a.ys - a.yr) * (a.ys - a.yr); }
inline const std::vector<EP::SortType>& types()
{
    static const std::vector<EP::SortType> t = {PIOL_SORTTYPE_SrcRcv, PIOL_SORTTYPE_SrcOff, PIOL_SORTTYPE_SrcROff,
      PIOL_SORTTYPE_RcvOff, PIOL_SORTTYPE_RcvROff, PIOL_SORTTYPE_LineOff, PIOL_SORTTYPE_LineROff,
      PIOL_SORTTYPE_OffLine, PIOL_SORTTYPE_ROffLine};
    return t;
}
inline const char* name(EP::SortType t)
{
    static const char* n[] = {"SrcRcv", "SrcOff", "SrcROff", "RcvOff", "RcvROff", "LineOff", "LineROff", "OffLine", "ROffLine"};
    for (size_t i = 0; i < types().size(); i++) if (types()[i] == t) return n[i];
    return "?";
}
inline std::vector<double> key(EP::SortType t, const Rec& r)
{
    double co = dist2(r), ro = double(r.off), il = double(r.il), xl = double(r.xl);
    switch (t) {
        case PIOL_SORTTYPE_SrcRcv: return {r.xs, r.ys, r.xr, r.yr};
        case PIOL_SORTTYPE_SrcOff: return {r.xs, r.ys, co};
        case PIOL_SORTTYPE_SrcROff: return {r.xs, r.ys, ro};
        case PIOL_SORTTYPE_RcvOff: return {r.xr, r.yr, co};
        case PIOL_SORTTYPE_RcvROff: return {r.xr, r.yr, ro};
        case PIOL_SORTTYPE_LineOff: return {il, xl, co};
        case PIOL_SORTTYPE_LineROff: return {il, xl, ro};
        case PIOL_SORTTYPE_OffLine: return {co, il, xl};
        default: return {ro, il, xl};
    }
}
/// Keys that stay exact in every sum and square, with many or few ties.
inline std::vector<Rec> gen(Ctx& c, size_t n, std::string& d, bool integral = false)
{
    int64_t alpha[7];
    size_t style = c.draw(5);
    for (auto& a : alpha) {
        switch (style) {
            case 0: a = 1 + int64_t(c.draw(3)); break;
            case 1: a = c.chance(1, 2) ? 1 : 3; break;
            case 2: a = 2; break;
            default: a = c.pick(std::vector<int64_t>{1, 2, 5, 50, 30000});
        }
    }
    double unit  = integral || c.chance(2, 3) ? 1. : 0.25;
    int64_t base = c.pick(std::vector<int64_t>{0, -2, -40000, 400000});
    // sources and receivers close together and far from the origin, as on a survey grid:
    // their distances are small and exact, the squares of their coordinates are not
    bool near = !integral && c.chance(1, 4);
    if (near) { unit = c.pick(std::vector<double>{1., 0.25, 0.0078125}); base = c.pick(std::vector<int64_t>{700000, 5912345, -5912345, 400000000}); }
    size_t arr   = c.draw(5);  // arrangement
    uint64_t seed = c.draw(1u << 20);
    std::vector<Rec> v(n);
    for (size_t i = 0; i < n; i++) {
        auto g = [&](int k) { return int64_t(hash({seed, i, uint64_t(k)}) % uint64_t(alpha[k])); };
        v[i].xs = unit * double(base + g(0));
        v[i].ys = unit * double(base + g(1));
        v[i].xr = unit * double(-base + g(2));
        v[i].yr = unit * double(g(3) - alpha[3] / 2);
        if (near) {
            v[i].xs = double(base) + unit * double(g(0));
            v[i].ys = double(base / 3) + unit * double(g(1));
            v[i].xr = double(base) + unit * double(g(2));
            v[i].yr = double(base / 3) + unit * double(g(3));
        }
        v[i].off = g(4) - (seed & 1 ? alpha[4] / 2 : 0);
        v[i].il  = g(5) + (seed & 2 ? base : 1);
        v[i].xl  = g(6) - (seed & 4 ? 1 : 0);
    }
    if (arr == 1 || arr == 2) {
        std::stable_sort(v.begin(), v.end(), [](const Rec& a, const Rec& b) {
            return std::make_tuple(a.xs, a.ys, a.il, a.xl, a.off) < std::make_tuple(b.xs, b.ys, b.il, b.xl, b.off);
        });
        if (arr == 2) std::reverse(v.begin(), v.end());
    }
    d = "keys style " + std::to_string(style) + " arrangement " + std::to_string(arr) + " base " + std::to_string(base) + " seed " + std::to_string(seed) + (near ? " near" : "");
    return v;
}
/// sorted[k] = index of the k-th record in key order, ties in index order
inline Sv order(EP::SortType t, const std::vector<Rec>& v)
{
    Sv o(v.size());
    for (size_t i = 0; i < o.size(); i++) o[i] = i;
    std::vector<std::vector<double>> k;
    for (auto& r : v) k.push_back(key(t, r));
    std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return k[a] < k[b]; });
    return o;
}
inline size_t ties(EP::SortType t, const std::vector<Rec>& v)
{
    std::set<std::vector<double>> s;
    for (auto& r : v) s.insert(key(t, r));
    return v.size() - s.size();
}
}  // namespace srt
