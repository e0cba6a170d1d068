// C14: automatic gain control normalises each sample by its window.
#include "setgen.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
namespace EU = exseis::utils;
typedef std::vector<float> Fv;

enum Kind { RMS, TRI, MAV, MED, OWN, NKINDS };
static const char* KN[] = {"RMS", "triangular", "mean-abs", "median", "own"};
static const float *g_lo = nullptr, *g_hi = nullptr;
static bool g_out = false;
/// A statistic of one's own that depends on everything the window says.
static float own(const float* s, size_t n, float target, size_t centre)
{
    if (g_lo && (s < g_lo || s + n > g_hi || centre >= n)) { g_out = true; return 0; }
    double a = 0;
    for (size_t i = 0; i < n; i++) a += double(s[i]) * double(i + 1);
    return float(target * (1 + double(n) + 3 * double(centre) + a / (1 + std::fabs(a))));
}
static EU::Gain_function fn(int k, bool capi)
{
    switch (k) {
        case RMS: return capi ? EU::Gain_function(EU::exseis_rectangular_RMS_gain) : EU::rectangular_RMS_gain;
        case TRI: return capi ? EU::Gain_function(EU::exseis_triangular_RMS_gain) : EU::triangular_RMS_gain;
        case MAV: return capi ? EU::Gain_function(EU::exseis_mean_abs_gain) : EU::mean_abs_gain;
        case MED: return capi ? EU::Gain_function(EU::exseis_median_gain) : EU::median_gain;
        default: return own;
    }
}
/// Known finding C14-even-median: windows with an even number of samples use elements n/2 and n/2+1 of the sorted
/// window (the last one twice for n = 2) instead of n/2-1 and n/2.
static bool g_strict_median = false;
struct Stat { bool dead = false, undef = false; double v = 0, alt = 0; bool has_alt = false; };
static Stat statistic(int k, const Fv& x, size_t j, size_t w2)
{
    size_t n = x.size(), lo = j >= w2 ? j - w2 : 0, hi = std::min(n - 1, j + w2);
    Stat s;
    double a = 0, z = 0;
    std::vector<float> el;
    for (size_t i = lo; i <= hi; i++) {
        double d = i > j ? i - j : j - i, w = w2 ? 1. - d / double(w2) : 1.;
        z += x[i] != 0;
        el.push_back(x[i]);
        if (k == RMS) a += double(x[i]) * x[i];
        if (k == TRI) a += double(x[i]) * w * x[i] * w;
        if (k == MAV) a += std::fabs(double(x[i]));
    }
    if (k == MED) {
        std::sort(el.begin(), el.end());
        size_t m = el.size();
        if (m % 2) s.v = el[m / 2];
        else {
            s.v = (double(el[m / 2 - 1]) + el[m / 2]) / 2;
            if (!g_strict_median) { s.has_alt = true; s.alt = (double(el[m / 2]) + el[std::min(m / 2 + 1, m - 1)]) / 2; }
        }
        s.undef = s.v == 0 || (s.has_alt && s.alt == 0);
        return s;
    }
    z = std::max(z, 1.);
    s.dead = a == 0;
    s.v    = k == MAV ? a / z : std::sqrt(a / z);
    return s;
}
static std::string judge(const Fv& in, const Fv& out, int k, size_t win, float target)
{
    size_t w2 = (win % 2 ? win : win + 1) / 2, n = in.size();
    for (size_t j = 0; j < n; j++) {
        double want, alt;
        std::string what;
        if (k == OWN) {
            size_t lo = j >= w2 ? j - w2 : 0, hi = std::min(n - 1, j + w2);
            want = alt = double(in[j]) * own(&in[lo], hi - lo + 1, target, j - lo);
        }
        else {
            auto s = statistic(k, in, j, w2);
            if (s.undef) continue;
            if (s.dead) want = alt = 0;
            else {
                want = double(in[j]) * target / s.v;
                alt  = s.has_alt ? double(in[j]) * target / s.alt : want;
            }
            if (s.dead && in[j] != 0) continue;  // (only reachable for an empty statistic of a live sample)
        }
        double tol = 2e-5;
        bool ok = std::fabs(out[j] - want) <= tol * std::fabs(want) || std::fabs(out[j] - alt) <= tol * std::fabs(alt);
        if (!ok) {
            std::ostringstream o;
            o.precision(9);
            o << "sample " << j << " of " << n << " window " << win << ": " << in[j] << " became " << out[j] << ", want " << want;
            return o.str();
        }
    }
    return "";
}
static bool any_undef(int k, const Fv& x, size_t win)
{
    if (k != MED) return false;
    size_t w2 = (win % 2 ? win : win + 1) / 2;
    for (size_t j = 0; j < x.size(); j++) if (statistic(k, x, j, w2).undef) return true;
    return false;
}
static Fv content(Ctx& c, size_t n, std::string& d)
{
    uint64_t seed = c.draw(1u << 20);
    size_t st = c.draw(6), mute = c.chance(1, 3) ? c.size_in(0, n) : 0, tail = c.chance(1, 5) ? c.size_in(0, n) : 0;
    int ex = int(c.draw(20)) - 10;
    Fv v(n);
    for (size_t i = 0; i < n; i++) {
        uint64_t h = hash({seed, i});
        switch (st) {
            case 0: v[i] = 2; break;
            case 1: v[i] = float(int(h % 2001) - 1000) / 16.f; break;
            case 2: v[i] = h % 3 ? 0.f : float(int(h % 101) - 50); break;
            case 3: v[i] = ((h >> 8) & 1 ? 1.f : -1.f) * std::ldexp(1.f + float(h >> 40) / (1 << 24), int((h >> 20) % 24) - 12); break;
            case 4: v[i] = i % 2 ? -3.f : 5.f; break;
            default: v[i] = float(i) + 1.f;
        }
        v[i] = std::ldexp(v[i], ex);
        if (i < mute || i + tail >= n) v[i] = 0;
    }
    d = "style " + std::to_string(st) + " mute " + std::to_string(mute) + " tail " + std::to_string(tail) + " scale 2^" + std::to_string(ex);
    return v;
}
static Fv run(const Fv& x, int k, bool capi, size_t win, float target)
{
    std::unique_ptr<float[]> b(new float[x.size()]);
    std::copy(x.begin(), x.end(), b.get());
    g_lo = b.get(); g_hi = b.get() + x.size();
    if (capi) EU::exseis_AGC(x.size(), b.get(), fn(k, true), win, target);
    else EU::AGC(x.size(), b.get(), fn(k, false), win, target);
    g_lo = g_hi = nullptr;
    return Fv(b.get(), b.get() + x.size());
}
static void direct(Ctx& c)
{
    size_t n  = 2 + c.count_in(0, c.chance(1, 8) ? 300 : 50, 4000);
    int k     = int(c.draw(NKINDS));
    bool capi = c.flip();
    // the odd window is shorter than the trace: the function's stated precondition
    size_t win = c.size_in(0, n - 2);
    if (win % 2 == 0 && win + 1 >= n) win -= win ? 1 : 0;
    float target = c.pick(std::vector<float>{1.f, 1000.f, 0.125f, 3.7f, -2.f});
    std::string d;
    auto x = content(c, n, d);
    c.desc << KN[k] << (capi ? " (C)" : "") << " ns=" << n << " window=" << win << " target=" << target << " " << d;
    c.label(KN[k]);
    c.label_if(win < 2, "one-sample window");
    c.nontrivial(n > 3 && win > 1);
    g_out = false;
    auto y = run(x, k, capi, win, target);
    c.check(!g_out, "the gain function was given samples outside the trace");
    auto s = judge(x, y, k, win, target);
    if (!s.empty()) c.fail(s);
    // the statistic's scaling laws, exact for powers of two
    if (!c.failed && k != OWN && !any_undef(k, x, win)) {
        int e = int(c.draw(9)) - 4;
        Fv x2 = x;
        for (auto& v : x2) v = std::ldexp(v, e);
        auto y2 = run(x2, k, capi, win, target);
        for (size_t i = 0; i < n && !c.failed; i++) {
            // samples of windows without a statistic stay as they are
            if (!(y2[i] == y[i]) && !(std::isnan(y2[i]) && std::isnan(y[i]))) {
                auto st = statistic(k, x, i, (win % 2 ? win : win + 1) / 2);
                if (!st.dead) c.fail("scaling the input by 2^" + std::to_string(e) + " changes sample " + std::to_string(i));
            }
        }
        auto y3 = run(x, k, capi, win, target * 4);
        for (size_t i = 0; i < n && !c.failed; i++) {
            auto st = statistic(k, x, i, (win % 2 ? win : win + 1) / 2);
            if (!st.dead && y3[i] != 4 * y[i] && !std::isnan(y[i])) c.fail("four times the target does not give four times sample " + std::to_string(i));
        }
    }
}
static void through_set(Ctx& c)
{
    std::string d;
    size_t minns = 2 + c.size_in(0, 30);
    auto in = sg::gen(c, 2, 1, 20, S_INDEX, d, minns);
    int k   = int(c.draw(MED + 1));
    size_t win = c.size_in(0, minns - 2);
    if (win % 2 == 0 && win + 1 >= minns) win -= win ? 1 : 0;
    float target = c.pick(std::vector<float>{1.f, 1000.f, 0.125f});
    uint64_t seed = c.draw(1u << 20);
    sg::set_samples(in, [&](size_t f, size_t t, std::vector<uint32_t>& s) {
        uint64_t h = hash({seed, f, t});
        size_t mute = h % 3 ? 0 : h % 5 == 0 ? s.size() : (h >> 8) % s.size();
        for (size_t j = 0; j < s.size(); j++) s[j] = j < mute ? 0 : ref::f2u(float(int(hash({seed, f, t, j}) % 201) - 100));
    });
    auto gs = sg::groups(in);
    size_t mem = c.chance(1, 3) ? 1 + c.draw(12) : 0, total = 0;
    for (auto& f : in.files) total += f.tr.size();
    c.desc << "set np=" << c.size() << " " << d << " " << KN[k] << " window=" << win << " target=" << target << " block=" << mem;
    c.label("through a set");
    c.nontrivial(total > 1 && win > 1);
    auto dir = sg::fresh_dir(c, "agc");
    sg::write(c, in, dir);
    sg::memlimit(gs, mem);
    {
        auto piol = new_piol();
        EF::Set set(piol, in.pattern);
        set.AGC(fn(k, false), win, target);
        set.output(dir + "out_");
        c.check(!is_err(piol), "an error was recorded");
    }
    sg::memlimit(gs, 0);
    barrier();
    auto outs = sg::outputs(c, dir, gs);
    for (auto& o : outs) {
        auto& G = gs[o.first];
        auto& F = o.second.second;
        if (!c.eq(F.tr.size(), G.ids.size(), "traces of " + o.second.first)) break;
        for (size_t i = 0; i < F.tr.size() && !c.failed; i++) {
            auto& T = in.files[G.ids[i].f].tr[G.ids[i].t];
            Fv a, b;
            for (auto u : T.s) a.push_back(ref::u2f(u));
            for (auto u : F.tr[i].s) b.push_back(ref::u2f(u));
            auto s = judge(a, b, k, win, target);
            if (!s.empty()) c.fail(o.second.first + " trace " + std::to_string(i) + ": " + s);
            if (T.h != F.tr[i].h) c.fail("the header of trace " + std::to_string(i) + " changed");
        }
    }
    barrier();
    if (c.rank() == 0) sg::rmtree(dir);
    barrier();
}
static void prop(Ctx& c)
{
    if (c.chance(1, c.size() > 1 ? 1 : 12)) through_set(c);
    else direct(c);
}
int main(int argc, char** argv)
{
    pbt::G().findings["C14-even-median"] = [](Ctx& c) {
        g_strict_median = true;
        Fv x = {1, 2, 3, 4, 5, 6, 7, 8};
        c.desc << "median gain, window 3, trace 1..8";
        auto s = judge(x, run(x, MED, false, 3, 1.f), MED, 3, 1.f);
        if (!s.empty()) c.fail(s);
    };
    return pbt::run(argc, argv, prop);
}
