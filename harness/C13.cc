// C13: tapering scales only the ends it names, by the documented ramp.
#include "setgen.hh"
#include "ExSeisDat/utils/signal_processing/taper.h"
namespace EU = exseis::utils;
typedef std::vector<float> Fv;

enum Kind { LIN, COS, COS2, OWN, NKINDS };
static const char* KN[] = {"linear", "cosine", "cosine-squared", "own"};
static float own(float w, float r) { return (w * w) / (r * r + 1.f); }
static EU::Taper_function fn(int k, bool capi)
{
    switch (k) {
        case LIN: return capi ? EU::Taper_function(EU::exseis_linear_taper) : EU::linear_taper;
        case COS: return capi ? EU::Taper_function(EU::exseis_cosine_taper) : EU::cosine_taper;
        case COS2: return capi ? EU::Taper_function(EU::exseis_cosine_square_taper) : EU::cosine_square_taper;
        default: return own;
    }
}
static double weight(int k, double w, double r)
{
    double pi = std::acos(-1.0), c = 0.5 * (1. - std::cos(pi * w / r));  // a half-cosine rising from 0 to 1
    switch (k) {
        case LIN: return w / r;
        case COS: return c;
        case COS2: return c * c;
        default: return (w * w) / (r * r + 1.);
    }
}
/// "" or what is wrong with out, the tapered in
static std::string judge(const Fv& in, const Fv& out, int k, size_t L, size_t R)
{
    size_t n = in.size(), m = 0;
    while (m < n && in[m] == 0) m++;
    std::vector<double> w(n, 1.);
    std::vector<bool> ramp(n, false);
    size_t l = std::min(L, n - m), r = std::min(R, n - m);
    for (size_t j = 0; j < l; j++) { w[m + j] *= weight(k, j + 1, l); ramp[m + j] = true; }
    for (size_t j = 0; j < r; j++) { w[n - 1 - j] *= weight(k, j + 1, r); ramp[n - 1 - j] = true; }
    for (size_t i = 0; i < n; i++) {
        std::ostringstream s;
        s.precision(9);
        s << "sample " << i << " of " << n << " (" << m << " muted): " << in[i] << " became " << out[i] << ", want ";
        if (!ramp[i]) {
            if (ref::f2u(in[i]) != ref::f2u(out[i])) return s.str() + "it unchanged";
            continue;
        }
        double want = double(in[i]) * w[i];
        s << want;
        if (!(std::fabs(out[i] - want) <= 3e-6 * std::fabs(in[i]) + 1e-40)) return s.str();
        if (std::fabs(out[i]) > std::fabs(in[i])) return s.str() + ": it grew";
        if (out[i] != 0 && std::signbit(out[i]) != std::signbit(in[i])) return s.str() + ": it changed sign";
    }
    return "";
}
static Fv content(Ctx& c, size_t n, std::string& d)
{
    uint64_t seed = c.draw(1u << 20);
    size_t st = c.draw(6), mute = c.chance(1, 2) ? c.size_in(0, n) : 0, tail = c.chance(1, 4) ? c.size_in(0, n) : 0;
    Fv v(n);
    for (size_t i = 0; i < n; i++) {
        uint64_t h = hash({seed, i});
        switch (st) {
            case 0: v[i] = 1; break;
            case 1: v[i] = float(int(h % 2001) - 1000) / 16.f; break;
            case 2: v[i] = h % 3 ? 0.f : float(int(h % 101) - 50); break;
            case 3: v[i] = h % 4 ? ((h >> 8) & 1 ? 1.f : -1.f) * std::ldexp(1.f + float(h >> 40) / (1 << 24), int(h >> 20) % 200 - 100) : -0.f; break;
            case 4: v[i] = i % 2 ? -3.f : 5.f; break;
            default: v[i] = float(i) - 2.f;
        }
        if (i < mute) v[i] = h & 1 ? 0.f : -0.f;
        if (i + tail >= n) v[i] = 0;
    }
    d = "style " + std::to_string(st) + " mute " + std::to_string(mute) + " tail " + std::to_string(tail);
    return v;
}

static void direct(Ctx& c)
{
    size_t nt = 1 + c.draw(4), n = 1 + c.count_in(0, c.chance(1, 8) ? 700 : 60, 33000), which = c.draw(nt);
    int k     = int(c.draw(NKINDS));
    bool capi = c.flip(), all = c.flip();
    size_t L = c.size_in(0, n - 1), R = c.size_in(0, n - 1);
    std::vector<Fv> in(nt);
    std::string d;
    bool dead = false, muted = false;
    for (auto& v : in) {
        v = content(c, n, d);
        size_t z = 0;
        for (auto x : v) z += x == 0;
        dead |= z == n;
        muted |= v[0] == 0 && z < n;
    }
    c.desc << KN[k] << (capi ? " (C)" : "") << " ns=" << n << " left=" << L << " right=" << R << " traces=" << nt << " last " << d;
    c.label(KN[k]);
    c.label_if(dead, "dead trace");
    c.label_if(muted, "muted start");
    c.label_if(L + R > n, "overlapping ramps");
    c.label_if(L == 0 || R == 0, "one or no ramp");
    c.nontrivial(L + R > 0 && n > 2);
    // exactly sized heap blocks: the sanitizer sees any step outside
    std::unique_ptr<float[]> buf(new float[nt * n]);
    for (size_t t = 0; t < nt; t++) std::copy(in[t].begin(), in[t].end(), &buf[t * n]);
    for (size_t t = 0; t < nt; t++) {
        if (!all && t != which) continue;
        if (capi) EU::exseis_taper(n, &buf[t * n], fn(k, true), L, R);
        else EU::taper(n, &buf[t * n], fn(k, false), L, R);
    }
    for (size_t t = 0; t < nt && !c.failed; t++) {
        Fv out(&buf[t * n], &buf[t * n] + n);
        if (!all && t != which) {
            for (size_t i = 0; i < n; i++) if (ref::f2u(out[i]) != ref::f2u(in[t][i])) c.fail("sample " + std::to_string(i) + " of another trace changed");
        }
        else {
            auto s = judge(in[t], out, k, L, R);
            if (!s.empty()) c.fail("trace " + std::to_string(t) + ": " + s);
        }
    }
}

static void through_set(Ctx& c)
{
    std::string d;
    size_t minns = 1 + c.size_in(0, 40);
    auto in = sg::gen(c, 2, 1, 20, S_INDEX, d, minns);
    int k   = int(c.draw(NKINDS));
    size_t L = c.size_in(0, minns - 1), R = c.chance(1, 3) ? 0 : c.size_in(0, minns - 1);
    bool defr = R == 0 && c.flip();
    uint64_t seed = c.draw(1u << 20);
    sg::set_samples(in, [&](size_t f, size_t t, std::vector<uint32_t>& s) {
        uint64_t h = hash({seed, f, t});
        size_t mute = h % 3 ? 0 : h % 5 == 0 ? s.size() : (h >> 8) % s.size();
        for (size_t j = 0; j < s.size(); j++) s[j] = j < mute ? 0 : ref::f2u(float(int(hash({seed, f, t, j}) % 201) - 100));
    });
    auto gs = sg::groups(in);
    size_t mem = c.chance(1, 3) ? 1 + c.draw(12) : 0, total = 0;
    for (auto& f : in.files) total += f.tr.size();
    c.desc << "set np=" << c.size() << " " << d << " " << KN[k] << " left=" << L << " right=" << R << " block=" << mem;
    c.label("through a set");
    c.nontrivial(total > 1 && L + R > 0);
    auto dir = sg::fresh_dir(c, "taper");
    sg::write(c, in, dir);
    sg::memlimit(gs, mem);
    {
        auto piol = new_piol();
        EF::Set set(piol, in.pattern);
        if (defr) set.taper(fn(k, false), L);
        else set.taper(fn(k, false), L, R);
        set.output(dir + "out_");
        c.check(!is_err(piol), "an error was recorded");
    }
    sg::memlimit(gs, 0);
    barrier();
    auto outs = sg::outputs(c, dir, gs);
    for (auto& o : outs) {
        auto& G = gs[o.first];
        auto& F = o.second.second;
        if (!c.eq(F.tr.size(), G.ids.size(), "traces of " + o.second.first)) break;
        for (size_t i = 0; i < F.tr.size() && !c.failed; i++) {
            auto& T = in.files[G.ids[i].f].tr[G.ids[i].t];
            Fv a, b;
            for (auto u : T.s) a.push_back(ref::u2f(u));
            for (auto u : F.tr[i].s) b.push_back(ref::u2f(u));
            auto s = judge(a, b, k, L, R);
            if (!s.empty()) c.fail(o.second.first + " trace " + std::to_string(i) + ": " + s);
            if (T.h != F.tr[i].h) c.fail("the header of trace " + std::to_string(i) + " changed");
        }
    }
    barrier();
    if (c.rank() == 0) sg::rmtree(dir);
    barrier();
}
static void prop(Ctx& c)
{
    if (c.chance(1, c.size() > 1 ? 1 : 12)) through_set(c);
    else direct(c);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
