// C15: temporal filters act as the Butterworth filter they are asked for.
#include "setgen.hh"
#include "filtref.hh"
#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
typedef std::vector<float> Fv;
static const char* TN[] = {"lowpass", "highpass", "bandpass", "bandstop"};
static const char* PN[] = {"zero", "symmetric", "replicate", "cyclic"};

static EP::FltrType lt(int t) { return t == 0 ? EP::FltrType::Lowpass : t == 1 ? EP::FltrType::Highpass : t == 2 ? EP::FltrType::Bandpass : EP::FltrType::Bandstop; }
static EP::PadType lp(int t) { return t == 0 ? EP::PadType::Zero : t == 1 ? EP::PadType::Symmetric : t == 2 ? EP::PadType::Replicate : EP::PadType::Cyclic; }

/// Known finding C15-frequency-domain: the frequency domain variant multiplies bin k by |Re H| + i|Im H| with H
/// taken at fs*k/n radians instead of by the magnitude at 2 pi k/n.
static bool g_strict_freq = false;

struct Job {
    flt::Spec s;
    int pad, dom;
    size_t nw, cntr;  // as passed
    size_t first, len;  // the samples filtered, of ns
};
static void window(Job& j, size_t ns)
{
    size_t centre = j.cntr ? j.cntr : ns / 2;
    j.len = j.nw == 0 || j.nw >= ns ? ns : j.nw % 2 ? j.nw : j.nw - 1;
    long a  = long(centre) - long(j.len / 2);
    j.first = size_t(std::max(0l, std::min(a, long(ns - j.len))));
}
/// "" or what is wrong; poor: the case is too badly conditioned to judge
static std::string judge(const Job& j, const Fv& in, const Fv& out, bool& poor)
{
    for (size_t i = 0; i < in.size(); i++)
        if ((i < j.first || i >= j.first + j.len) && ref::f2u(in[i]) != ref::f2u(out[i]))
            return "sample " + std::to_string(i) + " outside the window changed";
    Fv x(in.begin() + j.first, in.begin() + j.first + j.len);
    double mx = 0;
    for (auto v : x) mx = std::max(mx, std::fabs(double(v)));
    std::vector<std::vector<double>> want;
    double tol = 1e-4 * mx + 1e-30;
    if (j.dom == 0) {
        want.push_back(flt::zero_phase<double>(j.s, x, flt::Pad(j.pad)));
        auto f   = flt::zero_phase<float>(j.s, x, flt::Pad(j.pad));
        double d = 0;
        for (size_t i = 0; i < f.size(); i++) d = std::max(d, std::fabs(f[i] - want[0][i]));
        if (!(d < 0.001 * mx + 1e-30)) { poor = true; return ""; }
        // the response's sensitivity to coefficients in single precision
        std::vector<double> b, a;
        flt::design<double>(j.s, b, a);
        double worst = 0;
        for (int q = 0; q <= 200; q++) {
            double w = M_PI * q / 200., e = 0;
            std::complex<double> A;
            for (size_t m = 0; m < b.size(); m++) {
                A += a[m] * std::polar(1.0, -w * double(m));
                e += (std::fabs(b[m]) + std::fabs(a[m])) * 1.2e-6;
            }
            worst = std::max(worst, e / std::abs(A));
        }
        if (!(worst < 0.005)) { poor = true; return ""; }
        tol += 20 * d + 2 * worst * mx;
    }
    else {
        size_t n = x.size();
        want.push_back(flt::spectrum(x, [&](size_t k) { return std::abs(flt::response(j.s, 2 * M_PI * double(k) / double(n))); }));
        want.push_back(flt::spectrum(x, [&](size_t k) { return std::norm(flt::response(j.s, 2 * M_PI * double(k) / double(n))); }));
        if (!g_strict_freq) {
            std::vector<double> b, a, err(n / 2 + 1);
            flt::design<double>(j.s, b, a);
            // what single precision can do to bin k: coefficients, and angles of many turns
            auto H = [&](size_t k) {
                std::complex<double> p, q;
                double eb = 0, ea = 0;
                for (size_t m = 0; m < b.size(); m++) {
                    double ang = j.s.fs * double(m * k) / double(n);
                    p += b[m] * std::polar(1.0, -ang);
                    q += a[m] * std::polar(1.0, -ang);
                    eb += std::fabs(b[m]) * (2.4e-6 + 1.2e-7 * ang);
                    ea += std::fabs(a[m]) * (2.4e-6 + 1.2e-7 * ang);
                }
                auto h = p / q;
                err[k] = (eb + std::abs(h) * ea) / std::abs(q);
                return std::complex<double>(std::fabs(h.real()), std::fabs(h.imag()));
            };
            auto alt = flt::spectrum(x, [&](size_t k) { return H(k); });
            double worst = 0;
            for (double e : err) worst = std::max(worst, e);
            if (!(worst < 0.02)) { poor = true; return ""; }
            double add = 0;
            for (size_t k = 0; k <= n / 2; k++) {
                std::complex<double> X;
                for (size_t m = 0; m < n; m++) X += double(x[m]) * std::polar(1.0, -2 * M_PI * double((m * k) % n) / double(n));
                add += 2 * std::abs(X) * err[k] / double(n);
            }
            tol += 1.5 * add;
            want.push_back(alt);
        }
    }
    std::string why;
    for (auto& w : want) {
        size_t bad = w.size();
        for (size_t i = 0; i < w.size() && bad == w.size(); i++) if (!(std::fabs(out[j.first + i] - w[i]) <= tol)) bad = i;
        if (bad == w.size()) return "";
        if (why.empty()) {
            std::ostringstream s;
            s.precision(9);
            s << "sample " << j.first + bad << ": " << in[j.first + bad] << " became " << out[j.first + bad] << ", want " << w[bad] << " within " << tol;
            why = s.str();
        }
    }
    return why;
}
/// Order of a filter with 3 dB at the passband corner and 20 dB at the stopband corner (as fractions of fs)
static double order(double p, double s)
{
    return 0.5 * std::log(99. / (std::pow(10., 0.3) - 1)) / std::fabs(std::log(std::tan(M_PI * s) / std::tan(M_PI * p)));
}
static Job gen_job(Ctx& c, size_t ns)
{
    Job j;
    j.s.type = flt::Type(c.draw(4));
    j.s.N    = 1 + c.draw(j.s.type < 2 ? 5 : 3);
    j.s.fs   = c.pick(std::vector<double>{1, 30, 250, 500, 2 * M_PI});
    double a = 0.04 + 0.01 * double(c.draw(36)), b = 0;
    if (j.s.type >= 2) { a = std::min(a, 0.25); b = a + 0.05 + 0.01 * double(c.draw(15)); }
    j.s.f1  = double(float(a * j.s.fs));
    j.s.f2  = double(float(b * j.s.fs));
    j.s.fs  = double(float(j.s.fs));
    j.pad   = int(c.draw(4));
    j.dom   = int(c.draw(2));
    j.nw    = c.chance(1, 2) ? 0 : 1 + c.draw(ns + 3);
    j.cntr  = c.chance(1, 2) ? 0 : c.draw(ns);
    window(j, ns);
    return j;
}
static std::string jstr(const Job& j)
{
    std::ostringstream s;
    s << TN[j.s.type] << " N=" << j.s.N << " fs=" << j.s.fs << " corners=" << j.s.f1 << "," << j.s.f2 << (j.dom ? " frequency" : " time") << " pad=" << PN[j.pad]
      << " nw=" << j.nw << " centre=" << j.cntr;
    return s.str();
}
/// Corners with a stopband, that give order N: the documented order of frequencies does not matter
static Fv corners_for(Ctx& c, Job& j, bool& ok)
{
    // one of the two transitions may be wider than order N makes it
    size_t ord[2] = {j.s.N, j.s.N};
    if (j.s.type == flt::STOP) {
        // room for two transitions inside the band
        j.s.N  = 2 + c.draw(2);
        j.s.f1 = double(float((0.02 + 0.01 * double(c.draw(5))) * j.s.fs));
        j.s.f2 = double(float((0.30 + 0.01 * double(c.draw(16))) * j.s.fs));
        ord[0] = ord[1] = j.s.N;
        if (c.chance(1, 2)) ord[c.draw(2)] = 2 + c.draw(j.s.N - 1);
    }
    else if (j.s.type >= 2 && c.chance(2, 3)) ord[c.draw(2)] = 1 + c.draw(j.s.N);
    auto stop = [&](double p, bool above, size_t side = 0) {
        double r = std::pow(99. / (std::pow(10., 0.3) - 1), 1. / (2. * (double(ord[side]) - 0.5)));
        return std::atan(std::tan(M_PI * p) * (above ? r : 1 / r)) / M_PI;
    };
    double p1 = j.s.f1 / j.s.fs, p2 = j.s.f2 / j.s.fs;
    Fv v;
    switch (j.s.type) {
        case flt::LOW: v = {float(j.s.f1), float(stop(p1, true) * j.s.fs)}; break;
        case flt::HIGH: v = {float(j.s.f1), float(stop(p1, false) * j.s.fs)}; break;
        case flt::BAND: v = {float(j.s.f1), float(j.s.f2), float(stop(p1, false) * j.s.fs), float(stop(p2, true, 1) * j.s.fs)}; break;
        default: v = {float(j.s.f1), float(j.s.f2), float(stop(p1, true) * j.s.fs), float(stop(p2, false, 1) * j.s.fs)};
            if (v[2] >= v[3]) ok = false;
    }
    double o = j.s.type < 2 ? order(v[0] / j.s.fs, v[1] / j.s.fs) : std::max(order(v[0] / j.s.fs, v[2] / j.s.fs), order(v[1] / j.s.fs, v[3] / j.s.fs));
    if (size_t(std::ceil(o)) != j.s.N) ok = false;
    c.label_if(ok && j.s.type == flt::STOP, "stop band by four corners");
    if (ok && ord[0] != ord[1]) c.label("unequal transitions");
    auto perm = c.permutation(v.size());
    Fv w;
    for (auto i : perm) w.push_back(v[i]);
    return w;
}
static Fv content(Ctx& c, size_t n, std::string& d)
{
    uint64_t seed = c.draw(1u << 20);
    size_t st = c.draw(5);
    Fv v(n);
    double f = double(hash({seed, 1}) % 1000) / 2000.;
    for (size_t i = 0; i < n; i++) {
        uint64_t h = hash({seed, i, 2});
        switch (st) {
            case 0: v[i] = i == seed % n ? 1.f : 0.f; break;
            case 1: v[i] = 1; break;
            case 2: v[i] = float(std::sin(2 * M_PI * f * double(i))); break;
            case 3: v[i] = float(int(h % 2001) - 1000) / 16.f; break;
            default: v[i] = float(i) - float(seed % 50);
        }
    }
    d = "content " + std::to_string(st) + "/" + std::to_string(seed);
    return v;
}

static void design_case(Ctx& c)
{
    Job j = gen_job(c, 10);
    size_t t = j.s.type < 2 ? j.s.N : 2 * j.s.N;
    Fv b(t + 1, 77.f), a(t + 1, 77.f);
    c.desc << "design " << jstr(j);
    c.label("design");
    c.nontrivial(true);
    EP::makeFilter(lt(j.s.type), b.data(), a.data(), j.s.N, float(j.s.fs), float(j.s.f1), float(j.s.f2));
    for (int q = 0; q < 12 && !c.failed; q++) {
        double w = M_PI * double(q == 0 ? 0 : q == 1 ? 1000 : c.draw(1001)) / 1000.;
        std::complex<double> B, A;
        double sb = 0, sa = 0;
        for (size_t k = 0; k <= t; k++) {
            auto e = std::polar(1.0, -w * double(k));
            B += double(b[k]) * e;
            A += double(a[k]) * e;
            sb += std::fabs(b[k]);
            sa += std::fabs(a[k]);
        }
        auto want = flt::response(j.s, w), got = B / A;
        double eps = 6e-8 * 40, tol = 1e-4 + eps * (sb + sa * std::abs(want)) / std::abs(A);
        if (tol > 0.02) { c.label("ill-conditioned"); continue; }
        if (!(std::abs(want - got) <= tol)) {
            std::ostringstream s;
            s.precision(9);
            s << "the response at " << w / M_PI << " of the Nyquist frequency is " << got << ", want " << want << " within " << tol;
            c.fail(s.str());
        }
    }
    // the order of a filter with given pass and stop corners
    double p = 0.01 + 0.48 * double(c.draw(1000)) / 1000., s = 0.01 + 0.48 * double(c.draw(1000)) / 1000.;
    double o = order(p, s);
    if (std::fabs(p - s) > 0.005 && std::fabs(o - std::round(o)) > 1e-3 * o)
        c.eq(EP::filterOrder(float(p), float(s)), size_t(std::ceil(o)), "order for corners " + std::to_string(p) + " and " + std::to_string(s));
}

static void direct(Ctx& c)
{
    size_t ns = 1 + c.count_in(0, c.chance(1, 6) ? 250 : 60, 2500), nt = 1 + c.draw(4);
    Job j = gen_job(c, ns);
    bool ok = true, cor = c.chance(1, 2);
    Fv co = {float(j.s.f1), float(j.s.f2)};
    if (cor) {
        auto v = corners_for(c, j, ok);
        if (ok) co = v;
        else { cor = false; co = {float(j.s.f1), float(j.s.f2)}; }
    }
    std::string d;
    std::vector<Fv> in(nt);
    for (auto& v : in) v = content(c, ns, d);
    c.desc << jstr(j) << (cor ? " by stopbands" : " by order") << " ns=" << ns << " nt=" << nt << " last " << d;
    c.label(TN[j.s.type]);
    c.label(j.dom ? "frequency domain" : std::string("time domain, pad ") + PN[j.pad]);
    c.label_if(cor, "by stopband corners");
    c.label_if(j.len < ns, "window");
    c.nontrivial(ns > 3);
    auto run = [&](const std::vector<Fv>& x) {
        std::unique_ptr<float[]> buf(new float[x.size() * ns]);
        for (size_t t = 0; t < x.size(); t++) std::copy(x[t].begin(), x[t].end(), &buf[t * ns]);
        auto dom = j.dom ? EP::FltrDmn::Freq : EP::FltrDmn::Time;
        if (cor) EP::temporalFilter(x.size(), ns, buf.get(), float(j.s.fs), lt(j.s.type), dom, lp(j.pad), j.nw, j.cntr, co);
        else EP::temporalFilter(x.size(), ns, buf.get(), float(j.s.fs), lt(j.s.type), dom, lp(j.pad), j.nw, j.cntr, co, j.s.N);
        std::vector<Fv> y;
        for (size_t t = 0; t < x.size(); t++) y.push_back(Fv(&buf[t * ns], &buf[t * ns] + ns));
        return y;
    };
    auto out  = run(in);
    bool poor = false;
    for (size_t t = 0; t < nt && !c.failed; t++) {
        auto s = judge(j, in[t], out[t], poor);
        if (!s.empty()) c.fail("trace " + std::to_string(t) + ": " + s);
    }
    if (poor) { c.label("ill-conditioned"); return; }
    if (c.failed) return;
    // each trace on its own, and a linear combination
    size_t q  = c.draw(nt);
    auto solo = run({in[q]})[0];
    for (size_t i = 0; i < ns && !c.failed; i++) c.check(ref::f2u(solo[i]) == ref::f2u(out[q][i]), "trace " + std::to_string(q) + " comes out differently when filtered on its own");
    float a = float(int(c.draw(9)) - 4), b = float(int(c.draw(9)) - 4) / 2;
    Fv mix(ns);
    double mx = 0;
    for (size_t i = 0; i < ns; i++) {
        mix[i] = a * in[0][i] + b * in[nt - 1][i];
        mx     = std::max(mx, std::max(std::fabs(double(in[0][i])), std::fabs(double(in[nt - 1][i]))));
    }
    auto m = run({mix})[0];
    for (size_t i = 0; i < ns && !c.failed; i++) {
        double want = double(a) * out[0][i] + double(b) * out[nt - 1][i];
        if (!(std::fabs(m[i] - want) <= (std::fabs(a) + std::fabs(b)) * mx * 0.03 + 1e-30))
            c.fail("not linear: sample " + std::to_string(i) + " is " + std::to_string(m[i]) + " want " + std::to_string(want));
    }
}
static void through_set(Ctx& c)
{
    std::string d;
    auto in = sg::gen(c, 2, 1, 12, S_INDEX, d, 5);
    size_t ns = 1000;
    for (auto& f : in.files) ns = std::min(ns, f.ns);
    Job j = gen_job(c, ns);
    bool ok = true, cor = c.chance(1, 2);
    Fv co = {float(j.s.f1), float(j.s.f2)};
    if (cor) {
        auto v = corners_for(c, j, ok);
        if (ok) co = v;
        else { cor = false; co = {float(j.s.f1), float(j.s.f2)}; }
    }
    uint64_t seed = c.draw(1u << 20);
    sg::set_samples(in, [&](size_t f, size_t t, std::vector<uint32_t>& s) {
        for (size_t k = 0; k < s.size(); k++) s[k] = ref::f2u(float(int(hash({seed, f, t, k}) % 201) - 100));
    });
    auto gs = sg::groups(in);
    size_t mem = c.chance(1, 3) ? 1 + c.draw(12) : 0, total = 0;
    for (auto& f : in.files) total += f.tr.size();
    c.desc << "set np=" << c.size() << " " << d << " " << jstr(j) << (cor ? " by stopbands" : " by order") << " block=" << mem;
    c.label("through a set");
    c.label(TN[j.s.type]);
    c.label_if(cor, "by stopband corners");
    c.nontrivial(total > 1);
    auto dir = sg::fresh_dir(c, "filt");
    sg::write(c, in, dir);
    sg::memlimit(gs, mem);
    {
        auto piol = new_piol();
        EF::Set set(piol, in.pattern);
        auto dom = j.dom ? EP::FltrDmn::Freq : EP::FltrDmn::Time;
        if (cor) set.temporalFilter(lt(j.s.type), dom, lp(j.pad), float(j.s.fs), co, j.nw, j.cntr);
        else set.temporalFilter(lt(j.s.type), dom, lp(j.pad), float(j.s.fs), j.s.N, co, j.nw, j.cntr);
        set.output(dir + "out_");
        c.check(!is_err(piol), "an error was recorded");
    }
    sg::memlimit(gs, 0);
    barrier();
    auto outs = sg::outputs(c, dir, gs);
    for (auto& o : outs) {
        auto& G = gs[o.first];
        auto& F = o.second.second;
        Job k   = j;
        window(k, G.ns);
        if (!c.eq(F.tr.size(), G.ids.size(), "traces of " + o.second.first)) break;
        for (size_t i = 0; i < F.tr.size() && !c.failed; i++) {
            auto& T = in.files[G.ids[i].f].tr[G.ids[i].t];
            Fv a, b;
            for (auto u : T.s) a.push_back(ref::u2f(u));
            for (auto u : F.tr[i].s) b.push_back(ref::u2f(u));
            bool poor = false;
            auto s    = judge(k, a, b, poor);
            if (!s.empty()) c.fail(o.second.first + " trace " + std::to_string(i) + ": " + s);
            if (T.h != F.tr[i].h) c.fail("the header of trace " + std::to_string(i) + " changed");
        }
    }
    barrier();
    if (c.rank() == 0) sg::rmtree(dir);
    barrier();
}
static void prop(Ctx& c)
{
    if (c.chance(1, c.size() > 1 ? 1 : 12)) through_set(c);
    else if (c.chance(1, 4)) design_case(c);
    else direct(c);
}
int main(int argc, char** argv)
{
    pbt::G().findings["C15-frequency-domain"] = [](Ctx& c) {
        g_strict_freq = true;
        Job j;
        j.s   = {flt::LOW, 3, 30, 1.667f, 0};
        j.pad = 0; j.dom = 1; j.nw = 0; j.cntr = 0;
        size_t ns = 59;
        window(j, ns);
        Fv x(ns);
        for (size_t i = 0; i < ns; i++) x[i] = float(std::sin(4.8 * M_PI * double(i) / 59) + 1.5 * std::cos(36 * M_PI * double(i) / 59));
        Fv y = x;
        c.desc << jstr(j);
        EP::temporalFilter(1, ns, y.data(), 30, EP::FltrType::Lowpass, EP::FltrDmn::Freq, EP::PadType::Zero, 0, 0, {1.667f, 0}, 3);
        bool poor = false;
        auto s = judge(j, x, y, poor);
        if (!s.empty()) c.fail(s);
    };
    return pbt::run(argc, argv, prop);
}
