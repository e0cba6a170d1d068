// Reference Butterworth filtering, templated on the arithmetic: the design comes straight from the analogue
// prototype and the bilinear substitution, the application from the definition of forward-backward filtering.
#pragma once
#include <cmath>
#include <complex>
#include <functional>
#include <vector>
namespace flt {
enum Type { LOW, HIGH, BAND, STOP };
enum Pad { ZERO, SYM, REP, CYC };
struct Spec {
    Type type;
    size_t N;
    double fs, f1, f2;  // corners in Hz (f2 for the band filters)
};
/// Analogue variable of the unit lowpass prototype at s = 2(z-1)/(z+1)/2
template<class R> std::complex<R> proto(const Spec& p, std::complex<R> s)
{
    R a = std::tan(R(M_PI * p.f1 / p.fs)), b = p.f2 > 0 ? std::tan(R(M_PI * p.f2 / p.fs)) : R(0);
    switch (p.type) {
        case LOW: return s / a;
        case HIGH: return a / s;
        case BAND: return (s * s + a * b) / (s * (b - a));
        default: return s * (b - a) / (s * s + a * b);
    }
}
/// Complex response at angle w (radians per sample)
inline std::complex<double> response(const Spec& p, double w)
{
    std::complex<double> s(0, std::tan(w / 2));
    bool zero = std::fabs(s.imag()) < 1e-14;
    double c = p.f2 > 0 ? std::tan(M_PI * p.f1 / p.fs) * std::tan(M_PI * p.f2 / p.fs) : 0;
    if (zero && (p.type == HIGH || p.type == BAND)) return 0;
    if (p.type == STOP && std::abs(s * s + c) < 1e-14) return 0;
    auto S = proto<double>(p, s);
    std::complex<double> h = 1;
    for (size_t k = 0; k < p.N; k++) h /= S - std::polar(1.0, M_PI * (2. * double(k) + double(p.N) + 1) / (2. * double(p.N)));
    // the poles multiply up to (-1)^N * (+-1): normalise the prototype to 1 at S = 0
    std::complex<double> h0 = 1;
    for (size_t k = 0; k < p.N; k++) h0 /= -std::polar(1.0, M_PI * (2. * double(k) + double(p.N) + 1) / (2. * double(p.N)));
    return h / h0;
}
template<class R> std::vector<std::complex<R>> poly(const std::vector<std::complex<R>>& roots)
{
    std::vector<std::complex<R>> c = {1};
    for (auto r : roots) {
        c.push_back(0);
        for (size_t i = c.size() - 1; i > 0; i--) c[i] -= r * c[i - 1];
    }
    return c;  // descending powers, c[0] = 1
}
/// Digital coefficients b, a (descending powers, a[0] = 1)
template<class R> void design(const Spec& p, std::vector<R>& b, std::vector<R>& a)
{
    typedef std::complex<R> C;
    R w1 = std::tan(R(M_PI * p.f1 / p.fs)), w2 = p.f2 > 0 ? std::tan(R(M_PI * p.f2 / p.fs)) : R(0);
    std::vector<C> ap, dz, dp;
    for (size_t k = 0; k < p.N; k++) {
        C q = std::polar(R(1), R(M_PI * (2. * double(k) + double(p.N) + 1) / (2. * double(p.N))));
        if (p.type == LOW) ap.push_back(q * w1);
        else if (p.type == HIGH) ap.push_back(w1 / q);
        else {
            C h = p.type == BAND ? q * (w2 - w1) / R(2) : (w2 - w1) / (R(2) * q);
            C d = std::sqrt(h * h - w1 * w2);
            ap.push_back(h + d);
            ap.push_back(h - d);
        }
    }
    for (auto s : ap) dp.push_back((C(1) + s) / (C(1) - s));
    double w0 = 0;  // an angle where the response is known
    for (size_t k = 0; k < p.N; k++) {
        if (p.type == LOW) dz.push_back(-1);
        else if (p.type == HIGH) dz.push_back(1);
        else if (p.type == BAND) { dz.push_back(1); dz.push_back(-1); }
        else {
            C j(0, std::sqrt(w1 * w2));
            dz.push_back((C(1) + j) / (C(1) - j));
            dz.push_back((C(1) - j) / (C(1) + j));
        }
    }
    if (p.type == HIGH) w0 = M_PI;
    if (p.type == BAND) w0 = 2 * std::atan(std::sqrt(double(w1) * double(w2)));
    auto B = poly<R>(dz), A = poly<R>(dp);
    C z = std::polar(R(1), R(w0)), nb = 1, na = 1;
    for (auto r : dz) nb *= z - r;
    for (auto r : dp) na *= z - r;
    R g = std::abs(na) / std::abs(nb);
    b.clear();
    a.clear();
    for (auto v : B) b.push_back(v.real() * g);
    for (auto v : A) a.push_back(v.real());
}
/// One pass with the initial state that makes a constant input of x0 start in its steady state
template<class R> std::vector<R> pass(const std::vector<R>& b, const std::vector<R>& a, const std::vector<R>& x)
{
    size_t n = b.size() - 1;
    // steady state of the transposed direct form II for unit input: solve from the last state backwards
    R sb = 0, sa = 0;
    for (size_t i = 0; i <= n; i++) { sb += b[i]; sa += a[i]; }
    R y1 = sb / sa;  // gain at zero frequency
    std::vector<R> z(n + 1, 0);
    for (size_t i = n; i >= 1; i--) z[i - 1] = b[i] - a[i] * y1 + z[i];
    for (auto& v : z) v *= x[0];
    std::vector<R> y(x.size());
    for (size_t i = 0; i < x.size(); i++) {
        y[i] = b[0] * x[i] + z[0];
        for (size_t k = 1; k <= n; k++) z[k - 1] = b[k] * x[i] - a[k] * y[i] + (k < n ? z[k] : R(0));
    }
    return y;
}
template<class R> R padval(const std::vector<R>& x, long i, Pad p)
{
    long n = long(x.size());
    switch (p) {
        case ZERO: return 0;
        case REP: return i < 0 ? x[0] : x[n - 1];
        case CYC: return x[((i % n) + n) % n];
        default: {
            if (n == 1) return x[0];
            while (i < 0 || i >= n) i = i < 0 ? -i : 2 * (n - 1) - i;
            return x[i];
        }
    }
}
template<class R> std::vector<double> zero_phase(const Spec& s, const std::vector<float>& in, Pad p)
{
    std::vector<R> b, a, x(in.begin(), in.end()), t;
    design<R>(s, b, a);
    long P = 3 * long(b.size()), n = long(x.size());
    for (long i = -P; i < n + P; i++) t.push_back(i < 0 || i >= n ? padval(x, i, p) : x[i]);
    t = pass(b, a, t);
    std::reverse(t.begin(), t.end());
    t = pass(b, a, t);
    std::reverse(t.begin(), t.end());
    return std::vector<double>(t.begin() + P, t.begin() + P + n);
}
/// Multiply the spectrum of x: h(k) for bins 0..n/2
inline std::vector<double> spectrum(const std::vector<float>& x, const std::function<std::complex<double>(size_t)>& h)
{
    size_t n = x.size();
    std::vector<std::complex<double>> X(n / 2 + 1);
    for (size_t k = 0; k <= n / 2; k++) {
        for (size_t j = 0; j < n; j++) X[k] += double(x[j]) * std::polar(1.0, -2 * M_PI * double((j * k) % n) / double(n));
        X[k] *= h(k);
    }
    std::vector<double> y(n);
    for (size_t j = 0; j < n; j++) {
        double v = X[0].real();
        for (size_t k = 1; k <= n / 2; k++) {
            auto e = X[k] * std::polar(1.0, 2 * M_PI * double((j * k) % n) / double(n));
            v += (2 * k == n ? X[k].real() * (j % 2 ? -1 : 1) : 2 * e.real());
        }
        y[j] = v / double(n);
    }
    return y;
}
}  // namespace flt
