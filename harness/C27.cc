// C27: survey outlines and trace listings say where the traces are.
#include "setgen.hh"
#include "util.hh"

extern "C" {
int util_main_segy2kml(int, char**);
int util_main_traceanalysis(int, char**);
}

namespace {
const double PI = std::acos(-1.), A = 6378137., F = 1. / 298.257223563, K0 = 0.9996;
/// Universal transverse Mercator by Krueger's series in the third flattening (sub-millimetre here)
void forward(double lat, double lng, int zone, bool north, double& e, double& n)
{
    double nn = F / (2 - F), l = (lng - (6. * zone - 183.)) * PI / 180., p = lat * PI / 180.;
    double A1 = A / (1 + nn) * (1 + nn * nn / 4 + nn * nn * nn * nn / 64);
    double al[4] = {nn / 2 - 2 * nn * nn / 3 + 5 * nn * nn * nn / 16 + 41 * std::pow(nn, 4) / 180, 13 * nn * nn / 48 - 3 * nn * nn * nn / 5 + 557 * std::pow(nn, 4) / 1440, 61 * nn * nn * nn / 240 - 103 * std::pow(nn, 4) / 140, 49561 * std::pow(nn, 4) / 161280};
    double s = 2 * std::sqrt(nn) / (1 + nn);
    double t = std::sinh(std::atanh(std::sin(p)) - s * std::atanh(s * std::sin(p)));
    double xi = std::atan2(t, std::cos(l)), eta = std::atanh(std::sin(l) / std::sqrt(1 + t * t));
    double x = eta, y = xi;
    for (int j = 1; j <= 4; j++) {
        x += al[j - 1] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);
        y += al[j - 1] * std::sin(2 * j * xi) * std::cosh(2 * j * eta);
    }
    e = 500000. + K0 * A1 * x;
    n = (north ? 0. : 1e7) + K0 * A1 * y;
}
struct File { std::string name; ref::File f; double lo[2], hi[2]; };
}  // namespace

// ---------------------------------------------------------------- outlines
static void kml(Ctx& c)
{
    auto d = sg::fresh_dir(c, "k");
    bool utm = c.chance(2, 3);
    int zone = 1 + int(c.draw(60));
    bool north = c.flip();
    bool list = c.chance(1, 3), named = c.flip();
    bool zoned = c.chance(1, 8) ? !utm : utm;  // a zone for degrees is of no use, without one metres can not be told
    size_t nf = 1 + c.draw(3);
    uint64_t seed = c.bits64();
    std::vector<File> in;
    c.desc << "np=" << c.size() << " outline " << (utm ? std::to_string(zone) + (north ? "N" : "S") : "latitude and longitude") << (zoned == utm ? "" : zoned ? " with a zone" : " without a zone") << (list ? " listed" : "") << (named ? " named folder" : "");
    for (size_t f = 0; f < nf; f++) {
        File q;
        size_t nt = 1 + c.count_in(0, 30, 600);
        q.name = d + "in_" + std::to_string(f) + c.pick(std::vector<std::string>{".segy", ".sgy", ".SGY"});
        q.f.ns = c.draw(3);
        q.f.inc_us = 2000;
        q.f.text = "C 1 outline";
        q.f.text.resize(3200, ' ');
        q.f.tr.resize(nt);
        double e0, n0, lat = double(c.range(0, 8000)) / 100. * (north ? 1 : -1), lng = 6. * zone - 183. + double(c.range(-320, 320)) / 100.;
        if (!utm && lng > 177) lng -= 6;
        int place = int(c.draw(4));  // near whole degrees the fraction has leading zeros
        if (place == 0) { lat = std::round(lat); lng = std::round(lng); }
        forward(lat, lng, zone, north, e0, n0);
        int64_t spread = c.pick(std::vector<int64_t>{1, 300, 100000, 2000000});
        int scal = utm ? c.pick(std::vector<int>{-100, -10, -100}) : c.pick(std::vector<int>{-10000, -1000});
        for (int k = 0; k < 2; k++) { q.lo[k] = HUGE_VAL; q.hi[k] = -HUGE_VAL; }
        for (size_t t = 0; t < nt; t++) {
            auto& h = q.f.tr[t].h;
            for (size_t b = 0; b < 240; b++) h[b] = uint8_t(hash({seed, f, t, b}));
            ref::put16(&h[70], scal);
            double v[2];
            for (int k = 0; k < 2; k++) {
                int64_t r = int64_t(hash({seed, f, t, uint64_t(1000 + k)}) % uint64_t(spread));
                if (utm) v[k] = (k ? n0 : e0) + double(r) / 100.;
                else v[k] = (k ? lat : lng) + double(r % 20000) / 10000.;
                int32_t raw = int32_t(std::llround(v[k] * -scal));
                ref::put32(&h[k ? 76 : 72], uint32_t(raw));
                double w = ref::decode_float(h.data(), k ? 77 : 73, 71);
                q.lo[k] = std::min(q.lo[k], w);
                q.hi[k] = std::max(q.hi[k], w);
            }
            q.f.tr[t].s.assign(q.f.ns, 0);
        }
        c.desc << " [" << nt << " traces from (" << q.lo[0] << "," << q.lo[1] << ") to (" << q.hi[0] << "," << q.hi[1] << ")]";
        in.push_back(q);
    }
    c.label_if(zoned && !utm, "needless zone");
    c.label_if(!zoned && utm, "zone missing");
    c.label(utm ? north ? "north" : "south" : "degrees");
    c.nontrivial(nf > 1 || in[0].f.tr.size() > 1);
    if (c.rank() == 0) {
        for (auto& q : in) ref::spit(q.name, q.f.encode());
        std::string l;
        for (auto& q : in) l += q.name + "\n";
        ref::spit(d + "files.txt", ref::Bytes(l.begin(), l.end()));
    }
    barrier();
    std::vector<std::string> a = {"exseis-segy2kml", "-o", d + "out.kml"};
    if (list) { a.push_back("-i"); a.push_back(d + "files.txt"); }
    else for (auto& q : in) { a.push_back("-i"); a.push_back(q.name); }
    if (zoned) { a.push_back("-z"); a.push_back(std::to_string(zone) + (c.flip() ? north ? "N" : "S" : north ? "n" : "s")); }
    if (named) { a.push_back("-f"); a.push_back("the folder"); }
    std::string out;
    c.eq(run_util(c, util_main_segy2kml, a, out), 0, "exit status");
    if (c.rank() == 0) c.check((out.find("Invalid coordinates") == std::string::npos) == (zoned || !utm), zoned || !utm ? "coordinates that are right are called invalid" : "nothing is said about metres without a zone");
    if (c.rank() == 0) {
        auto b = ref::slurp(d + "out.kml");
        std::string s(b.begin(), b.end());
        c.check(s.find("<name>" + std::string(named ? "the folder" : "SEG-Y") + "</name>") != std::string::npos, "name of the folder");
        c.check(s.size() > 6 && s.substr(s.size() - 6) == "</kml>", "the document has no end");
        size_t at = 0;
        for (auto& q : in) {
            size_t p = s.find("<Placemark>", at), e = s.find("</Placemark>", at);
            if (!c.check(p != std::string::npos && e != std::string::npos && p < e, "no place for " + q.name)) break;
            std::string m = s.substr(p, e - p);
            c.check(m.find("<name>" + q.name + "</name>") != std::string::npos, "name of the place of " + q.name);
            size_t o = m.find("<coordinates>");
            double v[6];
            if (!c.check(o != std::string::npos && sscanf(m.c_str() + o, "<coordinates> %lf,%lf,%lf %lf,%lf,%lf", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6, "no two coordinates: " + m)) break;
            for (int k = 0; k < 2; k++) {
                double lng = v[3 * k], lat = v[3 * k + 1], x = k ? q.hi[0] : q.lo[0], y = k ? q.hi[1] : q.lo[1];
                std::ostringstream t;
                t.precision(12);
                t << q.name << ": " << (k ? "largest" : "smallest") << " coordinates " << x << "," << y << " are told as longitude " << lng << ", latitude " << lat;
                if (utm && !zoned) continue;
                if (utm) {
                    double ee, nn;
                    forward(lat, lng, zone, north, ee, nn);
                    t << ", that is " << ee << "," << nn;
                    c.check(std::fabs(ee - x) < 0.01 && std::fabs(nn - y) < 0.01, t.str());
                }
                else c.check(std::fabs(lng - x) < 1e-8 && std::fabs(lat - y) < 1e-8, t.str());
            }
            at = e + 1;
        }
        if (!c.failed) c.check(s.find("<Placemark>", at) == std::string::npos, "more places than files");
    }
    c.all_ok();
    barrier();
    if (chdir("/") != 0) abort();
    barrier();
    if (c.rank() == 0) sg::rmtree(d);
    barrier();
}

// ---------------------------------------------------------------- one trace
static void listing(Ctx& c)
{
    size_t nt = 1 + c.count_in(0, 30, 600), tn = c.draw(nt);
    uint64_t seed = c.bits64();
    bool given = tn > 0 || c.flip();
    ref::File F;
    F.ns = c.draw(4);
    F.inc_us = 2000;
    F.text = "C 1 listing";
    F.text.resize(3200, ' ');
    F.tr.resize(nt);
    int scal = c.pick(std::vector<int>{1, 0, -100, 10, -10000});
    int style = int(c.draw(3));
    for (size_t t = 0; t < nt; t++) {
        auto& h = F.tr[t].h;
        for (size_t b = 0; b < 240; b++) h[b] = uint8_t(hash({seed, t, b}));
        if (style < 2) for (int l : {73, 77, 81, 85, 181, 185, 189, 193}) ref::put32(&h[size_t(l - 1)], uint32_t(int32_t(hash({seed, t, uint64_t(l)}) % (style ? 2001 : 10))) - (style ? 1000 : 0));
        ref::put16(&h[70], scal);
        F.tr[t].s.assign(F.ns, 0);
    }
    auto name = c.path("in");
    c.desc << "np=" << c.size() << " trace " << tn << " of " << nt << " scaler " << scal << " style " << style;
    c.label("listing");
    c.nontrivial(nt > 1);
    if (c.rank() == 0) ref::spit(name, F.encode());
    barrier();
    std::vector<std::string> a = {"exseis-traceanalysis", "-i", name};
    if (given) { a.push_back("-t"); a.push_back(std::to_string(tn)); }
    std::string out;
    c.eq(run_util(c, util_main_traceanalysis, a, out), 0, "exit status");
    if (c.rank() == 0) {
        std::istringstream is(out);
        auto& h = F.tr[tn].h;
        struct { const char* n; int loc; bool fl; } w[] = {{"xSrc", 73, true}, {"ySrc", 77, true}, {"xRcv", 81, true}, {"yRcv", 85, true}, {"xCmp", 181, true}, {"yCmp", 185, true}, {"il", 189, false}, {"xl", 193, false}};
        for (auto& x : w) {
            std::string n, v;
            is >> n >> v;
            double want = x.fl ? ref::decode_float(h.data(), x.loc, 71) : double(ref::get32(&h[size_t(x.loc - 1)])), g = atof(v.c_str());
            c.check(n == x.n && std::fabs(g - want) <= (x.fl ? 6e-6 * std::fabs(want) : 0.), std::string(x.n) + " is listed as '" + n + " " + v + "', it is " + std::to_string(want));
        }
    }
    drop(name);
}

// ---------------------------------------------------------------- refusals
static void refused(Ctx& c)
{
    auto d = sg::fresh_dir(c, "r");
    std::vector<std::string> zones = {"0N", "0S", "61N", "61s", "-1N", "100S", "600n", "31", "31X", "31W", "31E", "7T", "3.5N", "59.5S", "60.5n", "0.5N", "N31", "1"};
    std::string z = c.pick(zones);
    int what = int(c.draw(5));  // 0-2: the zone, 3: no input, 4: no output
    if (what > 2) z = std::to_string(1 + c.draw(60)) + c.pick(std::vector<std::string>{"N", "S", "n", "s"});
    ref::File F;
    F.ns = 1;
    F.inc_us = 2000;
    F.text.assign(3200, ' ');
    F.tr.resize(1 + c.draw(3));
    for (auto& t : F.tr) {
        for (size_t b = 0; b < 240; b++) t.h[b] = 0;
        ref::put16(&t.h[70], 1);
        for (int l : {73, 77, 81, 85}) ref::put32(&t.h[size_t(l - 1)], uint32_t(500000 + c.draw(1000)));
        t.s.assign(1, 0);
    }
    c.desc << "np=" << c.size() << " zone '" << z << "'" << (what == 3 ? " without an input" : what == 4 ? " without an output" : "");
    c.label("refused");
    c.nontrivial(true);
    auto in = d + "in_0.segy", on = d + "out.kml";
    if (c.rank() == 0) ref::spit(in, F.encode());
    barrier();
    std::vector<std::string> a = {"exseis-segy2kml"};
    if (what != 3) { a.push_back("-i"); a.push_back(in); }
    if (what != 4) { a.push_back("-o"); a.push_back(on); }
    a.push_back("-z");
    a.push_back(z);
    std::string out;
    int r = run_util(c, util_main_segy2kml, a, out);
    c.check(r != 0, "accepted");
    if (c.rank() == 0) {
        c.check(!out.empty(), "nothing is said");
        c.check(access(on.c_str(), F_OK) != 0, "an outline is written");
    }
    c.all_ok();
    barrier();
    if (chdir("/") != 0) abort();
    barrier();
    if (c.rank() == 0) sg::rmtree(d);
    barrier();
}

static void prop(Ctx& c)
{
    if (c.chance(1, 12)) refused(c);
    else if (c.draw(4) == 0) listing(c);
    else kml(c);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
