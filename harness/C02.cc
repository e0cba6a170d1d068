// C02: header parameters round trip within SEG-Y precision.
#include "common.hh"
using EP::param_utils::getPrm;
using EP::param_utils::setPrm;

static double gen_float(Ctx& c)
{
    double sgn = c.flip() ? -1. : 1.;
    switch (c.draw(9)) {
        case 8: {  // a whole number and a few units of its last decimal place
            int k = 1 + int(c.draw(4));
            return sgn * (double(c.draw(c.flip() ? 20 : 200000)) + double(1 + c.draw(3)) / std::pow(10., k));
        }
        case 0: return 0.;
        case 1: return sgn * double(c.draw(2000));
        case 2: {  // k decimals
            int k = int(c.draw(5));
            return sgn * double(c.draw(2000000000)) / std::pow(10., k);
        }
        case 3: return sgn * double(2147483647u - c.draw(3));          // int32 limit
        case 4: return sgn * double(c.draw(1 << 30)) * 1024.;          // needs a positive scaler
        case 5: return sgn * double(c.draw(1ull << 52)) / double(1ull << 32);  // arbitrary binary fraction
        case 6: return sgn * (double(c.draw(214750)) + 0.9990 + double(c.draw(100)) * 1e-5);
        default: {  // just around the representable limit of each scale
            int e = int(c.draw(9)) - 4;
            double d = double(c.draw(9)) - (e == 4 ? 8. : 4.);
            return sgn * (2147483647. * std::pow(10., e) + d * std::pow(10., e) * 0.5);
        }
    }
}

static void prop(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    size_t ns  = c.size_in(0, 12);
    size_t nt  = c.count_in(1, 16, 1500);
    RuleSpec R = gen_rule(c);
    uint64_t hs = c.draw(1 << 16);
    bool tame   = c.chance(1, 3);  // every float a modest integer: one class among others
    // values[t][e]
    std::vector<std::vector<double>> val(nt, std::vector<double>(R.ent.size(), 0.));
    size_t drawn = std::min<size_t>(nt, 3);
    bool frac = false, bigv = false, neg = false;
    for (size_t t = 0; t < nt; t++)
        for (size_t e = 0; e < R.ent.size(); e++) {
            double v;
            auto& f = R.ent[e];
            uint64_t h = hash({hs, t, e});
            if (f.type == ref::LONG) {
                if (t < drawn) {
                    int k = int(c.draw(4));
                    v = k == 0 ? double(c.draw(100)) : k == 1 ? -double(c.draw(100)) : k == 2 ? double(int32_t(c.draw(1ull << 32))) : (c.flip() ? 2147483647. : -2147483648.);
                }
                else v = double(int32_t(h));
            }
            else if (f.type == ref::SHORT) {
                if (t < drawn) v = c.flip() ? double(int16_t(c.draw(65536))) : double(c.draw(40));
                else v = double(int16_t(h));
            }
            else {
                if (tame) v = double(h % 100000);
                else if (t < drawn) v = gen_float(c);
                else v = val[h % drawn][e];
                if (v != std::floor(v)) frac = true;
                if (std::fabs(v) > 2147483647.) bigv = true;
                if (v < 0) neg = true;
            }
            val[t][e] = v;
        }
    auto part  = c.partition(nt, np);
    int form   = int(c.draw(4));  // 0 writeParam 1 writeTrace 2 list param 3 list trace
    size_t skip = c.chance(1, 3) ? c.draw(3) : 0;
    // read with a rule that knows a subset of the entries (any order)
    RuleSpec R2;
    for (auto& f : R.ent) if (!c.chance(1, 5)) R2.ent.push_back(f);
    if (c.flip()) std::reverse(R2.ent.begin(), R2.ent.end());
    R2.copy     = c.chance(1, 4);
    auto part2  = c.partition(nt, np);
    int form2   = int(c.draw(5));
    size_t skip2 = c.chance(1, 3) ? c.draw(3) : 0;
    IoOpt io    = gen_io(c, 240 + 4 * ns);

    c.desc << "nt=" << nt << " ns=" << ns << " rule=" << R.str() << " form=" << form << "/" << form2 << " skip=" << skip << "/" << skip2
           << " split=" << vstr(part) << vstr(part2);
    if (!R.ent.empty()) {
        c.desc.precision(17);
        c.desc << " trace0:";
        for (size_t e = 0; e < R.ent.size() && e < 8; e++) c.desc << " " << R.ent[e].name << "=" << val[0][e];
    }
    c.label_if(frac, "fractional coordinates");
    c.label_if(bigv, "coordinates beyond int32");
    c.label_if(neg, "negative coordinates");
    c.label_if(R.copy, "raw copy rule");
    c.label_if(R.find(33) != nullptr, "custom float entry");
    c.nontrivial(R.ent.size() >= 2 && (frac || bigv || np > 1 || R.copy));

    std::string fn = c.path("c02.segy");
    auto piol      = new_piol();
    auto rawbyte   = [&](size_t t, size_t b) { return uint8_t(hash({hs, t, b, 5})); };
    {
        auto w = open_write(piol, fn, io);
        w->writeNs(ns);
        w->writeInc(0.002);
        w->writeText("C02");
        w->writeNt(nt);
        size_t off = offset_of(part, me), n = part[me];
        auto rule  = R.make();
        EP::Param prm(rule, n + skip);
        for (size_t k = 0; k < n; k++) {
            size_t t = off + k;
            if (R.copy) for (size_t b = 0; b < 240; b++) prm.c[(skip + k) * 240 + b] = rawbyte(t, b);
            for (size_t e = 0; e < R.ent.size(); e++) {
                auto m = EP::Meta(R.ent[e].meta);
                if (R.ent[e].type == ref::FLOAT) setPrm(skip + k, m, val[t][e], &prm);
                else if (R.ent[e].type == ref::LONG) setPrm(skip + k, m, exseis::utils::Integer(val[t][e]), &prm);
                else setPrm(skip + k, m, int16_t(val[t][e]), &prm);
            }
        }
        std::vector<float> trc(n * ns, 1.5f);
        Sv ids(n);
        for (size_t k = 0; k < n; k++) ids[k] = off + k;
        EP::WriteInterface& wi = *w;
        if (form == 0) wi.writeParam(off, n, &prm, skip);
        else if (form == 1) wi.writeTrace(off, n, trc.data(), &prm, skip);
        else if (form == 2) wi.writeParamNonContiguous(n, ids.data(), &prm, skip);
        else wi.writeTraceNonContiguous(n, ids.data(), trc.data(), &prm, skip);
    }
    barrier();
    c.check(!is_err(piol), "a valid parameter write recorded an error");

    // what an independent reader sees
    auto b = ref::slurp(fn);
    size_t dosz = 240 + 4 * ns;
    c.eq(b.size(), 3600 + nt * dosz, "file size");
    if (!c.failed)
        for (size_t t = 0; t < nt && !c.failed; t++) {
            const uint8_t* h = &b[3600 + t * dosz];
            std::array<bool, 240> owned;
            owned.fill(false);
            std::map<int, int> grp;  // scaler position -> required exponent
            for (size_t e = 0; e < R.ent.size(); e++)
                if (R.ent[e].type == ref::FLOAT) {
                    int x = ref::finest_exp(val[t][e]);
                    auto it = grp.find(R.ent[e].scal);
                    if (it == grp.end()) grp[R.ent[e].scal] = x;
                    else it->second = std::max(it->second, x);
                }
            for (size_t e = 0; e < R.ent.size() && !c.failed; e++) {
                auto& f  = R.ent[e];
                double v = val[t][e];
                std::ostringstream s;
                s.precision(17);
                int w = f.type == ref::SHORT ? 2 : 4;
                for (int k = 0; k < w; k++) owned[f.loc - 1 + k] = true;
                if (f.type == ref::LONG) {
                    s << "trace " << t << " " << f.name << ": stored " << ref::get32(h + f.loc - 1) << " want " << v;
                    c.check(double(ref::get32(h + f.loc - 1)) == v, s.str());
                }
                else if (f.type == ref::SHORT) {
                    s << "trace " << t << " " << f.name << ": stored " << ref::get16(h + f.loc - 1) << " want " << v;
                    c.check(double(ref::get16(h + f.loc - 1)) == v, s.str());
                }
                else {
                    owned[f.scal - 1] = owned[f.scal] = true;
                    int x = grp[f.scal];
                    if (x > 4) { c.counters["beyond every scaler (not judged)"]++; continue; }
                    int16_t sc = ref::get16(h + f.scal - 1);
                    int a      = sc < 0 ? -sc : sc;
                    c.check(a == 0 || a == 1 || a == 10 || a == 100 || a == 1000 || a == 10000, std::string("stored scaler ") + std::to_string(sc) + " is not a SEG-Y scaler");
                    double g   = ref::decode_float(h, f.loc, f.scal);
                    double tol = 0.5 * std::pow(10., x) * (1 + 1e-9) + std::fabs(v) * 1e-14;
                    s << "trace " << t << " " << f.name << ": stored as " << ref::get32(h + f.loc - 1) << " with scaler " << sc << " = " << g
                      << ", want " << v << " within " << tol;
                    c.check(std::fabs(g - v) <= tol, s.str());
                }
            }
            for (size_t k = 0; k < 240 && !c.failed; k++)
                if (!owned[k]) {
                    uint8_t want = R.copy ? rawbyte(t, k) : 0;
                    if (h[k] != want) c.fail("trace " + std::to_string(t) + " header byte " + std::to_string(k + 1) + ": got " + std::to_string(h[k]) + " want " + std::to_string(want));
                }
        }
    // what the library reads back, with a rule knowing some of the entries
    if (c.all_ok()) {
        auto r     = open_read(piol, fn, io);
        size_t off = offset_of(part2, me), n = part2[me];
        auto rule  = R2.make();
        EP::Param prm(rule, n + skip2);
        std::vector<float> trc(n * ns);
        Sv ids(n);
        for (size_t k = 0; k < n; k++) ids[k] = off + k;
        EP::ReadInterface* ri = *r;
        if (form2 == 0) ri->readParam(off, n, &prm, skip2);
        else if (form2 == 1) ri->readTrace(off, n, trc.data(), &prm, skip2);
        else if (form2 == 2) ri->readParamNonContiguous(n, ids.data(), &prm, skip2);
        else if (form2 == 3) ri->readTraceNonContiguous(n, ids.data(), trc.data(), &prm, skip2);
        else {
            std::reverse(ids.begin(), ids.end());
            ri->readTraceNonMonotonic(n, ids.data(), trc.data(), &prm, skip2);
        }
        for (size_t k = 0; k < n && !c.failed; k++) {
            size_t t         = ids[k];
            const uint8_t* h = &b[3600 + t * dosz];
            if (R2.copy)
                for (size_t q = 0; q < 240; q++)
                    if (prm.c[(skip2 + k) * 240 + q] != h[q]) {
                        c.fail("raw header copy of trace " + std::to_string(t) + " differs at byte " + std::to_string(q + 1));
                        break;
                    }
            c.eq(getPrm<size_t>(skip2 + k, PIOL_META_ltn, &prm), t, "ltn");
            for (auto& f : R2.ent) {
                auto m = EP::Meta(f.meta);
                std::string nm = "trace " + std::to_string(t) + " read " + f.name;
                if (f.type == ref::LONG) c.eq(int64_t(getPrm<exseis::utils::Integer>(skip2 + k, m, &prm)), int64_t(ref::get32(h + f.loc - 1)), nm);
                else if (f.type == ref::SHORT) c.eq(int(getPrm<int16_t>(skip2 + k, m, &prm)), int(ref::get16(h + f.loc - 1)), nm);
                else {
                    double g = getPrm<exseis::utils::Floating_point>(skip2 + k, m, &prm), w = ref::decode_float(h, f.loc, f.scal);
                    if (!(std::fabs(g - w) <= 1e-12 * std::fabs(w))) c.eq(g, w, nm);
                }
            }
        }
    }
    c.check(!is_err(piol), "a valid parameter read recorded an error");
    drop(fn);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
