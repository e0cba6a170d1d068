// C11: pipelines of a data set apply each operation once to every trace.
#include "setgen.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
namespace EU = exseis::utils;
namespace PU = EP::param_utils;

// Gain functions that do not commute, and tell by their product how often and in which order they ran.
static float g_mul(const float*, size_t, float t, size_t) { return t; }
static float g_up(const float* s, size_t, float t, size_t c) { return std::fabs(s[c]) > t ? 0.25f : 8.f; }
static float g_sgn(const float* s, size_t, float, size_t c) { return s[c] < 0 ? -2.f : 0.5f; }
static float g_edge(const float* s, size_t n, float t, size_t c) { return c > 0 && std::fabs(s[c - 1]) > std::fabs(s[c]) ? t : float(n); }

struct Op {
    enum Kind { TAPER, AGC, FILTER, SORT } kind;
    std::function<void(EF::Set&)> add;
    std::function<void(std::vector<float>&)> ref;
    EP::SortType type;
    std::string d;
};

static Op gen_op(Ctx& c, size_t minns, size_t sorts)
{
    Op o;
    int k = int(c.draw(sorts ? 12 : 14));
    if (k < 3) {
        o.kind  = Op::TAPER;
        static EU::Taper_function T[3] = {EU::linear_taper, EU::cosine_taper, EU::cosine_square_taper};
        static const char* N[3]        = {"linear", "cos", "cos2"};
        int f    = int(c.draw(3));
        size_t l = c.draw(minns + 1), r = c.draw(minns + 1);
        o.d   = std::string("taper ") + N[f] + " " + std::to_string(l) + "," + std::to_string(r);
        o.add = [=](EF::Set& s) { s.taper(T[f], l, r); };
        o.ref = [=](std::vector<float>& v) { EU::taper(v.size(), v.data(), T[f], l, r); };
    }
    else if (k < 6) {
        o.kind = Op::AGC;
        static EU::Gain_function G[4] = {EU::rectangular_RMS_gain, EU::triangular_RMS_gain, EU::mean_abs_gain, EU::median_gain};
        int f    = int(c.draw(4));
        size_t w = 1 + c.draw(minns - 2);
        if (w + (w % 2 == 0) >= minns) w = 1;
        float t = c.pick(std::vector<float>{1.f, 0.5f, 100.f});
        o.d   = "AGC " + std::to_string(f) + " window " + std::to_string(w) + " target " + std::to_string(t);
        o.add = [=](EF::Set& s) { s.AGC(G[f], w, t); };
        o.ref = [=](std::vector<float>& v) { EU::AGC(v.size(), v.data(), G[f], w, t); };
    }
    else if (k < 11) {
        o.kind = Op::AGC;
        static EU::Gain_function G[4] = {g_mul, g_up, g_sgn, g_edge};
        static const char* N[4]       = {"times", "threshold", "sign", "edge"};
        int f    = int(c.draw(4));
        size_t w = f == 3 && minns > 4 ? 3 : 1;
        float t  = c.pick(std::vector<float>{2.f, 1.f, 4.f, 0.125f});
        o.d   = std::string("gain ") + N[f] + " " + std::to_string(t);
        o.add = [=](EF::Set& s) { s.AGC(G[f], w, t); };
        o.ref = [=](std::vector<float>& v) { EU::AGC(v.size(), v.data(), G[f], w, t); };
    }
    else if (k < 12) {
        o.kind = Op::FILTER;
        auto type = c.pick(std::vector<EP::FltrType>{EP::FltrType::Lowpass, EP::FltrType::Highpass, EP::FltrType::Bandpass, EP::FltrType::Bandstop});
        bool two  = type == EP::FltrType::Bandpass || type == EP::FltrType::Bandstop;
        auto dom  = c.flip() ? EP::FltrDmn::Time : EP::FltrDmn::Freq;
        auto pad  = c.flip() ? EP::PadType::Symmetric : EP::PadType::Zero;
        size_t N  = 1 + c.draw(3);
        float fs  = 100, f1 = float(10 + c.draw(20)), f2 = f1 + 5 + float(c.draw(10));
        size_t nw = c.flip() ? 0 : 1 + c.draw(minns), cntr = nw ? c.draw(minns) : 0;
        std::vector<float> co = {f1, two ? f2 : 0.f};
        o.d   = "filter type " + std::to_string(int(type)) + " N=" + std::to_string(N) + " " + std::to_string(f1) + "," + std::to_string(f2)
              + (dom == EP::FltrDmn::Time ? " time" : " frequency") + " window " + std::to_string(nw) + "@" + std::to_string(cntr);
        o.add = [=](EF::Set& s) { s.temporalFilter(type, dom, pad, fs, N, co, nw, cntr); };
        o.ref = [=](std::vector<float>& v) { EP::temporalFilter(1, v.size(), v.data(), fs, type, dom, pad, nw, cntr, co, N); };
    }
    else {
        o.kind = Op::SORT;
        o.type = c.pick(srt::types());
        o.d    = std::string("sort ") + srt::name(o.type);
        o.add  = [=](EF::Set& s) { s.sort(o.type); };
    }
    return o;
}

static float uf(uint32_t u) { return ref::u2f(u); }

static void prop(Ctx& c)
{
    std::string d;
    auto in = sg::gen(c, c.chance(1, 10) ? 8 : 4, 3, c.chance(1, 8) ? 60 : 16, S_NORMAL, d, 3 + c.draw(3));
    bool none = c.chance(1, 30);  // a set of no files has nothing to write
    if (none) { in.files.clear(); in.names.clear(); in.keys.clear(); }
    size_t minns = none ? 4 : size_t(-1), total = 0;
    for (auto& f : in.files) minns = std::min(minns, f.ns), total += f.tr.size();
    // tame the samples: multiples of 1/8, some muted starts, some dead traces
    uint64_t seed = c.draw(1u << 20);
    sg::set_samples(in, [&](size_t f, size_t t, std::vector<uint32_t>& s) {
        size_t mute = hash({seed, f, t}) % 5 == 0 ? hash({seed, f, t, 1}) % (s.size() + 1) : 0;
        for (size_t j = 0; j < s.size(); j++) {
            int v = int(hash({seed, f, t, j, 2}) % 4001) - 2000;
            s[j]  = ref::f2u(j < mute ? 0.f : float(v ? v : 1) / 8.f);
        }
    });
    size_t nops = c.size_in(0, 5), sorts = 0, filt = 0;
    std::vector<Op> ops;
    for (size_t i = 0; i < nops; i++) {
        auto o = gen_op(c, minns, sorts > 1);
        // a filter's rounding must not be blown up by later gains
        if (filt && o.kind == Op::AGC) continue;
        sorts += o.kind == Op::SORT;
        filt += o.kind == Op::FILTER;
        ops.push_back(o);
    }
    // then more operations and a second output: of the input again, not of the first output
    bool again = c.chance(1, 4);
    std::vector<Op> ops2;
    if (again) {
        size_t n2 = c.size_in(0, 3), s2 = 0, f2 = 0;
        for (size_t i = 0; i < n2; i++) {
            auto o = gen_op(c, minns, s2 > 1);
            if ((filt || f2) && o.kind == Op::AGC) continue;
            s2 += o.kind == Op::SORT;
            f2 += o.kind == Op::FILTER;
            ops2.push_back(o);
        }
    }
    size_t sorts2 = 0;
    for (auto& o : ops2) sorts2 += o.kind == Op::SORT;
    int rules = int(c.draw(3));
    bool staged = false;  // a sort reads keys which went through an intermediate file
    for (size_t i = 0; i + 1 < ops.size(); i++) staged |= ops[i].kind != Op::SORT && ops[i + 1].kind == Op::SORT;
    for (size_t i = 0; i + 1 < ops2.size(); i++) staged |= ops2[i].kind != Op::SORT && ops2[i + 1].kind == Op::SORT;
    if (rules == 1 && staged) {
        // under rules of one's own those keys have the precision of a header: use ones that fit it
        for (auto& F : in.files)
            for (auto& t : F.tr) {
                ref::put32(&t.h[180], 0);
                ref::put32(&t.h[184], 0);
                int e = -4;
                for (auto& f : ref::fields()) if (f.scal == 71) e = std::max(e, ref::finest_exp(ref::decode_float(t.h.data(), f.loc, f.scal)));
                for (auto& f : ref::fields()) {
                    if (f.scal != 71) continue;
                    double v = ref::decode_float(t.h.data(), f.loc, f.scal) / std::pow(10., e);
                    if (std::fabs(v - std::round(v)) > 1e-6) rules = 2;
                }
            }
    }
    auto gs = sg::groups(in);
    int how = int(c.draw(4));  // pattern; rules then add(pattern); file by file; readers
    if (none) how |= 2;
    bool decoys = c.chance(1, 3), via_dtor = how == 0 && !again && c.chance(1, 4);
    size_t mem  = c.chance(1, 2) ? 1 + c.draw(24) : 0;
    int ntext   = int(c.draw(3));
    std::vector<std::string> texts;
    for (int i = 0; i < ntext; i++) {
        std::string t = "C 1 text " + std::to_string(i) + " ";
        size_t n = c.pick(std::vector<size_t>{0, 1, 60, 3000, 3180});
        for (size_t j = 0; j < n; j++) t += char('a' + hash({seed, j, uint64_t(i)}) % 26);
        texts.push_back(t);
    }
    // files given after some of the operations; extremes asked for in between
    size_t first = how >= 2 && c.chance(1, 3) ? c.draw(in.names.size() + 1) : in.names.size(), after = c.draw(nops + 1);
    size_t peek  = c.chance(1, 4) ? 1 + c.draw(31) : 0, pm = c.draw(36);
    bool early = c.flip(), summ = c.chance(1, 6);
    c.desc << "np=" << c.size() << " " << d << " ops:";
    for (auto& o : ops) c.desc << " [" << o.d << "]";
    if (again) c.desc << " output, then:";
    for (auto& o : ops2) c.desc << " [" << o.d << "]";
    c.desc << " built=" << how << (decoys ? " decoys" : "") << (via_dtor ? " destructor" : "") << " rules=" << rules << " block=" << mem
           << (first < in.names.size() ? " files after operation " + std::to_string(after) : "") << (peek ? " extremes in between" : "") << " texts=" << ntext << (early ? " early" : " late") << (summ ? " summary" : "");
    c.label(std::to_string(ops.size()) + " operations");
    c.label(std::to_string(gs.size()) + " groups");
    c.label_if(sorts, "sorts");
    c.label_if(none, "no files");
    c.label_if(again, "written twice");
    c.label_if(filt, "filters");
    c.label_if(mem, "small blocks");
    c.label_if(via_dtor, "destructor");
    c.label("built " + std::to_string(how));

    auto dir = sg::fresh_dir(c, "set");
    sg::write(c, in, dir, decoys);
    std::vector<ref::Bytes> before;
    for (auto& n : in.names) before.push_back(ref::slurp(dir + n));
    sg::memlimit(gs, mem);
    RuleSpec R;
    if (rules == 1)
        for (auto& f : ref::fields()) {
            bool key = f.meta == 26 || f.meta == 27 || (f.meta >= 20 && f.meta <= 25) || f.meta == 14 || f.meta == 19 || f.meta == 5;
            if ((sorts + sorts2 && key) || (f.scal != 69 && c.chance(1, 3))) R.ent.push_back(f);
        }
    std::vector<std::string> names, names2;
    bool err;
    {
        auto piol = new_piol();
        std::unique_ptr<EF::Set> set;
        std::string out = dir + "out_";
        std::shared_ptr<EP::Rule> r = rules == 1 ? R.make() : std::make_shared<EP::Rule>(std::vector<EP::Meta>{PIOL_META_COPY});
        if (how == 0) {
            if (rules == 0) set = std::make_unique<EF::Set>(piol, in.pattern, via_dtor ? out : std::string());
            else set = std::make_unique<EF::Set>(piol, in.pattern, via_dtor ? out : std::string(), r);
        }
        else {
            set = rules == 0 ? std::make_unique<EF::Set>(piol) : std::make_unique<EF::Set>(piol, r);
            if (early && how == 3 && ntext) set->text(texts[0]);
            if (how == 1) set->add(in.pattern);
        }
        auto give = [&](size_t lo, size_t hi) {
            for (size_t i = lo; i < hi && how >= 2; i++) {
                if (how == 2) set->add(dir + in.names[i]);
                else set->add(EP::makeFile<EP::ReadSEGY>(piol, dir + in.names[i]));
            }
        };
        give(0, first);
        if (early && ntext) set->text(texts[0]);
        if (summ) { set->summary(); }
        for (size_t i = 0; i < ops.size(); i++) {
            if (i == after) give(first, in.names.size());
            if (peek >> i & 1) {
                static const std::vector<int> ms = {20, 21, 22, 23, 26, 27};
                EP::CoordElem e[4];
                set->getMinMax(EP::Meta(ms[pm / 6]), EP::Meta(ms[pm % 6]), e);
            }
            ops[i].add(*set);
            if (ntext == 2 && i == ops.size() / 2) set->text(texts[1 - early]);
        }
        if (after >= ops.size()) give(first, in.names.size());
        if (ntext) set->text(texts.back());
        if (!via_dtor) names = set->output(out);
        if (again) {
            for (auto& o : ops2) o.add(*set);
            names2 = set->output(dir + "two_");
        }
        set.reset();
        err = is_err(piol);
    }
    EF::verif_memlim = 1024ul * 1024 * 1024;
    barrier();
    c.check(!err, "an error was recorded");
    for (size_t f = 0; f < in.names.size(); f++) c.check(ref::slurp(dir + in.names[f]) == before[f], "input " + in.names[f] + " was changed");
    std::string wtext = ntext ? texts.back() : how == 3 ? std::string() : std::string("ExSeisPIOL: Set layer output\n");
    bool changed = false;
    /// The output under `prefix`, of `ops` after an output of `before2`
    auto verify = [&](const std::string& prefix, const std::vector<std::string>& names, const std::vector<Op>& ops, const std::vector<Op>& before2) {
        size_t any = 0, nfilt = 0;
        for (auto& o : ops) any += o.kind == Op::SORT, nfilt += o.kind == Op::FILTER;
        for (auto& o : before2) any += o.kind == Op::SORT, nfilt += o.kind == Op::FILTER;
        auto all = sg::listing(dir);
        std::vector<std::string> full;
        for (auto& n : all) if (n.substr(0, prefix.size()) == prefix) full.push_back(dir + n);
        if (!via_dtor) {
            auto nn = names;
            std::sort(nn.begin(), nn.end());
            std::string s;
            for (auto& n : nn) s += " " + n.substr(n.rfind('/') + 1);
            c.check(nn == full, "names returned:" + s + " but " + std::to_string(full.size()) + " files written");
            // every process is told the same
            uint64_t h = 1469598103934665603ull;
            for (auto& n : names) for (char ch : n + "|") h = (h ^ uint8_t(ch)) * 1099511628211ull;
            uint64_t lo, hi;
            MPI_Allreduce(&h, &lo, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
            MPI_Allreduce(&h, &hi, 1, MPI_UINT64_T, MPI_MAX, MPI_COMM_WORLD);
            c.check(lo == hi, "the processes were given different names");
        }
        auto outs = sg::outputs(c, dir, gs, prefix);
        // what every trace should have become
        // (a sort of what operations made is carried out on a file of theirs, which the set may go on with)
        size_t kept = 0;
        for (size_t i = 1; i < before2.size(); i++) if (before2[i].kind == Op::SORT) kept = i;
        std::vector<std::vector<std::vector<std::vector<float>>>> wants;
        for (size_t n : kept ? std::vector<size_t>{0, kept} : std::vector<size_t>{0}) {
            std::vector<std::vector<std::vector<float>>> want(in.files.size());
            for (size_t f = 0; f < in.files.size(); f++)
                for (auto& t : in.files[f].tr) {
                    std::vector<float> v;
                    for (auto u : t.s) v.push_back(uf(u));
                    for (size_t i = 0; i < n; i++) if (before2[i].ref) before2[i].ref(v);
                    for (auto& o : ops) if (o.ref) o.ref(v);
                    want[f].push_back(v);
                }
            wants.push_back(want);
        }
        for (auto& kv : outs) {
            if (c.failed) break;
            auto& G = gs[kv.first];
            auto& F = kv.second.second;
            const std::string& on = kv.second.first;
            {
                std::string tx(F.text.begin(), F.text.end());
                std::string got = tx.substr(0, wtext.size());
                bool rest = true;
                for (size_t i = wtext.size(); i < tx.size(); i++) rest &= tx[i] == 0 || tx[i] == ' ';
                bool alt = how == 3 && ntext == 0 && got == wtext && tx.substr(0, 30).find("ExSeisPIOL: Set layer output") == 0;
                c.check(alt || (got == wtext && rest), on + ": text is \"" + got.substr(0, 40) + "\", want \"" + wtext.substr(0, 40) + "\"");
            }
            // orders allowed
            std::vector<std::vector<sg::Id>> base = {G.ids};
            if (any && !G.ids.empty()) base.push_back(sg::interleaved(G));
            // a sort may start from the order left by any before it or, for ties, from either input order:
            // which it is depends on where the set had to write a file in between
            auto starts = base;
            auto enter  = [](std::vector<std::vector<sg::Id>>& v, const std::vector<sg::Id>& o) {
                if (std::find(v.begin(), v.end(), o) == v.end()) v.push_back(o);
            };
            for (auto& o : before2)
                if (o.kind == Op::SORT) {
                    std::vector<std::vector<sg::Id>> nb;
                    for (auto& b : starts) enter(nb, sg::sorted(in, b, o.type));
                    for (auto& b : nb) enter(starts, b);
                }
            base = starts;
            for (auto& o : ops)
                if (o.kind == Op::SORT) {
                    std::vector<std::vector<sg::Id>> nb;
                    for (auto& b : starts) enter(nb, sg::sorted(in, b, o.type));
                    for (auto& b : nb) enter(starts, b);
                    base = nb;
                }
            std::string why;
            bool ok = false;
            for (size_t b = 0; b < base.size() * wants.size() && !ok; b++) {
                std::string s;
                auto& w    = base[b % base.size()];
                auto& want = wants[b / base.size()];
                if (F.tr.size() != w.size()) s = std::to_string(F.tr.size()) + " traces, want " + std::to_string(w.size());
                for (size_t k = 0; s.empty() && k < w.size(); k++) {
                    auto& a  = F.tr[k];
                    auto& I  = in.files[w[k].f].tr[w[k].t];
                    auto& wv = want[w[k].f][w[k].t];
                    std::string at = "output trace " + std::to_string(k) + " against input " + std::to_string(w[k].f) + ":" + std::to_string(w[k].t);
                    float mx = 0;
                    for (float x : wv) if (std::isfinite(x)) mx = std::max(mx, std::fabs(x));
                    for (size_t j = 0; s.empty() && j < wv.size(); j++) {
                        float g = uf(a.s[j]);
                        bool same = ref::f2u(g) == ref::f2u(wv[j]) || (std::isnan(g) && std::isnan(wv[j]));
                        if (!same && nfilt) same = !std::isfinite(wv[j]) || std::fabs(g - wv[j]) <= 2e-3f * (mx + 1e-3f);
                        if (!same) s = at + " sample " + std::to_string(j) + ": " + std::to_string(g) + " want " + std::to_string(wv[j]) + " from " + std::to_string(uf(I.s[j]));
                        changed |= ref::f2u(wv[j]) != I.s[j];
                    }
                    if (rules != 1) { for (size_t q = 0; s.empty() && q < 240; q++) if (a.h[q] != I.h[q]) s = at + ": header byte " + std::to_string(q + 1); }
                    else
                        for (auto& f : R.ent) {
                            bool h = true;
                            if (f.type == ref::LONG) h = ref::get32(&a.h[f.loc - 1]) == ref::get32(&I.h[f.loc - 1]);
                            else if (f.type == ref::SHORT) h = ref::get16(&a.h[f.loc - 1]) == ref::get16(&I.h[f.loc - 1]);
                            else {
                                double x = ref::decode_float(a.h.data(), f.loc, f.scal), y = ref::decode_float(I.h.data(), f.loc, f.scal);
                                int e = -4;
                                for (auto& g : ref::fields()) if (g.type == ref::FLOAT && g.scal == f.scal)
                                    e = std::max(e, ref::finest_exp(ref::decode_float(I.h.data(), g.loc, g.scal)));
                                h = std::fabs(x - y) <= 1.1 * double(1 + any + ops.size() + before2.size()) * std::pow(10., e);
                            }
                            if (s.empty() && !h) s = at + ": " + f.name;
                        }
                }
                ok = s.empty();
                if (b == 0) why = s;
            }
            c.check(ok, on + ": " + why);
        }
    };
    verify("out_", names, ops, {});
    if (again) verify("two_", names2, ops2, ops);
    c.label_if(changed, "samples change");
    if (none) {
        size_t n = 0;
        for (auto& x : sg::listing(dir)) n += x.compare(0, 4, "out_") == 0 || x.compare(0, 4, "two_") == 0;
        c.check(n == 0 && names.empty() && names2.empty(), "something is written of nothing: " + std::to_string(n) + " files, " + std::to_string(names.size()) + " names");
    }
    c.nontrivial(total > 1 && ops.size() > 0 && (changed || sorts));
    barrier();
    if (c.rank() == 0) sg::rmtree(dir);
    barrier();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
