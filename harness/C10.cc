// C10: sorting a data set keeps every trace whole.
#include "setgen.hh"
namespace PU = EP::param_utils;

static std::string compare(const sg::Inputs& in, const ref::File& out, const std::vector<sg::Id>& want, const RuleSpec* R)
{
    if (out.tr.size() != want.size()) return "the output has " + std::to_string(out.tr.size()) + " traces, want " + std::to_string(want.size());
    for (size_t k = 0; k < want.size(); k++) {
        auto& a = out.tr[k];
        auto& b = in.files[want[k].f].tr[want[k].t];
        std::string at = "output trace " + std::to_string(k) + " is not input trace " + std::to_string(want[k].f) + ":" + std::to_string(want[k].t);
        if (a.s != b.s) return at + ": samples";
        if (R == nullptr) {
            for (size_t q = 0; q < 240; q++) if (a.h[q] != b.h[q]) return at + ": header byte " + std::to_string(q + 1);
        }
        else {
            for (auto& f : R->ent) {
                bool ok = true;
                if (f.type == ref::LONG) ok = ref::get32(&a.h[f.loc - 1]) == ref::get32(&b.h[f.loc - 1]);
                else if (f.type == ref::SHORT) ok = ref::get16(&a.h[f.loc - 1]) == ref::get16(&b.h[f.loc - 1]);
                else {
                    double x = ref::decode_float(a.h.data(), f.loc, f.scal), y = ref::decode_float(b.h.data(), f.loc, f.scal);
                    int e = -4;
                    for (auto& g : ref::fields()) if (g.type == ref::FLOAT && g.scal == f.scal)
                        e = std::max(e, ref::finest_exp(ref::decode_float(b.h.data(), g.loc, g.scal)));
                    ok = std::fabs(x - y) <= 0.51 * std::pow(10., e);
                }
                if (!ok) return at + ": " + f.name;
            }
        }
    }
    return "";
}

/// The rules a comparison reads, and no others; lines from other bytes and positions by the other scaler if asked for
static std::shared_ptr<EP::Rule> needs(EP::SortType t, bool other)
{
    std::vector<EP::Meta> m = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv};
    if (t == PIOL_SORTTYPE_LineOff || t == PIOL_SORTTYPE_LineROff || t == PIOL_SORTTYPE_OffLine || t == PIOL_SORTTYPE_ROffLine) {
        m.push_back(PIOL_META_il);
        m.push_back(PIOL_META_xl);
    }
    if (t == PIOL_SORTTYPE_SrcROff || t == PIOL_SORTTYPE_RcvROff || t == PIOL_SORTTYPE_LineROff || t == PIOL_SORTTYPE_ROffLine)
        m.push_back(PIOL_META_Offset);
    auto r = std::make_shared<EP::Rule>(m);
    if (other)
        for (auto q : {std::make_pair(PIOL_META_xSrc, 73), {PIOL_META_ySrc, 77}, {PIOL_META_xRcv, 81}, {PIOL_META_yRcv, 85}}) {
            r->rmRule(q.first);
            r->addSEGYFloat(q.first, static_cast<EP::Tr>(q.second), static_cast<EP::Tr>(69));
        }
    if (other && std::find(m.begin(), m.end(), PIOL_META_il) != m.end()) {
        r->rmRule(PIOL_META_il);
        r->rmRule(PIOL_META_xl);
        r->addLong(PIOL_META_il, static_cast<EP::Tr>(9));
        r->addLong(PIOL_META_xl, static_cast<EP::Tr>(21));
    }
    return r;
}
static const int OTHER = 16;

struct Step { int k; size_t a, b; };  // 0 sort, 1 output, 2 extremes, 3 summary, 4 the rest of the files
static void prop(Ctx& c)
{
    std::string d;
    auto in = sg::gen(c, c.chance(1, 10) ? 7 : 3, 2, c.chance(1, 8) ? 80 : 25, int(c.draw(S_NSTYLES)), d);
    for (auto& F : in.files)  // the other scaler: exact in binary too
        for (size_t t = 0; t < F.tr.size(); t++) {
            static const int sc[] = {-4, -2, 1, 2, 8};
            ref::put16(&F.tr[t].h[68], sc[hash({F.tr.size(), t, uint64_t(F.ns)}) % 5]);
        }
    auto type  = c.pick(srt::types());
    bool twice = c.chance(1, 6);
    auto type0 = c.pick(srt::types());
    bool via_dtor = c.chance(1, 3), comp = c.chance(1, 4), other = comp && c.flip();
    int rules = int(c.draw(3));  // 0 default (raw copy), 1 own list of rules, 2 raw copy plus some
    auto mem  = c.chance(1, 3) ? size_t(1) + c.draw(20) : 0;
    // what happened to the set before
    std::vector<Step> hist;
    size_t early = in.files.size();
    if (c.chance(1, 4)) {
        size_t n = 1 + c.draw(5);
        if (c.flip()) early = 1 + c.draw(in.files.size());
        for (size_t i = 0; i < n; i++) {
            Step s{int(c.draw(4)), c.draw(16), c.draw(16)};
            hist.push_back(s);
            if (early < in.files.size() && i == n / 2) hist.push_back({4, 0, 0});
        }
    }
    size_t total = 0;
    for (auto& f : in.files) total += f.tr.size();
    c.desc << "np=" << c.size() << " " << d << " sort=" << srt::name(type) << (twice ? std::string(" after ") + srt::name(type0) : "")
           << (via_dtor ? " destructor" : " output()") << (comp ? " comparison" : "") << (other ? " of other bytes" : "") << " rules=" << rules << " block=" << mem;
    if (!hist.empty()) c.desc << " history, with " << early << " files:";
    static const char* sn[] = {"sort", "output", "extremes", "summary", "add"};
    for (auto& s : hist) c.desc << " " << sn[s.k] << (s.k == 0 ? std::string(srt::name(srt::types()[s.a % 9])) + (s.b % 4 == 3 ? "-other" : s.b % 2 ? "-own" : "") : "");
    auto gs = sg::groups(in);
    c.label(std::to_string(in.files.size()) + " files");
    c.label(std::to_string(gs.size()) + " groups");
    c.label_if(total == 0, "no traces");
    c.label_if(mem != 0, "small blocks");
    c.label_if(twice, "two sorts");
    c.label_if(!hist.empty(), "history");

    auto dir = sg::fresh_dir(c, "set");
    sg::write(c, in, dir);
    RuleSpec R;
    if (rules == 1) {
        // the sort adds the fields it needs
        for (auto& f : ref::fields()) {
            bool key = f.meta == 26 || f.meta == 27 || (f.meta >= 20 && f.meta <= 25) || f.meta == 14 || f.meta == 19 || f.meta == 5;
            if (key || (f.scal != 69 && c.chance(1, 3))) R.ent.push_back(f);
        }
    }
    size_t one = 0;
    for (auto& g : gs) one = std::max(one, 5 * sizeof(size_t) + 240 + 4 * g.ns + 2 * (240 + 4000) + 8 * g.ns);
    EF::verif_memlim = mem ? std::max<size_t>(one * (mem / 4 + 1), one) : 1024ul * 1024 * 1024;

    bool moved = false, tied = false;
    /// The outputs under `prefix` after some sorts of the first `nf` files
    auto verify = [&](const std::string& prefix, const std::vector<std::string>* names, size_t nf, const std::vector<int>& evs) {
        sg::Inputs part = in;
        part.files.resize(nf);
        part.names.resize(nf);
        part.keys.resize(nf);
        auto gs  = sg::groups(part);
        auto all = sg::listing(dir);
        std::vector<std::string> outs;
        for (auto& n : all) if (n.substr(0, prefix.size()) == prefix) outs.push_back(n);
        if (names) {
            auto nn = *names;
            std::sort(nn.begin(), nn.end());
            std::vector<std::string> full;
            for (auto& o : outs) full.push_back(dir + o);
            if (nn != full) {
                std::string s;
                for (auto& n : nn) s += " " + n.substr(n.rfind('/') + 1);
                s += " but there are";
                for (auto& n : outs) s += " " + n;
                c.fail("names returned:" + s);
            }
        }
        c.eq(outs.size(), gs.size(), "output files");
        std::set<int> seen;
        for (size_t o = 0; o < outs.size() && !c.failed; o++) {
            ref::File F;
            if (!ref::parse(ref::slurp(dir + outs[o]), F)) { c.fail(outs[o] + " is not a whole SEG-Y file"); break; }
            int g = sg::group_of(gs, F);
            if (g < 0 || !seen.insert(g).second) { c.fail(outs[o] + " has the samples and interval of no input group, or of one already written"); break; }
            c.check(F.format == 5, "format");
            auto& G = gs[g];
            // ties keep input order: by trace within files; across files either way round, or the order of an earlier sort
            std::vector<std::vector<sg::Id>> base(1);
            auto only = [&](const std::vector<sg::Id>& v, size_t lo, size_t hi) {
                std::vector<sg::Id> o;
                for (auto& id : v) if (size_t(id.f) >= lo && size_t(id.f) < hi) o.push_back(id);
                return o;
            };
            base[0]   = only(G.ids, 0, early);
            size_t hi = early;
            int last  = -1;
            for (int e : evs) {
                if (e < 0) {
                    auto more = only(G.ids, early, part.files.size());
                    for (auto& b : base) b.insert(b.end(), more.begin(), more.end());
                    hi = part.files.size();
                    continue;
                }
                std::vector<std::vector<sg::Id>> from = {only(sg::interleaved(G), 0, hi), only(G.ids, 0, hi)}, nb;
                from.insert(from.end(), base.begin(), base.end());
                last = e;
                for (auto& b : from) {
                    nb.push_back(sg::sorted(part, b, srt::types()[e % OTHER], e >= OTHER));
                    if (std::find(nb.begin(), nb.end() - 1, nb.back()) != nb.end() - 1) nb.pop_back();
                }
                base = nb;
            }
            std::string why;
            bool ok = false;
            for (size_t b = 0; b < base.size() && !ok; b++) {
                auto& want = base[b];
                auto s = compare(part, F, want, rules == 1 ? &R : nullptr);
                ok     = s.empty();
                if (b == 0) {
                    why = s + " (want order " + sg::idstr(want) + ")";
                    for (size_t i = 0; i < want.size(); i++) moved |= want[i].f != G.ids[i].f || want[i].t != G.ids[i].t;
                    std::vector<srt::Rec> rr;
                    for (auto& id : want) rr.push_back(sg::get_keys(part.files[id.f].tr[id.t].h));
                    if (last >= 0) tied |= srt::ties(srt::types()[last % OTHER], rr) > 0;
                }
            }
            c.check(ok, outs[o] + ": " + why);
        }
    };

    std::vector<std::string> names;
    std::vector<int> evs, pending;  // carried out so far (-1: files added) and asked for
    auto flush = [&] { evs.insert(evs.end(), pending.begin(), pending.end()); pending.clear(); };
    auto number = [](EP::SortType t) {
        int i = 0;
        while (srt::types()[i] != t) i++;
        return i;
    };
    size_t nf = early;
    struct Mid { std::string prefix; std::vector<std::string> names; size_t nf; std::vector<int> evs; };
    std::vector<Mid> mids;
    bool err;
    {
        auto piol = new_piol();
        std::unique_ptr<EF::Set> set;
        std::string out = dir + "out_", fin = via_dtor ? out : std::string();
        auto r = rules == 1 ? R.make() : std::make_shared<EP::Rule>(std::vector<EP::Meta>{PIOL_META_COPY});
        if (early < in.files.size()) {
            via_dtor = false;
            if (rules == 0) set = std::make_unique<EF::Set>(piol);
            else set = std::make_unique<EF::Set>(piol, r);
            for (size_t f = 0; f < early; f++) set->add(dir + in.names[f]);
        }
        else if (rules == 0) set = std::make_unique<EF::Set>(piol, in.pattern, fin);
        else set = std::make_unique<EF::Set>(piol, in.pattern, fin, r);
        for (size_t i = 0; i < hist.size(); i++) {
            auto& s = hist[i];
            if (s.k == 0) {
                pending.push_back(int(s.a % 9) + (s.b % 4 == 3 ? OTHER : 0));
                if (s.b % 2) set->sort(needs(srt::types()[s.a % 9], s.b % 4 == 3), EP::getComp(srt::types()[s.a % 9]));
                else set->sort(srt::types()[s.a % 9]);
            }
            else if (s.k == 1) {
                flush();
                Mid m{"mid" + std::to_string(i) + "_", {}, nf, evs};
                m.names = set->output(dir + m.prefix);
                mids.push_back(m);
                via_dtor = false;  // the set has written its output
            }
            else if (s.k == 2) {
                static const std::vector<int> ms = {20, 21, 22, 23, 26, 27};
                int m[2] = {ms[s.a % 6], ms[s.b % 6]};
                std::vector<EP::CoordElem> e(4);
                set->getMinMax(EP::Meta(m[0]), EP::Meta(m[1]), e.data());
                for (int q = 0; q < 2; q++) {
                    double lo = HUGE_VAL, hi = -HUGE_VAL;
                    auto& f   = ref::field(m[q]);
                    for (size_t k = 0; k < nf; k++)
                        for (auto& t : in.files[k].tr) {
                            double v = f.type == ref::FLOAT ? ref::decode_float(t.h.data(), f.loc, f.scal) : double(ref::get32(&t.h[f.loc - 1]));
                            lo = std::min(lo, v);
                            hi = std::max(hi, v);
                        }
                    if (lo > hi) continue;
                    if (std::fabs(e[2 * q].val - lo) > 1e-9 * std::fabs(lo) || std::fabs(e[2 * q + 1].val - hi) > 1e-9 * std::fabs(hi))
                        c.fail("step " + std::to_string(i) + ": extremes " + std::to_string(e[2 * q].val) + ".." + std::to_string(e[2 * q + 1].val) + " want " + std::to_string(lo) + ".." + std::to_string(hi));
                }
            }
            else if (s.k == 3) {
                std::ostringstream o;
                auto* b = std::cout.rdbuf(o.rdbuf());
                set->summary();
                std::cout.rdbuf(b);
            }
            else {
                for (size_t f = early; f < in.files.size(); f++) set->add(dir + in.names[f]);
                nf = in.files.size();
                evs.push_back(-1);
            }
        }
        if (twice) { set->sort(type0); pending.push_back(number(type0)); }
        if (comp) {
            // a comparison of one's own with the rules it needs
            set->sort(needs(type, other), EP::getComp(type));
        }
        else set->sort(type);
        pending.push_back(number(type) + (other ? OTHER : 0));
        flush();
        if (!via_dtor) names = set->output(out);
        set.reset();
        err = is_err(piol);
    }
    EF::verif_memlim = 1024ul * 1024 * 1024;
    barrier();
    c.check(!err, "an error was recorded");
    for (auto& m : mids) verify(m.prefix, &m.names, m.nf, m.evs);
    c.label_if(!mids.empty(), "written more than once");
    moved = tied = false;
    verify("out_", via_dtor ? nullptr : &names, nf, evs);
    c.label_if(moved, "order changes");
    c.label_if(tied, "ties");
    c.nontrivial(moved && total > 3);
    barrier();
    if (c.rank() == 0) sg::rmtree(dir);
    barrier();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
