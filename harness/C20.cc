// C20: the C interface does what the C++ interface does.
#include "setgen.hh"
#include "ExSeisDat/Flow.h"
#include "ExSeisDat/PIOL.h"

extern "C" {
int c20_program(const char* one, const char* two, const char* text, size_t nt, size_t ns, double inc, double x0);
exseis::utils::exseis_Taper_function c20_taper(int);
exseis::utils::exseis_Gain_function c20_gain(int);
bool c20_less(const PIOL_File_Param*, size_t, size_t);
extern void (*c20_all[])(void);
}
static std::string same_files(const std::string& a, const std::string& b)
{
    auto x = ref::slurp(a), y = ref::slurp(b);
    if (x == y) return "";
    return "the files differ: " + hexdiff(x, y);
}
struct CoutQuiet {
    std::ostringstream s;
    std::streambuf* o;
    CoutQuiet() : o(std::cout.rdbuf(s.rdbuf())) {}
    ~CoutQuiet() { std::cout.rdbuf(o); }
};

// ------------------------------------------------------------ a program in C
static void program(Ctx& c)
{
    size_t nt = c.size_in(0, 60), ns = c.size_in(1, 40);
    int us = int(1 + c.draw(32767));
    double x0 = double(c.draw(100000)) - 50000.;
    std::string text;
    size_t tl = c.size_in(0, 3200);
    uint64_t seed = c.draw(1u << 20);
    for (size_t i = 0; i < tl; i++) text += i == 0 ? '7' : char('a' + hash({seed, i}) % 26);
    c.desc << "C program nt=" << nt << " ns=" << ns << " interval=" << us << " x0=" << x0 << " text=" << tl;
    c.label("C program");
    c.nontrivial(nt > 1);
    std::string a = c.path("a.segy"), b = c.path("b.segy");
    drop(a); drop(b);
    int e = c20_program(a.c_str(), b.c_str(), text.c_str(), nt, ns, us * 1e-6, x0);
    if (e) c.fail("step " + std::to_string(e) + " of the C program");
    barrier();
    if (c.rank() == 0) {
        ref::File F, G;
        F.text = text; F.text.resize(3200, '\0');
        F.ns = ns; F.inc_us = us;
        F.tr.resize(nt);
        for (size_t t = 0; t < nt; t++) {
            auto& h = F.tr[t].h;
            auto put = [&](int loc, int64_t v) { ref::put32(&h[loc - 1], uint32_t(int32_t(v))); };
            put(73, int64_t(x0) + int64_t(t));
            put(189, int64_t(t) * 3);
            ref::put16(&h[70], 1);
            for (size_t j = 0; j < ns; j++) F.tr[t].s.push_back(ref::f2u(float(t * ns + j) + 0.5f));
        }
        G = F;
        G.text.assign(3200, '\0');
        std::reverse(G.tr.begin(), G.tr.end());
        auto x = ref::slurp(a), y = ref::slurp(b);
        if (x != F.encode()) c.fail("the first file: " + hexdiff(x, F.encode()));
        if (y != G.encode()) c.fail("the second file: " + hexdiff(y, G.encode()));
    }
    drop(a); drop(b);
}

// ------------------------------------------------------------ histories of handles
struct RuleP { PIOL_File_Rule* c; std::shared_ptr<EP::Rule> x; };
struct PrmP { PIOL_File_Param* c; std::unique_ptr<EP::Param> x; size_t n; };
typedef std::vector<std::pair<int, int>> Entries;  // meta, type
static Entries entries(const EP::Rule& r)
{
    Entries e;
    for (auto& t : r.translate)
        if (t.second->type() == EP::RuleEntry::MdType::Long) e.push_back({int(t.first), 0});
        else if (t.second->type() == EP::RuleEntry::MdType::Short) e.push_back({int(t.first), 1});
        else if (t.second->type() == EP::RuleEntry::MdType::Float) e.push_back({int(t.first), 2});
        else if (t.second->type() == EP::RuleEntry::MdType::Index) e.push_back({int(t.first), 3});
    std::sort(e.begin(), e.end());
    return e;
}
static void same_prm(Ctx& c, const PrmP& p, const std::string& w)
{
    c.eq(PIOL_File_Param_size(p.c), p.x->size(), w + ": size of the parameters");
    c.eq(PIOL_File_Param_memUsage(p.c), p.x->memUsage(), w + ": memory of the parameters");
    auto same = [&](auto& a, auto& b, const char* k) { if (a.size() != b.size() || (a.size() && memcmp(a.data(), b.data(), a.size() * sizeof(a[0])))) c.fail(w + ": " + k + " parameters differ"); };
    same(p.c->f, p.x->f, "float");
    same(p.c->i, p.x->i, "integer");
    same(p.c->s, p.x->s, "short");
    same(p.c->t, p.x->t, "index");
    same(p.c->c, p.x->c, "raw");
    // read by the functions too
    for (auto& e : entries(*p.x->r))
        for (size_t k = 0; k < p.x->size() && k < 5; k++) {
            auto m = EP::Meta(e.first);
            if (e.second == 2) {
                double a = PIOL_File_getPrm_double(k, m, p.c), b = EP::param_utils::getPrm<double>(k, m, p.x.get());
                if (memcmp(&a, &b, 8)) c.fail(w + ": getPrm double");
            }
            else if (e.second == 1) c.eq(PIOL_File_getPrm_short(k, m, p.c), EP::param_utils::getPrm<int16_t>(k, m, p.x.get()), w + ": getPrm short");
            else c.eq(PIOL_File_getPrm_Integer(k, m, p.c), EP::param_utils::getPrm<int64_t>(k, m, p.x.get()), w + ": getPrm integer");
        }
}
static void history(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    uint64_t seed = c.draw(1u << 20);
    size_t nops = 4 + c.size_in(0, 26);
    PIOL_ExSeis* cp = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
    auto xp = new_piol();
    std::vector<RuleP> rules;
    std::vector<PrmP> prms;
    struct FileP { std::string c, x; size_t ns, nt; };
    std::vector<FileP> files;
    struct RdP { PIOL_File_ReadDirect* c; std::unique_ptr<EP::ReadDirect> x; size_t ns, nt; };
    std::vector<RdP> rds;
    size_t nfiles = 0, kinds = 0;
    uint32_t seen = 0;
    c.label("history");
    auto fill = [&](PrmP& p, uint64_t s) {
        auto en = entries(*p.x->r);
        for (size_t k = 0; k < p.n; k++)
            for (auto& e : en) {
                uint64_t h = hash({seed, s, k, uint64_t(e.first), uint64_t(me)});
                auto m = EP::Meta(e.first);
                if (e.second == 2) {
                    double v = double(int64_t(h % 2000001) - 1000000) / (h & 1 ? 1 : 4);
                    PIOL_File_setPrm_double(k, m, v, p.c); EP::param_utils::setPrm(k, m, v, p.x.get());
                }
                else if (e.second == 1) { int16_t v = int16_t(h); PIOL_File_setPrm_short(k, m, v, p.c); EP::param_utils::setPrm(k, m, v, p.x.get()); }
                else { int64_t v = e.second == 3 ? int64_t(h >> 33) : int64_t(int32_t(h)); PIOL_File_setPrm_Integer(k, m, v, p.c); EP::param_utils::setPrm(k, m, v, p.x.get()); }
            }
        if (p.x->r->numCopy)
            for (size_t b = 0; b < p.n * 240; b++) p.c->c[b] = p.x->c[b] = uint8_t(hash({seed, s, b, uint64_t(me), 3}));
    };
    auto make_prm = [&](const RuleP* r, size_t n) {
        PrmP p;
        p.n = n;
        p.c = PIOL_File_Param_new(r ? r->c : nullptr, n);
        p.x = r ? std::make_unique<EP::Param>(r->x, n) : std::make_unique<EP::Param>(n);
        return p;
    };
    auto same_rule = [&](RuleP& r, const std::string& w) {
        c.eq(PIOL_File_Rule_extent(r.c), r.x->extent(), w + ": extent");
        c.eq(PIOL_File_Rule_memUsage(r.c), r.x->memUsage(), w + ": memory");
        c.eq(PIOL_File_Rule_paramMem(r.c), r.x->paramMem(), w + ": parameter memory");
        auto& k = **r.c;
        if (entries(k) != entries(*r.x)) c.fail(w + ": the rules have different entries");
        for (auto& t : r.x->translate) {
            auto it = k.translate.find(t.first);
            if (it == k.translate.end()) continue;
            if (it->second->loc != t.second->loc || it->second->num != t.second->num) c.fail(w + ": an entry is at a different place");
            if (t.second->type() == EP::RuleEntry::MdType::Float
                && dynamic_cast<EP::SEGYFloatRuleEntry*>(it->second)->scalLoc != dynamic_cast<EP::SEGYFloatRuleEntry*>(t.second)->scalLoc) c.fail(w + ": an entry has a different scaler");
        }
        c.eq(k.numCopy, r.x->numCopy, w + ": raw copies");
    };
    c.desc << "history np=" << np;
    // entries of a rule at positions which do not overlap: 4 bytes for each number
    auto place = [&](int m) { return EP::Tr(1 + 6 * (m % 34)); };
    for (size_t o = 0; o < nops && !c.failed; o++) {
        int what = int(c.draw(14));
        // something to work on is needed first
        if (rules.empty() && what > 1 && what < 6) what = 0;
        if ((what == 7 || what == 6) && prms.empty()) what = 5;
        if (what == 10 && files.empty()) what = 9;
        if ((what == 11) && rds.empty()) what = files.empty() ? 9 : 10;
        seen |= 1u << what;
        switch (what) {
            case 0: {
                bool def = c.flip();
                c.desc << " rule(" << def << ")";
                rules.push_back({PIOL_File_Rule_new(def), std::make_shared<EP::Rule>(true, def)});
                same_rule(rules.back(), "new rule");
            } break;
            case 1: {
                std::vector<EP::Meta> m;
                for (auto& f : ref::fields()) if (c.chance(1, 4)) m.push_back(EP::Meta(f.meta));
                c.desc << " rule-from-list(" << m.size() << ")";
                EP::Meta dummy = 0;
                rules.push_back({PIOL_File_Rule_new_from_list(m.empty() ? &dummy : m.data(), m.size()), std::make_shared<EP::Rule>(m, true, false, false)});
                same_rule(rules.back(), "rule from a list");
            } break;
            case 2: case 3: {
                auto& r = rules[c.draw(rules.size())];
                // parameters made from the rule share it in both interfaces, so it may not change under them
                bool used = (*r.c).use_count() > 1 || r.x.use_count() > 1;
                if (used) { c.desc << " -"; break; }
                int k = int(c.draw(8));
                int meta = int(c.pick(std::vector<int>{3, 5, 9, 12, 14, 20, 21, 22, 26, 27, 30, 31, 32, 33, 34}));
                auto m = EP::Meta(meta);
                auto has = [&]() { return r.x->translate.count(m) != 0; };
                c.desc << " edit" << k << "(" << meta << ")";
                switch (k) {
                    case 0: PIOL_File_Rule_addLong(r.c, m, place(meta)); r.x->addLong(m, place(meta)); break;
                    case 1: PIOL_File_Rule_addShort(r.c, m, place(meta)); r.x->addShort(m, place(meta)); break;
                    case 2: PIOL_File_Rule_addSEGYFloat(r.c, m, place(meta), EP::Tr(place(meta) + 4)); r.x->addSEGYFloat(m, place(meta), EP::Tr(place(meta) + 4)); break;
                    case 3: PIOL_File_Rule_addIndex(r.c, m); r.x->addIndex(m); break;
                    case 4: PIOL_File_Rule_addCopy(r.c); r.x->addCopy(); break;
                    case 5: if (has()) { PIOL_File_Rule_rmRule(r.c, m); r.x->rmRule(m); } break;
                    case 6: c.eq(PIOL_File_Rule_addRule_Meta(r.c, m), r.x->addRule(m), "addRule of an entry"); break;
                    default: {
                        auto& q = rules[c.draw(rules.size())];
                        if (&q == &r) break;
                        c.eq(PIOL_File_Rule_addRule_Rule(r.c, q.c), r.x->addRule(*q.x), "addRule of rules");
                    }
                }
                same_rule(r, "edit " + std::to_string(k));
            } break;
            case 4: {
                size_t k = c.draw(rules.size());
                c.desc << " delete-rule";
                PIOL_File_Rule_delete(rules[k].c);
                rules.erase(rules.begin() + long(k));
            } break;
            case 5: {
                bool dflt = rules.empty() || c.chance(1, 4);
                auto n = c.size_in(0, 12);
                c.desc << " param(" << n << (dflt ? " default" : "") << ")";
                prms.push_back(make_prm(dflt ? nullptr : &rules[c.draw(rules.size())], n));
                fill(prms.back(), o);
                same_prm(c, prms.back(), "new parameters");
            } break;
            case 6: {
                auto& a = prms[c.draw(prms.size())];
                auto& b = prms[c.draw(prms.size())];
                if (a.n == 0 || b.n == 0) break;
                // copying is between parameters of the same rules
                if (entries(*a.x->r) != entries(*b.x->r) || a.x->r->numCopy != b.x->r->numCopy) { c.desc << " -"; break; }
                size_t i = c.draw(a.n), j = c.draw(b.n);
                c.desc << " copy(" << i << "," << j << ")";
                PIOL_File_cpyPrm(i, a.c, j, b.c);
                EP::param_utils::cpyPrm(i, a.x.get(), j, b.x.get());
                same_prm(c, b, "copy");
            } break;
            case 7: {
                size_t k = c.draw(prms.size());
                c.desc << " delete-param";
                PIOL_File_Param_delete(prms[k].c);
                prms.erase(prms.begin() + long(k));
            } break;
            case 8: {
                size_t n = c.bits64();
                c.eq(PIOL_ExSeis_getRank(cp), xp->getRank(), "rank");
                c.eq(PIOL_ExSeis_getNumRank(cp), xp->getNumRank(), "number of processes");
                c.eq(PIOL_ExSeis_max(cp, n / size_t(me + 1)), xp->max(n / size_t(me + 1)), "max");
                PIOL_ExSeis_barrier(cp);
                size_t a = c.draw(1u << 20), b = c.draw(1u << 15);
                c.eq(PIOL_SEGY_utils_getTextSz(), size_t(3200), "text size");
                c.eq(PIOL_SEGY_utils_getMDSz(), size_t(240), "trace header size");
                c.eq(PIOL_SEGY_utils_getDFSz(b), 4 * b, "samples size");
                c.eq(PIOL_SEGY_utils_getFileSz(a, b), 3600 + a * (240 + 4 * b), "file size");
                c.desc << " queries";
            } break;
            case 9: {
                FileP f;
                f.c = c.path("c" + std::to_string(nfiles)); f.x = c.path("x" + std::to_string(nfiles));
                nfiles++;
                f.ns = c.size_in(1, 16);
                f.nt = c.size_in(0, 24);
                if (me == 0) { unlink(f.c.c_str()); unlink(f.x.c_str()); }
                barrier();
                auto* w = PIOL_File_WriteDirect_new(cp, f.c.c_str());
                EP::WriteDirect x(xp, f.x);
                std::string text;
                size_t tl = c.chance(1, 3) ? c.size_in(0, 4000) : c.size_in(0, 100);
                for (size_t i = 0; i < tl; i++) text += char(32 + hash({seed, o, i}) % 95);
                double inc = double(1 + c.draw(32767)) * 1e-6;
                c.desc << " write(ns=" << f.ns << " nt=" << f.nt;
                bool t = c.flip(), n = c.flip(), i = c.flip();
                if (t) { PIOL_File_WriteDirect_writeText(w, text.c_str()); x.writeText(text); c.desc << " text"; }
                PIOL_File_WriteDirect_writeNs(w, f.ns); x.writeNs(f.ns);
                if (n) { PIOL_File_WriteDirect_writeNt(w, f.nt); x.writeNt(f.nt); c.desc << " count"; }
                if (i) { PIOL_File_WriteDirect_writeInc(w, inc); x.writeInc(inc); }
                size_t calls = 1 + c.draw(3);
                for (size_t q = 0; q < calls; q++) {
                    Sv set;
                    for (size_t k = 0; k < f.nt; k++) if (q == 0 || c.flip()) set.push_back(k);
                    Share s = gen_share(c, set, np);
                    int k = int(c.draw(3));
                    bool anyrule = !rules.empty() && c.flip();
                    size_t which = anyrule ? c.draw(rules.size()) : 0;
                    auto& ids = s.ids[me];
                    PrmP p = make_prm(anyrule ? &rules[which] : nullptr, ids.size());
                    fill(p, 1000 + o * 10 + q);
                    Fv tr(ids.size() * f.ns + 1);
                    for (size_t z = 0; z < ids.size() * f.ns; z++) tr[z] = ref::u2f(sample_bits(S_INDEX, seed + q, ids[z / f.ns], z % f.ns));
                    Fv tr2 = tr;
                    size_t off = ids.empty() ? 0 : ids[0];
                    c.desc << " " << k << s.str();
                    if (k == 2) {
                        if (s.list) PIOL_File_WriteDirect_writeParamNonContiguous(w, ids.size(), ids.data(), p.c);
                        else PIOL_File_WriteDirect_writeParam(w, off, ids.size(), p.c);
                    }
                    else {
                        if (s.list) PIOL_File_WriteDirect_writeTraceNonContiguous(w, ids.size(), ids.data(), tr.data(), k ? p.c : nullptr);
                        else PIOL_File_WriteDirect_writeTrace(w, off, ids.size(), tr.data(), k ? p.c : nullptr);
                    }
                    do_write(x, s, ids, k == 2 ? nullptr : tr2.data(), k ? p.x.get() : PIOL_PARAM_NULL);
                    if (memcmp(tr.data(), tr2.data(), tr.size() * 4)) c.fail("samples changed on writing");
                    PIOL_File_Param_delete(p.c);
                }
                c.desc << ")";
                PIOL_File_WriteDirect_delete(w);
                { EP::WriteDirect gone(std::move(x)); }
                files.push_back(f);
            } break;
            case 10: {
                auto& f = files[c.draw(files.size())];
                barrier();
                if (me == 0) { auto e = same_files(f.c, f.x); if (!e.empty()) c.fail(e); }
                // both read the same file
                RdP r{PIOL_File_ReadDirect_new(cp, f.x.c_str()), std::make_unique<EP::ReadDirect>(xp, f.x), 0, 0};
                r.ns = r.x->readNs(); r.nt = r.x->readNt();
                c.desc << " read(" << r.nt << ")";
                c.eq(PIOL_File_ReadDirect_readNs(r.c), r.ns, "ns");
                c.eq(PIOL_File_ReadDirect_readNt(r.c), r.nt, "nt");
                if (PIOL_File_ReadDirect_readInc(r.c) != r.x->readInc()) c.fail("interval");
                auto t = r.x->readText();
                if (strncmp(PIOL_File_ReadDirect_readText(r.c), t.c_str(), 3201)) c.fail("text");
                rds.push_back(std::move(r));
            } break;
            case 11: {
                auto& r = rds[c.draw(rds.size())];
                int k = int(c.draw(7));
                bool anyrule = !rules.empty() && c.flip();
                size_t which = anyrule ? c.draw(rules.size()) : 0;
                std::vector<Sv> ids(np);
                for (auto& v : ids) {
                    size_t n = r.nt ? c.size_in(0, r.nt) : 0;
                    if (k >= 5) for (size_t i = 0; i < n; i++) v.push_back(c.draw(r.nt));
                    else if (k >= 3) v = c.increasing(n, r.nt);
                    else { size_t off = n < r.nt ? c.draw(r.nt - n + 1) : 0; for (size_t i = 0; i < n; i++) v.push_back(off + i); }
                }
                auto& v = ids[me];
                c.desc << " get" << k << vstr(v, 4);
                PrmP p = make_prm(anyrule ? &rules[which] : nullptr, v.size());
                Fv a(v.size() * r.ns + 1, -1.f), b = a;
                size_t off = v.empty() ? 0 : v[0];
                switch (k) {
                    case 0: PIOL_File_ReadDirect_readTrace(r.c, off, v.size(), a.data(), p.c); r.x->readTrace(off, v.size(), b.data(), p.x.get()); break;
                    case 1: PIOL_File_ReadDirect_readTrace(r.c, off, v.size(), a.data(), nullptr); r.x->readTrace(off, v.size(), b.data()); break;
                    case 2: PIOL_File_ReadDirect_readParam(r.c, off, v.size(), p.c); r.x->readParam(off, v.size(), p.x.get()); break;
                    case 3: PIOL_File_ReadDirect_readTraceNonContiguous(r.c, v.size(), v.data(), a.data(), which % 2 ? p.c : nullptr); r.x->readTraceNonContiguous(v.size(), v.data(), b.data(), which % 2 ? p.x.get() : PIOL_PARAM_NULL); break;
                    case 4: PIOL_File_ReadDirect_readParamNonContiguous(r.c, v.size(), v.data(), p.c); r.x->readParamNonContiguous(v.size(), v.data(), p.x.get()); break;
                    case 5: PIOL_File_ReadDirect_readTraceNonMonotonic(r.c, v.size(), v.data(), a.data(), p.c); r.x->readTraceNonMonotonic(v.size(), v.data(), b.data(), p.x.get()); break;
                    default: PIOL_File_ReadDirect_readTraceNonMonotonic(r.c, v.size(), v.data(), a.data(), nullptr); r.x->readTraceNonMonotonic(v.size(), v.data(), b.data(), PIOL_PARAM_NULL); break;
                }
                if (memcmp(a.data(), b.data(), a.size() * 4)) c.fail("read " + std::to_string(k) + ": samples differ");
                same_prm(c, p, "read " + std::to_string(k));
                // extremes of what was read
                if (p.x->r->translate.count(EP::Meta(20)) && p.x->r->translate.count(EP::Meta(21)) && entries(*p.x->r) == entries(EP::Rule(true, true))) {
                    struct PIOL_CoordElem ca[4], cb[4];
                    for (auto& e : ca) e = {-1., 77};
                    for (auto& e : cb) e = {-1., 77};
                    if (!anyrule) {
                        PIOL_File_getMinMax(cp, off, v.size(), EP::Meta(20), EP::Meta(21), p.c, ca);
                        EP::getMinMax(xp.get(), off, v.size(), EP::Meta(20), EP::Meta(21), p.x.get(), cb);
                        for (int z = 0; z < 4; z++) if (ca[z].val != cb[z].val || ca[z].num != cb[z].num) c.fail("extremes differ");
                    }
                }
                PIOL_File_Param_delete(p.c);
            } break;
            case 12: {
                if (rds.empty()) break;
                size_t k = c.draw(rds.size());
                c.desc << " close";
                PIOL_File_ReadDirect_delete(rds[k].c);
                rds.erase(rds.begin() + long(k));
            } break;
            default: {
                // another handle of the library in the meantime
                c.desc << " library";
                PIOL_ExSeis* n = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
                if (c.flip()) std::swap(n, cp);
                PIOL_ExSeis_isErr(n, c.flip() ? "message" : NULL);
                PIOL_ExSeis_delete(n);
            }
        }
        MPI_Barrier(MPI_COMM_WORLD);
    }
    if (c.flip()) { PIOL_ExSeis_delete(cp); cp = nullptr; c.desc << " library-first"; }
    for (auto& p : prms) { same_prm(c, p, "at the end"); PIOL_File_Param_delete(p.c); }
    for (auto& r : rules) PIOL_File_Rule_delete(r.c);
    for (auto& r : rds) PIOL_File_ReadDirect_delete(r.c);
    if (cp) PIOL_ExSeis_delete(cp);
    rds.clear();
    barrier();
    for (auto& f : files) {
        if (me == 0) { auto e = same_files(f.c, f.x); if (!e.empty()) c.fail(e); }
        drop(f.c); drop(f.x);
    }
    for (uint32_t s = seen; s; s &= s - 1) kinds++;
    c.nontrivial(kinds > 3);
}

// ------------------------------------------------------------ data sets
static void sets(Ctx& c)
{
    int me = c.rank();
    std::string home = sg::fresh_dir(c, "c20");
    std::string d;
    auto in = sg::gen(c, 3, 2, 20, S_NORMAL, d, 3);
    sg::write(c, in, home);
    size_t minns = 1000;
    for (auto& f : in.files) minns = std::min(minns, f.ns);
    struct Op { int k, a; size_t x, y; float f; };
    std::vector<Op> ops;
    size_t n = c.size_in(0, 6);
    c.desc << "set " << d;
    int sorts = 0;
    for (size_t i = 0; i < n; i++) {
        Op o{int(c.draw(6)), int(c.draw(3)), 0, 0, 1.f};
        if (o.k == 0) { o.a = int(35 + c.draw(9)); if (sorts++) o.k = 5; }
        if (o.k == 1) { if (sorts++) o.k = 5; }
        if (o.k == 2) { o.x = c.draw(minns / 2 + 1); o.y = c.draw(minns / 2 + 1); }
        if (o.k == 3) { o.a = int(c.draw(4)); o.x = 1 + c.draw(minns - 1); o.f = 1.f + float(c.draw(100)); }
        if (o.k == 4) { o.x = c.draw(5); }
        c.desc << " " << o.k << "/" << o.a << "/" << o.x << "/" << o.y << "/" << o.f;
        ops.push_back(o);
    }
    // an added file besides those of the pattern
    bool add = c.chance(1, 3), twice = c.flip();
    size_t mm = c.draw(3);
    c.desc << (add ? " add" : "") << (twice ? " output" : " destroyed") << " extremes=" << mm;
    c.label("set");
    c.nontrivial(!ops.empty());
    if (me == 0 && add) ref::spit(home + "extra.segy", in.files[0].encode());
    barrier();
    PIOL_ExSeis* cp = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
    auto xp = new_piol();
    std::string pat = home + "in_*";
    PIOL_Set* a = PIOL_Set_new(cp, pat.c_str());
    auto b = std::make_unique<EF::Set>(xp, pat);
    if (add) { PIOL_Set_add(a, (home + "extra.segy").c_str()); b->add(home + "extra.segy"); }
    static const char* TX[] = {"", "one", "two\nlines", "a longer text of the outcome", "\xC1\xC2"};
    for (auto& o : ops) {
        switch (o.k) {
            case 0: PIOL_Set_sort(a, PIOL_SortType(o.a)); b->sort(PIOL_SortType(o.a)); break;
            case 1: PIOL_Set_sort_fn(a, c20_less); b->sort(EP::CompareP(c20_less)); break;
            case 2: PIOL_Set_taper(a, c20_taper(o.a), o.x, o.y); b->taper(o.a == 0 ? exseis::utils::linear_taper : o.a == 1 ? exseis::utils::cosine_taper : exseis::utils::cosine_square_taper, o.x, o.y); break;
            case 3: PIOL_Set_AGC(a, c20_gain(o.a), o.x, o.f); b->AGC(o.a == 0 ? exseis::utils::rectangular_RMS_gain : o.a == 1 ? exseis::utils::triangular_RMS_gain : o.a == 2 ? exseis::utils::mean_abs_gain : exseis::utils::median_gain, o.x, o.f); break;
            case 4: PIOL_Set_text(a, TX[o.x]); b->text(TX[o.x]); break;
            default: break;
        }
    }
    for (size_t k = 0; k < mm; k++) {
        struct PIOL_CoordElem ca[4], cb[4];
        for (auto& e : ca) e = {-1., 77};
        for (auto& e : cb) e = {-1., 77};
        auto m1 = EP::Meta(k ? 22 : 20), m2 = EP::Meta(k ? 23 : 21);
        PIOL_Set_getMinMax(a, m1, m2, ca);
        b->getMinMax(m1, m2, cb);
        for (int z = 0; z < 4; z++) if (ca[z].val != cb[z].val || ca[z].num != cb[z].num) c.fail("extremes of the sets differ");
    }
    {
        std::string sa, sb;
        { CoutQuiet q; PIOL_Set_summary(a); sa = q.s.str(); }
        { CoutQuiet q; b->summary(); sb = q.s.str(); }
        if (sa != sb) c.fail("summaries differ");
    }
    barrier();
    if (me == 0) { mkdir((home + "oc").c_str(), 0700); mkdir((home + "ox").c_str(), 0700); }
    barrier();
    if (twice) {
        PIOL_Set_output(a, (home + "oc/out").c_str());
        b->output(home + "ox/out");
        PIOL_Set_delete(a);
        b.reset();
        barrier();
        auto la = sg::listing(home + "oc"), lb = sg::listing(home + "ox");
        if (la != lb) c.fail("other files were written: " + std::to_string(la.size()) + " and " + std::to_string(lb.size()));
        else if (me == 0)
            for (auto& f : la) { auto e = same_files(home + "oc/" + f, home + "ox/" + f); if (!e.empty()) c.fail(f + ": " + e); }
    }
    else {
        // the destructor writes into the working directory
        if (chdir((home + "oc").c_str())) c.fail("chdir");
        PIOL_Set_delete(a);
        barrier();
        if (chdir((home + "ox").c_str())) c.fail("chdir");
        b.reset();
        barrier();
        auto la = sg::listing(home + "oc"), lb = sg::listing(home + "ox");
        if (la != lb) c.fail("other files were written on destruction");
        else if (me == 0)
            for (auto& f : la) { auto e = same_files(home + "oc/" + f, home + "ox/" + f); if (!e.empty()) c.fail(f + ": " + e); }
    }
    PIOL_ExSeis_delete(cp);
    barrier();
    if (chdir("/")) c.fail("chdir");
    if (me == 0) { sg::rmtree(home); }
    barrier();
}
// --------------------------------------- signals, weights and ranges, directly
namespace XU = exseis::utils;
static float c20_ramp(float at, float width) { return width == 0 ? 0.f : at / (2 * width); }
static float c20_peak(const float* s, size_t n, float target, size_t centre)
{
    float m = 1;
    for (size_t i = 0; i < n; i++) m = std::max(m, std::fabs(s[i]) * (i == centre ? 2.f : 1.f));
    return target / m;
}
static void signals(Ctx& c)
{
    static const XU::Gain_function G[] = {XU::rectangular_RMS_gain, XU::triangular_RMS_gain, XU::mean_abs_gain, XU::median_gain, c20_peak};
    static const XU::Taper_function T[] = {XU::linear_taper, XU::cosine_taper, XU::cosine_square_taper, c20_ramp};
    size_t ns = 1 + c.size_in(0, 40), kinds = c.draw(5);
    Fv s;
    size_t lead = c.chance(1, 4) ? c.draw(ns + 1) : 0;
    for (size_t i = 0; i < ns; i++) s.push_back(i < lead ? 0.f : float(int(c.draw(2001)) - 1000) / 8.f);
    auto same = [&](const Fv& a, const Fv& b, const char* w) {
        for (size_t i = 0; i < a.size(); i++)
            if (ref::f2u(a[i]) != ref::f2u(b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) {
                c.fail(std::string(w) + ": sample " + std::to_string(i) + " " + std::to_string(a[i]) + " from C, " + std::to_string(b[i]) + " from C++");
                return;
            }
    };
    c.label("direct");
    if (kinds == 0) {
        int k = int(c.draw(4));
        size_t l = c.draw(ns + 1), r = c.draw(ns - l + 1);
        c.desc << "taper " << k << " of " << ns << " lead " << lead << " tails " << l << "," << r;
        Fv a = s, b = s;
        XU::exseis_taper(ns, a.data(), k == 3 ? c20_ramp : c20_taper(k), l, r);
        XU::taper(ns, b.data(), T[k], l, r);
        same(a, b, "taper");
        c.nontrivial(l + r > 0);
    }
    else if (kinds == 1) {
        int k = int(c.draw(5));
        size_t w = 1 + c.draw(ns);
        float t = 1.f + float(c.draw(1000)) / 8.f;
        c.desc << "AGC " << k << " of " << ns << " lead " << lead << " window " << w << " to " << t;
        Fv a = s, b = s;
        XU::exseis_AGC(ns, a.data(), k == 4 ? c20_peak : c20_gain(k), w, t);
        XU::AGC(ns, b.data(), G[k], w, t);
        same(a, b, "AGC");
        c.nontrivial(ns > 1);
    }
    else if (kinds == 2) {
        int k = int(c.draw(4));
        size_t w = 1 + c.draw(ns), at = c.draw(w);
        float t = 1.f + float(c.draw(1000)) / 8.f;
        c.desc << "gain " << k << " over " << w << " at " << at << " to " << t;
        same({c20_gain(k)(s.data(), w, t, at)}, {G[k](s.data(), w, t, at)}, "gain");
        c.nontrivial(w > 1);
    }
    else if (kinds == 3) {
        int k = int(c.draw(3));
        float w = 1.f + float(c.draw(1000)) / 4.f, at = float(c.draw(1000)) / 999.f * w;
        c.desc << "weight " << k << " at " << at << " of " << w;
        same({c20_taper(k)(at, w)}, {T[k](at, w)}, "weight");
        c.nontrivial(true);
    }
    else {
        size_t n = c.chance(1, 4) ? c.bits64() >> c.draw(64) : c.draw(1000), P = 1 + c.draw(c.flip() ? 8 : 100000), r = c.draw(P);
        c.desc << "share " << r << " of " << P << " of " << n;
        auto a = XU::exseis_block_decomposition(n, P, r);
        auto b = XU::block_decomposition(n, P, r);
        c.eq(a.global_offset, b.global_offset, "offset of a share");
        c.eq(a.local_size, b.local_size, "size of a share");
        c.nontrivial(n > 0 && P > 1);
    }
}
static void prop(Ctx& c)
{
    if (c20_all[0] == nullptr) c.fail("link");
    int w = int(c.draw(9));
    if (w == 0) program(c);
    else if (w == 8) { for (int i = 0; i < 4; i++) { c.desc << (i ? "; " : ""); signals(c); } }
    else if (w < 6) history(c);
    else sets(c);
}
int main(int a, char** v) { return pbt::run(a, v, prop); }
