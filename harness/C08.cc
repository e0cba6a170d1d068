// C08: rule sets and parameter blocks behave as typed records.
#include "common.hh"
#include "ExSeisDat/PIOL/SEGYRuleEntry.hh"
namespace PU = EP::param_utils;
typedef EP::RuleEntry::MdType MT;

struct Ent {
    int type;  // ref::LONG, SHORT, FLOAT, 3 = index, 4 = copy
    int loc, scal;
};
typedef std::map<int, Ent> Model;

static int mt(MT t)
{
    switch (t) {
        case MT::Long: return ref::LONG;
        case MT::Short: return ref::SHORT;
        case MT::Float: return ref::FLOAT;
        case MT::Index: return 3;
        default: return 4;
    }
}
static bool std_entry(int m, Ent& e)
{
    for (auto& f : ref::fields())
        if (f.meta == m) { e = {int(f.type), f.loc, f.scal}; return true; }
    if (m == 0) { e = {4, 0, 0}; return true; }
    return false;
}
static void compare(Ctx& c, EP::Rule& r, const Model& m, bool full, const std::string& at)
{
    size_t n[5] = {0, 0, 0, 0, 0};
    size_t lo = 1000, hi = 0;
    std::map<int, std::set<size_t>> nums;
    for (auto& e : m) {
        n[e.second.type]++;
        auto* x = r.getEntry(EP::Meta(e.first));
        if (x == nullptr) { c.fail(at + ": entry " + std::to_string(e.first) + " is missing"); return; }
        if (mt(x->type()) != e.second.type) { c.fail(at + ": entry " + std::to_string(e.first) + " has the wrong type"); return; }
        if (e.second.type < 3) {
            c.eq(x->loc, size_t(e.second.loc), at + ": location of entry " + std::to_string(e.first));
            size_t w = e.second.type == ref::SHORT ? 2 : 4;
            lo = std::min(lo, size_t(e.second.loc));
            hi = std::max(hi, size_t(e.second.loc) + w);
            if (e.second.type == ref::FLOAT) {
                auto* fl = dynamic_cast<EP::SEGYFloatRuleEntry*>(x);
                if (fl == nullptr) { c.fail(at + ": not a float rule"); return; }
                c.eq(fl->scalLoc, size_t(e.second.scal), at + ": scaler location of entry " + std::to_string(e.first));
                lo = std::min(lo, size_t(e.second.scal));
                hi = std::max(hi, size_t(e.second.scal) + 2);
            }
        }
        if (e.second.type == 4) { lo = 0; hi = std::max<size_t>(hi, 240); }
        else if (!nums[e.second.type].insert(x->num).second) c.fail(at + ": two entries share slot " + std::to_string(x->num));
    }
    size_t got[5];
    got[ref::LONG] = r.numLong; got[ref::SHORT] = r.numShort; got[ref::FLOAT] = r.numFloat; got[3] = r.numIndex; got[4] = r.numCopy;
    static const char* nm[] = {"long", "short", "float", "index", "copy"};
    for (int k = 0; k < 5; k++) {
        c.eq(got[k], n[k], at + ": number of " + nm[k] + " entries");
        if (k < 4) for (size_t x : nums[k]) c.check(x < n[k], at + ": slot out of range");
    }
    for (int q = 0; q < 35; q++)
        if (!m.count(q)) c.check(r.getEntry(EP::Meta(q)) == nullptr, at + ": entry " + std::to_string(q) + " exists but was not added or was removed");
    c.eq(r.paramMem(), n[ref::LONG] * 8 + n[ref::SHORT] * 2 + n[ref::FLOAT] * 8 + n[3] * sizeof(size_t) + (n[4] ? 240 : 0), at + ": bytes per trace");
    if (full) c.eq(r.extent(), size_t(240), at + ": extent");
    else if (hi) c.eq(r.extent(), hi - lo, at + ": extent");
}

static Ent gen_ent(Ctx& c, int m)
{
    Ent e;
    e.type = int(c.draw(3));
    // one private position per meta, so that entries never overlap: 6 bytes each from byte 1
    e.loc  = 1 + 6 * m + (c.draw(2) && e.type == ref::SHORT ? 2 : 0);
    e.scal = 1 + 6 * m + 4;
    if (e.type != ref::FLOAT) e.scal = 0;
    return e;
}
static void apply(EP::Rule& r, int m, const Ent& e)
{
    if (e.type == ref::LONG) r.addLong(EP::Meta(m), EP::Tr(e.loc));
    else if (e.type == ref::SHORT) r.addShort(EP::Meta(m), EP::Tr(e.loc));
    else if (e.type == ref::FLOAT) r.addSEGYFloat(EP::Meta(m), EP::Tr(e.loc), EP::Tr(e.scal));
    else if (e.type == 3) r.addIndex(EP::Meta(m));
    else r.addCopy();
}
static std::shared_ptr<EP::Rule> gen(Ctx& c, Model& m, bool& full, bool check)
{
    full = !c.chance(1, 4);
    std::shared_ptr<EP::Rule> r;
    std::string hist;
    int ctor = int(c.draw(5));
    m[1]     = {3, 0, 0};
    m[2]     = {3, 0, 0};
    if (ctor == 4) m.clear();
    auto& F  = ref::fields();
    if (ctor == 0) r = std::make_shared<EP::Rule>(std::vector<EP::Meta>{}, full);
    else if (ctor == 4) {  // entries made by the caller, numbered by type
        EP::Rule::RuleMap t;
        size_t num[5] = {0, 0, 0, 0, 0}, q = c.draw(8);
        for (size_t z = 0; z < q; z++) {
            int k = int(c.draw(35));
            Ent e = k == 0 ? Ent{4, 0, 0} : gen_ent(c, k);
            if (k != 0 && c.chance(1, 5)) e = {3, 0, 0};
            if (m.count(k)) continue;
            m[k]  = e;
            auto M = EP::Meta(k);
            size_t i = num[e.type]++;
            if (e.type == ref::LONG) t[M] = new EP::SEGYLongRuleEntry(i, EP::Tr(e.loc));
            else if (e.type == ref::SHORT) t[M] = new EP::SEGYShortRuleEntry(i, EP::Tr(e.loc));
            else if (e.type == ref::FLOAT) t[M] = new EP::SEGYFloatRuleEntry(i, EP::Tr(e.loc), EP::Tr(e.scal));
            else if (e.type == 3) t[M] = new EP::SEGYIndexRuleEntry(i);
            else t[M] = new EP::SEGYCopyRuleEntry();
        }
        if (full && c.flip()) r = std::make_shared<EP::Rule>(t);
        else r = std::make_shared<EP::Rule>(t, full);
    }
    else if (ctor == 3) {
        std::vector<EP::Meta> l;
        for (auto& f : F) if (c.chance(1, 3)) { l.push_back(EP::Meta(f.meta)); m[f.meta] = {int(f.type), f.loc, f.scal}; }
        if (c.chance(1, 3)) l.push_back(PIOL_META_Misc2);  // has no default: ignored
        r = std::make_shared<EP::Rule>(l, full);
    }
    else {
        r = std::make_shared<EP::Rule>(full, true, ctor == 2);
        for (int i = 0; i < (ctor == 2 ? ref::NEXTRA_END : ref::NDEFAULT); i++) m[F[i].meta] = {int(F[i].type), F[i].loc, F[i].scal};
    }
    hist = std::string("ctor") + std::to_string(ctor) + (full ? "" : " partial");
    if (check) compare(c, *r, m, full, "after " + hist);
    size_t n = c.count_in(0, 20, 1000);
    for (size_t i = 0; i < n; i++) {
        int what = int(c.draw(7));
        int k    = what == 1 ? int(c.draw(35)) : int(1 + c.draw(34));
        if (what == 0 || what == 6) {
            Ent e = gen_ent(c, k);
            apply(*r, k, e);
            m[k] = e;
            hist += " set" + std::to_string(k) + ":" + std::to_string(e.type) + "@" + std::to_string(e.loc);
        }
        else if (what == 1) {
            Ent e;
            bool has = m.count(k), def = std_entry(k, e);
            bool got = r->addRule(EP::Meta(k));
            hist += " add" + std::to_string(k);
            c.eq(got, !has && def, "addRule(" + std::to_string(k) + ") after " + hist);
            if (!has && def) m[k] = e;
        }
        else if (what == 2) {
            k = int(c.draw(35));
            r->rmRule(EP::Meta(k));
            m.erase(k);
            hist += " rm" + std::to_string(k);
        }
        else if (what == 3) {
            r->addIndex(EP::Meta(k));
            m[k] = {3, 0, 0};
            hist += " idx" + std::to_string(k);
        }
        else if (what == 4) {
            if (c.chance(1, 2)) { r->addCopy(); m[0] = {4, 0, 0}; hist += " copy"; }
            else { r->getEntry(EP::Meta(k)); hist += " get" + std::to_string(k); }
        }
        else {
            EP::Rule o(std::vector<EP::Meta>{});
            Model om;
            om[1] = {3, 0, 0};
            om[2] = {3, 0, 0};
            size_t q = c.draw(6);
            for (size_t z = 0; z < q; z++) { int kk = int(1 + c.draw(34)); Ent e = gen_ent(c, kk); apply(o, kk, e); om[kk] = e; }
            if (c.chance(1, 4)) { o.addCopy(); om[0] = {4, 0, 0}; }
            r->addRule(o);
            for (auto& e : om) if (!m.count(e.first)) m[e.first] = e.second;
            hist += " merge" + std::to_string(om.size());
        }
        if (check) compare(c, *r, m, full, "after " + hist);
        if (c.failed) break;
    }
    c.desc << "{" << hist << "} ";
    return r;
}

static int64_t value(uint64_t seed, size_t t, int m, int type)
{
    uint64_t h = hash({seed, t, uint64_t(m)});
    if (type == ref::SHORT) return int16_t(h);
    if (type == ref::LONG) return int32_t(h);
    if (type == ref::FLOAT) return int64_t(h % 4000001) - 2000000;
    return int64_t(h >> 1);
}
static void put(EP::Param* p, size_t k, int m, int type, int64_t v)
{
    auto M = EP::Meta(m);
    if (type == ref::FLOAT) PU::setPrm(k, M, double(v) + 0.25, p);
    else if (type == ref::LONG) PU::setPrm(k, M, exseis::utils::Integer(v), p);
    else if (type == ref::SHORT) PU::setPrm(k, M, int16_t(v), p);
    else if (type == 3) PU::setPrm(k, M, size_t(v), p);
}
static bool holds(const EP::Param* p, size_t k, int m, int type, int64_t v)
{
    auto M = EP::Meta(m);
    if (type == ref::FLOAT) return PU::getPrm<double>(k, M, p) == double(v) + 0.25;
    if (type == ref::LONG) return PU::getPrm<exseis::utils::Integer>(k, M, p) == v;
    if (type == ref::SHORT) return PU::getPrm<int16_t>(k, M, p) == int16_t(v);
    if (type == 3) return PU::getPrm<size_t>(k, M, p) == size_t(v);
    return true;
}
static void fill(EP::Param* p, const Model& m, size_t n, uint64_t seed)
{
    for (size_t k = 0; k < n; k++) {
        for (auto& e : m) put(p, k, e.first, e.second.type, value(seed, k, e.first, e.second.type));
        if (m.count(0)) for (size_t b = 0; b < 240; b++) p->c[k * 240 + b] = raw_byte(seed, 7, k, b);
    }
}
static void verify(Ctx& c, EP::Param* p, const Model& m, size_t n, uint64_t seed, const std::string& at)
{
    for (size_t k = 0; k < n && !c.failed; k++) {
        for (auto& e : m)
            if (!holds(p, k, e.first, e.second.type, value(seed, k, e.first, e.second.type))) { c.fail(at + ": entry " + std::to_string(e.first) + " of trace " + std::to_string(k) + " changed"); return; }
        if (m.count(0)) for (size_t b = 0; b < 240; b++) if (p->c[k * 240 + b] != raw_byte(seed, 7, k, b)) { c.fail(at + ": raw header byte " + std::to_string(b) + " of trace " + std::to_string(k) + " changed"); return; }
    }
}
static bool overlapping(const Model& m)
{
    std::vector<int> used(260, 0);
    for (auto& e : m) {
        if (e.second.type >= 3) continue;
        int w = e.second.type == ref::SHORT ? 2 : 4;
        for (int b = 0; b < w; b++) if (used[e.second.loc + b]++) return true;
    }
    for (auto& e : m)  // scalers may be shared with each other only
        if (e.second.type == ref::FLOAT) for (int b = 0; b < 2; b++) if (used[e.second.scal + b]) return true;
    std::set<int> sc;
    for (auto& e : m) if (e.second.type == ref::FLOAT) sc.insert(e.second.scal);
    int last = -5;
    for (int s : sc) { if (s - last < 2) return true; last = s; }
    return false;
}

static void prop(Ctx& c)
{
    Model ma, mb;
    bool fa, fb;
    auto ra = gen(c, ma, fa, true);
    if (c.failed) return;
    c.label_if(!fa, "partial extent");
    c.label_if(ma.count(0), "raw copy");
    c.nontrivial(ma.size() > 3);
    // parameter block: every entry of every trace independent
    size_t n = c.size_in(1, 12);
    uint64_t sa = c.draw(1 << 16), sb = c.draw(1 << 16) + (1 << 16);
    EP::Param pa(ra, n);
    c.eq(pa.size(), n, "size of a parameter block");
    fill(&pa, ma, n, sa);
    verify(c, &pa, ma, n, sa, "after filling");
    // one more write changes one value only
    if (!c.failed && ma.size() > 0) {
        size_t k = c.draw(n);
        auto it = ma.begin();
        std::advance(it, c.draw(ma.size()));
        if (it->first != 0) {
            int64_t nv = value(sa + 99, k, it->first, it->second.type);
            put(&pa, k, it->first, it->second.type, nv);
            c.check(holds(&pa, k, it->first, it->second.type, nv), "a value set is not returned");
            put(&pa, k, it->first, it->second.type, value(sa, k, it->first, it->second.type));
            verify(c, &pa, ma, n, sa, "after setting entry " + std::to_string(it->first) + " of trace " + std::to_string(k));
        }
    }
    if (c.failed) return;
    // two blocks are equal exactly when they hold the same values
    {
        EP::Param px(ra, n);
        fill(&px, ma, n, sa);
        c.check(pa == px && px == pa, "blocks with the same values are not equal");
        size_t k = c.draw(n);
        if (ma.size() > 0) {
            auto it = ma.begin();
            std::advance(it, c.draw(ma.size()));
            if (it->first == 0) px.c[k * 240 + c.draw(240)] ^= 1;
            else put(&px, k, it->first, it->second.type, value(sa, k, it->first, it->second.type) ^ 1);
            c.check(!(pa == px) && !(px == pa), "blocks that differ in entry " + std::to_string(it->first) + " of trace " + std::to_string(k) + " are equal");
        }
        EP::Param py(ra, n + 1);
        c.check(ma.empty() || !(pa == py), "blocks of different lengths are equal");
        c.check(px.memUsage() >= n * ra->paramMem() + ra->memUsage(), "a block uses less memory than the values it holds");
        // nothing is done for a block that is not there
        PU::cpyPrm(0, nullptr, k, &pa);
        PU::cpyPrm(0, PIOL_PARAM_NULL, k, &pa);
        PU::cpyPrm(k, &pa, 0, nullptr);
        PU::cpyPrm(k, &pa, 0, const_cast<EP::Param*>(PIOL_PARAM_NULL));
        verify(c, &pa, ma, n, sa, "after copies from and to no block");
        // a block without rules given has the default ones
        if (c.chance(1, 8)) {
            EP::Param pd(n);
            Model md;
            md[1] = md[2] = {3, 0, 0};
            for (int i = 0; i < ref::NDEFAULT; i++) md[ref::fields()[i].meta] = {int(ref::fields()[i].type), ref::fields()[i].loc, ref::fields()[i].scal};
            compare(c, *pd.r, md, true, "rules of a block made without rules");
            fill(&pd, md, n, sb);
            verify(c, &pd, md, n, sb, "block made without rules");
        }
    }
    if (c.failed) return;
    // through header bytes and back
    if (!overlapping(ma)) {
        size_t stride = c.flip() ? 0 : 4 * c.draw(5), skip = c.draw(n), sz = c.draw(n - skip + 1);
        std::vector<unsigned char> buf((240 + stride) * sz + 16, 0xAB), want;
        for (size_t i = 0; i < sz; i++) std::fill_n(buf.begin() + i * (240 + stride), 240, 0);
        want = buf;
        std::shared_ptr<EP::Rule> r2 = ra;
        EP::Param in(ra, n);
        fill(&in, ma, n, sa);
        for (size_t k = 0; k < n; k++) for (auto& e : ma) if (e.second.type == ref::FLOAT) PU::setPrm(k, EP::Meta(e.first), double(value(sa, k, e.first, ref::FLOAT)), &in);
        EP::SEGY_utils::insertParam(sz, &in, buf.data(), stride, skip);
        for (size_t i = 0; i < sz; i++) {
            uint8_t* h = &want[i * (240 + stride)];
            if (ma.count(0)) for (size_t b = 0; b < 240; b++) h[b] = raw_byte(sa, 7, skip + i, b);
            for (auto& e : ma) {
                int64_t v = value(sa, skip + i, e.first, e.second.type);
                if (e.second.type == ref::SHORT) ref::put16(h + e.second.loc - 1, int(v));
                else if (e.second.type < 3) ref::put32(h + e.second.loc - 1, uint32_t(int32_t(v)));
                if (e.second.type == ref::FLOAT) ref::put16(h + e.second.scal - 1, 1);
            }
        }
        if (buf != want) c.fail("header bytes written by the rules: " + hexdiff(buf, want));
        EP::Param out(ra, n);
        EP::SEGY_utils::extractParam(sz, buf.data(), &out, stride, skip);
        for (size_t i = 0; i < sz && !c.failed; i++)
            for (auto& e : ma) {
                int64_t v = value(sa, skip + i, e.first, e.second.type);
                if (e.second.type == ref::FLOAT) c.eq(PU::getPrm<double>(skip + i, EP::Meta(e.first), &out), double(v), "entry " + std::to_string(e.first) + " from header bytes");
                else if (e.second.type < 2) c.check(holds(&out, skip + i, e.first, e.second.type, v), "entry " + std::to_string(e.first) + " from header bytes");
            }
        c.label("through header bytes");
    }
    if (c.failed) return;
    // copying between blocks
    int how = int(c.draw(3));
    std::shared_ptr<EP::Rule> rb;
    if (how == 0) { rb = ra; mb = ma; fb = fa; }
    else rb = gen(c, mb, fb, false);
    size_t nb = c.size_in(1, 8);
    EP::Param pb(rb, nb);
    fill(&pb, mb, nb, sb);
    size_t j = c.draw(n), k = c.draw(nb);
    PU::cpyPrm(j, &pa, k, &pb);
    c.desc << "copy " << j << "->" << k << (how == 0 ? " same rule" : " other rule");
    c.label(how == 0 ? "copy under one rule" : "copy between rules");
    verify(c, &pa, ma, n, sa, "source of a copy");
    for (size_t t = 0; t < nb && !c.failed; t++)
        for (auto& e : mb) {
            auto it = ma.find(e.first);
            bool common = it != ma.end() && it->second.type == e.second.type;
            std::string at = "entry " + std::to_string(e.first) + " of destination trace " + std::to_string(t);
            if (e.first == 0) {
                for (size_t b = 0; b < 240 && !c.failed; b++) {
                    uint8_t w = t == k && common ? raw_byte(sa, 7, j, b) : raw_byte(sb, 7, t, b);
                    c.check(pb.c[t * 240 + b] == w, at + ": raw header byte " + std::to_string(b));
                }
                continue;
            }
            if (t == k && common) c.check(holds(&pb, t, e.first, e.second.type, value(sa, j, e.first, e.second.type)), at + " was not copied");
            else if (t == k && ma.count(0)) {}  // may be filled in from the raw header
            else c.check(holds(&pb, t, e.first, e.second.type, value(sb, t, e.first, e.second.type)), at + " was changed");
        }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
