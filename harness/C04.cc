// C04: all ways of reading the same traces agree, and touch only what was asked for.
#include "common.hh"

static std::string txt_of(uint64_t seed) { return "C04 reference file " + std::to_string(seed); }

/// A file any other system may have made: every header byte arbitrary, sane scalers mixed with odd ones.
static ref::File gen_file(Ctx& c, size_t nt, size_t ns, uint64_t seed)
{
    ref::File f;
    f.text   = txt_of(seed);
    f.text.resize(3200, '\0');
    f.ns     = ns;
    f.inc_us = 1000;
    f.tr.resize(nt);
    for (size_t t = 0; t < nt; t++) {
        for (size_t b = 0; b < 240; b++) f.tr[t].h[b] = raw_byte(seed, 0, t, b);
        static const int sc[] = {1, 10, 100, 1000, 10000, -1, -10, -100, -1000, -10000, 0, 7, -3};
        if (hash({seed, t, 8}) % 3) {
            ref::put16(&f.tr[t].h[70], sc[hash({seed, t, 9}) % 13]);
            ref::put16(&f.tr[t].h[68], sc[hash({seed, t, 10}) % 13]);
        }
        f.tr[t].s.resize(ns);
        for (size_t j = 0; j < ns; j++) f.tr[t].s[j] = sample_bits(S_ANYBITS, seed, t, j);
    }
    return f;
}

static const char* kinds[] = {"range", "list", "any", "range-past-end"};
static const char* whats[] = {"both", "samples", "params"};

static void prop(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    size_t ns = c.chance(1, 10) ? 0 : c.size_in(1, 30);
    size_t nt = c.chance(1, 12) ? 0 : c.count_in(1, 40, 3000);
    uint64_t seed = c.draw(1 << 20);
    auto f        = gen_file(c, nt, ns, seed);
    std::string fn = c.path("c04.segy");
    const size_t far = nt ? gen_far(c, ns) : 0;  // the traces before these are a hole
    if (me == 0) {
        auto b = f.encode();
        if (far) {
            unlink(fn.c_str());
            ref::spit(fn, 0, b.data(), 3600);
            ref::spit(fn, 3600 + far * (240 + 4 * ns), b.data() + 3600, b.size() - 3600);
        }
        else ref::spit(fn, b);
    }
    barrier();
    IoOpt io = gen_io(c, 240 + 4 * ns);
    RuleSpec R = gen_rule(c);
    bool ltn   = true;
    c.desc << "ns=" << ns << " nt=" << nt << " after " << far << " rule=" << R.str() << io.str();
    auto piol = new_piol();
    {
        auto r = open_read(piol, fn, io);
        EP::ReadInterface* ri = *r;
        c.eq(r->readNt(), far + nt, "trace count");
        c.eq(r->readNs(), ns, "samples per trace");
        size_t steps = 1 + c.draw(4);
        for (size_t st = 0; st < steps; st++) {
            int kind = nt == 0 ? 3 * int(c.draw(2)) : int(c.draw(4));
            int what = int(c.draw(3));
            std::vector<Sv> ids(np), ask(np);   // what is returned, what was asked for
            std::vector<size_t> off(np, 0), sz(np, 0);
            bool dup = false;
            for (int q = 0; q < np; q++) {
                if (kind == 0 || kind == 3) {
                    off[q] = c.draw(nt + 1);
                    sz[q]  = c.chance(1, 5) ? 0 : c.size_in(0, nt - off[q]);
                    if (kind == 3) {
                        off[q] = c.draw(nt + 6);
                        sz[q]  = c.draw(9) + (off[q] < nt ? nt - off[q] : 0);
                    }
                    for (size_t k = 0; k < sz[q] && off[q] + k < nt; k++) ids[q].push_back(off[q] + k);
                }
                else if (kind == 1) {
                    ids[q] = c.increasing(c.chance(1, 5) ? 0 : c.size_in(0, nt), nt);
                    sz[q]  = ids[q].size();
                }
                else {
                    size_t n = c.chance(1, 5) ? 0 : c.size_in(1, 2 * nt);
                    std::set<size_t> seen;
                    for (size_t k = 0; k < n; k++) {
                        ids[q].push_back(c.draw(nt));
                        dup = dup || !seen.insert(ids[q].back()).second;
                    }
                    sz[q] = n;
                }
            }
            size_t skip = c.chance(1, 2) ? 0 : c.draw(5), post = c.draw(3);
            c.desc << " | " << kinds[kind] << " " << whats[what] << " skip=" << skip;
            for (int q = 0; q < np; q++) {
                if (kind == 0 || kind == 3) c.desc << " [" << off[q] << "+" << sz[q] << "]";
                else c.desc << " " << vstr(ids[q], 12);
            }
            c.label(std::string(kinds[kind]));
            c.label_if(dup, "duplicates");
            c.label_if(skip > 0, "skip");
            bool any0 = false, anyn = false;
            for (int q = 0; q < np; q++) (sz[q] ? anyn : any0) = true;
            c.label_if(any0 && anyn && np > 1, "some processes ask for nothing");
            c.nontrivial((kind != 0 || skip > 0) && anyn && nt > 1);
            if (c.failed) continue;

            const size_t n = sz[me], got = ids[me].size();
            off[me] += far;
            for (auto& x : ids[me]) x += far;
            // sample buffer with guard words on both sides
            const size_t G = 5;
            std::vector<uint32_t> buf(n * ns + 2 * G, 0xA5A5A5A5u);
            float* tp = reinterpret_cast<float*>(buf.data() + G);
            auto rule = R.make();
            EP::Param p(rule, skip + n + post);
            for (auto& x : p.f) x = 12345.5;
            for (auto& x : p.i) x = 54321;
            for (auto& x : p.s) x = 777;
            for (auto& x : p.t) x = 99999;
            for (auto& x : p.c) x = 0x5A;
            EP::Param* pp = what == 1 ? PIOL_PARAM_NULL : &p;
            if (kind == 0 || kind == 3) {
                if (what == 0) ri->readTrace(off[me], n, tp, pp, skip);
                else if (what == 1) ri->readTrace(off[me], n, tp, PIOL_PARAM_NULL, 0);
                else ri->readParam(off[me], n, pp, skip);
            }
            else if (kind == 1) {
                if (what == 0) ri->readTraceNonContiguous(n, ids[me].data(), tp, pp, skip);
                else if (what == 1) ri->readTraceNonContiguous(n, ids[me].data(), tp, PIOL_PARAM_NULL, 0);
                else ri->readParamNonContiguous(n, ids[me].data(), pp, skip);
            }
            else {
                if (what == 0) ri->readTraceNonMonotonic(n, ids[me].data(), tp, pp, skip);
                else if (what == 1) ri->readTraceNonMonotonic(n, ids[me].data(), tp, PIOL_PARAM_NULL, 0);
                else ri->readTraceNonMonotonic(n, ids[me].data(), const_cast<float*>(EP::TRACE_NULL), pp, skip);
            }
            // samples
            for (size_t k = 0; k < buf.size() && !c.failed; k++) {
                uint32_t want = 0xA5A5A5A5u;
                if (what != 2 && k >= G && k < G + got * ns) {
                    size_t q = k - G;
                    want     = f.tr[ids[me][q / ns] - far].s[q % ns];
                }
                if (buf[k] != want)
                    c.fail("step " + std::to_string(st) + " (" + kinds[kind] + "): sample word " + std::to_string(int64_t(k) - int64_t(G)) + " is "
                           + std::to_string(buf[k]) + ", want " + std::to_string(want)
                           + (k < G || k >= G + got * ns ? " (outside the traces returned)" : ""));
            }
            // parameters
            for (size_t k = 0; k < skip + n + post && !c.failed; k++) {
                bool in = what != 1 && k >= skip && k < skip + got;
                if (in) {
                    auto d = prm_vs_header(&p, k, R, f.tr[ids[me][k - skip] - far].h.data());
                    if (!d.empty()) c.fail("step " + std::to_string(st) + " (" + kinds[kind] + "): entry " + std::to_string(k) + " of trace " + std::to_string(ids[me][k - skip]) + ": " + d);
                    size_t l = EP::param_utils::getPrm<size_t>(k, PIOL_META_ltn, &p);
                    if (ltn) c.eq(l, ids[me][k - skip], "local trace number of entry " + std::to_string(k));
                }
                else {
                    bool ok = true;
                    auto& r = *rule;
                    for (size_t x = 0; x < r.numFloat; x++) ok = ok && p.f[k * r.numFloat + x] == 12345.5;
                    for (size_t x = 0; x < r.numLong; x++) ok = ok && p.i[k * r.numLong + x] == 54321;
                    for (size_t x = 0; x < r.numShort; x++) ok = ok && p.s[k * r.numShort + x] == 777;
                    for (size_t x = 0; x < r.numIndex; x++) ok = ok && p.t[k * r.numIndex + x] == 99999;
                    if (r.numCopy) for (size_t x = 0; x < 240; x++) ok = ok && p.c[k * 240 + x] == 0x5A;
                    c.check(ok, "step " + std::to_string(st) + " (" + kinds[kind] + "): parameter entry " + std::to_string(k) + " outside the region asked for was changed");
                }
            }
        }
        c.check(!is_err(piol), "a valid read recorded an error");
    }
    drop(fn);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
