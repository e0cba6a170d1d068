// C06: file-level header fields round trip; sizes are consistent.
#include "common.hh"

static std::string gen_text(Ctx& c)
{
    size_t n = 0;
    switch (c.draw(6)) {
        case 0: n = 0; break;
        case 1: n = 1 + c.draw(20); break;
        case 2: n = 3200; break;
        case 3: n = 3199; break;
        default: n = 1 + c.draw(3200); break;
    }
    std::string s(n, ' ');
    uint64_t seed = c.draw(1 << 20);
    int style     = int(c.draw(4));
    for (size_t i = 0; i < n; i++) {
        uint64_t h = hash({seed, i, 3});
        switch (style) {
            case 0: s[i] = char('A' + h % 8); break;
            case 1: s[i] = char(32 + h % 95); break;
            case 2: s[i] = (i % 80 == 79) ? '\n' : char(32 + h % 95); break;
            default: s[i] = char(h % 3 ? 'a' + h % 26 : ' '); break;
        }
    }
    // A text is recognised as ASCII by characters EBCDIC does not have: keep one (see DESIGN.md).
    if (n) s[hash({seed, 5}) % n] = "C 0123456789ABCDEFGHI"[hash({seed, 6}) % 20];
    return s;
}

static void prop(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    std::string text;
    size_t ns = 0, nt = 0;
    int k = 0;
    bool incset = false;
    // how the file is opened
    bool over      = c.chance(1, 4);
    double factors[] = {1e-6, 1e-3, 1., 0.5e-6, 2.};
    int fi         = c.chance(2, 3) ? 0 : int(c.draw(5));
    double factor  = factors[fi];
    int rfi        = fi;
    IoOpt io       = gen_io(c, 600);
    struct Op { int what; size_t v; std::string t; int k; double fr; };
    std::vector<Op> ops;
    size_t nops = c.size_in(0, 7);
    bool wide   = c.chance(1, 12);
    for (size_t i = 0; i < nops; i++) {
        Op o{};
        o.what = int(c.draw(4));
        switch (o.what) {
            case 0: o.t = gen_text(c); text = o.t; break;
            case 1: o.v = wide ? 32767 - c.draw(3) : c.size_in(0, 60); ns = o.v; break;
            case 2: o.v = c.chance(1, 6) ? (size_t(1) << (8 + c.draw(wide ? 10 : 20))) + c.draw(3) - 1 : c.size_in(0, 60); nt = o.v; break;
            case 3:
                o.k  = c.flip() ? int(1 + c.draw(32767)) : int(32767 - c.draw(2));
                o.fr = (double(c.draw(99)) - 49.) / 100.;
                if (c.chance(1, 10)) { o.k = -o.k; }
                k = o.k;
                incset = true;
                break;
        }
        ops.push_back(o);
    }
    size_t nw = c.draw(3);
    if (nw && ns == 0) {  // the trace length has to be known before traces are written
        Op o{};
        o.what = 1;
        o.v = ns = 1 + c.draw(20);
        ops.push_back(o);
    }
    if (!ns) over = false;
    const size_t far = nw ? gen_far(c, ns) : 0;
    std::vector<Share> writes;
    std::vector<int> kinds;
    size_t hi = 0;
    for (size_t w = 0; w < nw; w++) {
        size_t lim = 1 + c.draw(30);
        Sv set;
        if (c.flip()) { size_t a = c.draw(lim + 1); for (size_t t = a; t < lim; t++) set.push_back(t); }
        else set = c.increasing(c.draw(lim + 1), lim);
        for (auto& t : set) t += far;
        writes.push_back(gen_share(c, set, np));
        kinds.push_back(int(c.draw(3)));
        if (!set.empty()) hi = std::max(hi, set.back() + 1);
    }
    bool late = nw && c.chance(1, 3);  // the count, text and interval given after the traces
    size_t lnt = 0;
    if (late) { lnt = hi + c.draw(10); nt = std::max(lnt, hi); }
    std::string ltext;
    bool late_text = late && c.flip();
    if (late_text) { ltext = gen_text(c); text = ltext; }
    size_t expect_nt = late ? std::max(lnt, hi) : std::max(nt, hi);
    c.desc << (over ? "overwrite " : "") << "ops:";
    for (auto& o : ops) {
        if (o.what == 0) c.desc << " text(" << o.t.size() << ")";
        if (o.what == 1) c.desc << " ns(" << o.v << ")";
        if (o.what == 2) c.desc << " nt(" << o.v << ")";
        if (o.what == 3) c.desc << " inc(" << o.k << "+" << o.fr << ")";
    }
    for (size_t w = 0; w < nw; w++) c.desc << " write" << kinds[w] << writes[w].str();
    if (late) c.desc << " late nt(" << lnt << ") text(" << ltext.size() << ")";
    c.desc << " factor=" << factor << " " << io.str();
    c.label_if(over, "over an existing file");
    c.label_if(nw > 0 && hi > nt, "count from the traces written");
    c.label_if(nt > hi, "count asked for");
    c.label_if(late, "header given after the traces");
    c.label_if(text.size() == 3200, "full text header");
    c.label_if(ns > 32000, "longest traces");
    c.nontrivial((text.size() > 0) + (ns > 0) + (expect_nt > 0) + incset >= 3);

    std::string fn = c.path("c06.segy");
    if (over && me == 0) ref::spit(fn, ref::Bytes(3600 + 90000, 0xEE));
    barrier();
    auto piol = new_piol();
    {
        EP::DataMPIIO::Opt d;
        if (io.use) { d.coll = io.coll; d.maxSize = std::max<size_t>(io.maxSize, 2 * (240 + 4 * ns) + 3600); }
        EP::ObjectSEGY::Opt ob;
        EP::WriteSEGY::Opt f;
        f.incFactor = factor;
        std::unique_ptr<EP::WriteDirect> w;
        if (!io.use && fi == 0) w = std::make_unique<EP::WriteDirect>(piol, fn);
        else w = std::make_unique<EP::WriteDirect>(piol, fn, d, ob, f);
        for (auto& o : ops) {
            if (o.what == 0) w->writeText(o.t);
            if (o.what == 1) w->writeNs(o.v);
            if (o.what == 2) w->writeNt(o.v);
            if (o.what == 3) w->writeInc((o.k + o.fr) * factor);
        }
        auto rule = std::make_shared<EP::Rule>(true, true);
        for (size_t i = 0; i < nw; i++) {
            auto& ids = writes[i].ids[me];
            std::vector<float> buf(ids.size() * ns + 1, 1.5f);
            EP::Param p(rule, ids.size());
            // a process that writes nothing may name any position
            size_t off = ids.empty() ? hash({i, uint64_t(me)}) % 100 : ids[0];
            if (kinds[i] == 0) {
                if (writes[i].list) w->writeTraceNonContiguous(ids.size(), ids.data(), buf.data(), &p);
                else w->writeTrace(off, ids.size(), buf.data(), &p);
            }
            else if (kinds[i] == 1) {
                if (writes[i].list) w->writeTraceNonContiguous(ids.size(), ids.data(), buf.data());
                else w->writeTrace(off, ids.size(), buf.data());
            }
            else {
                if (writes[i].list) w->writeParamNonContiguous(ids.size(), ids.data(), &p);
                else w->writeParam(off, ids.size(), &p);
            }
        }
        if (late) {
            w->writeNt(lnt);
            if (late_text) w->writeText(ltext);
        }
    }
    c.check(!is_err(piol), "valid calls recorded an error");
    barrier();
    if (me == 0) {
        auto b = ref::slurp(fn, 0, 3600);
        c.eq(ref::size_of(fn), 3600 + expect_nt * (240 + 4 * ns), "file size (nt " + std::to_string(expect_nt) + ", ns " + std::to_string(ns) + ")");
        ref::File rf;
        rf.text   = text;
        rf.ns     = ns;
        rf.inc_us = incset ? k : 0;
        auto h    = rf.header();
        if (!c.failed) {
            b.resize(3600);
            if (b != h) c.fail("file header: " + hexdiff(b, h));
        }
    }
    if (c.all_ok()) {
        EP::DataMPIIO::Opt d;
        EP::ObjectSEGY::Opt ob;
        EP::ReadSEGY::Opt f;
        if (c.chance(1, 3)) rfi = int(c.draw(5));
        f.incFactor = factors[rfi];
        std::unique_ptr<EP::ReadDirect> r;
        if (rfi == 0) r = std::make_unique<EP::ReadDirect>(piol, fn);
        else r = std::make_unique<EP::ReadDirect>(piol, fn, d, ob, f);
        c.eq(r->readNs(), ns, "samples per trace read back");
        c.eq(r->readNt(), expect_nt, "trace count read back");
        double wi = (incset ? k : 0) * factors[rfi];
        c.check(std::fabs(r->readInc() - wi) <= 1e-9 * std::fabs(wi), "interval read back: got " + std::to_string(r->readInc()) + " want " + std::to_string(wi));
        std::string t = text;
        t.resize(3200, '\0');
        std::string g = r->readText();
        if (g != t) {
            size_t i = 0;
            while (i < t.size() && i < g.size() && g[i] == t[i]) i++;
            c.fail("text read back: size " + std::to_string(g.size()) + ", first difference at " + std::to_string(i));
        }
        c.check(!is_err(piol), "opening a valid file recorded an error");
    }
    drop(fn);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
