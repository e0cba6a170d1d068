// C21: I/O failures and invalid requests are reported, not swallowed.
// MPI-IO calls pass through this file: the k-th one of a process can be made to fail.
#include "common.hh"
#include "ExSeisDat/PIOL/Logger.hh"

namespace fault {
enum Kind { NONE, ERROR, SHORT, NOTHING_MOVED, VIEW_LOST, NKINDS };
const char* NAME[] = {"none", "error", "short transfer", "nothing moved", "view lost"};
bool on = false;
long count = 0;           // calls met so far
long first = -1, last = -1;  // calls to fail
Kind kind = NONE;
size_t num = 1, den = 2;  // part of a short transfer which is made
long hits = 0;
int err = MPI_ERR_IO;
bool armed(bool transfer, bool empty)
{
    if (!on) return false;
    long k = count++;
    if (k < first || k > last) return false;
    if (kind == NONE) return false;
    // nothing is less than nothing
    if (transfer && empty && kind != ERROR && kind != VIEW_LOST) return false;
    hits++;
    return true;
}
}  // namespace fault

template<class F> static int xfer(F f, int n)
{
    if (!fault::armed(true, n == 0)) return f(n);
    switch (fault::kind) {
        case fault::SHORT: { int m = int(size_t(n) * fault::num / fault::den); if (m >= n) m = n - 1; return f(m); }
        case fault::NOTHING_MOVED: return f(0);
        default: f(0); return fault::err;
    }
}
extern "C" {
int MPI_File_read_at(MPI_File h, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return xfer([&](int m) { return PMPI_File_read_at(h, o, b, m, t, s); }, n); }
int MPI_File_read_at_all(MPI_File h, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return xfer([&](int m) { return PMPI_File_read_at_all(h, o, b, m, t, s); }, n); }
int MPI_File_write_at(MPI_File h, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return xfer([&](int m) { return PMPI_File_write_at(h, o, b, m, t, s); }, n); }
int MPI_File_write_at_all(MPI_File h, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return xfer([&](int m) { return PMPI_File_write_at_all(h, o, b, m, t, s); }, n); }
int MPI_File_set_view(MPI_File h, MPI_Offset d, MPI_Datatype e, MPI_Datatype f, const char* r, MPI_Info i)
{
    if (!fault::armed(false, false)) return PMPI_File_set_view(h, d, e, f, r, i);
    // the process is left with the plain view, or (harmlessly) with the one it asked for
    if (fault::kind == fault::VIEW_LOST) PMPI_File_set_view(h, 0, MPI_CHAR, MPI_CHAR, "native", i);
    else PMPI_File_set_view(h, d, e, f, r, i);
    return fault::err;
}
int MPI_File_set_size(MPI_File h, MPI_Offset n)
{
    if (!fault::armed(false, false)) return PMPI_File_set_size(h, n);
    PMPI_File_set_size(h, n);
    return fault::err;
}
}

struct Quiet {
    std::streambuf* o;
    Quiet() : o(std::cerr.rdbuf(nullptr)) {}
    ~Quiet() { std::cerr.rdbuf(o); std::cerr.clear(); }
};
static size_t reports(const std::shared_ptr<EP::ExSeis>& p)
{
    size_t n = 0;
    for (auto& i : p->log->loglist()) n += i.stat == EP::Logger::Status::Error || i.stat == EP::Logger::Status::Warning;
    return n;
}
static std::string said(const std::shared_ptr<EP::ExSeis>& p)
{
    for (auto& i : p->log->loglist()) return i.msg;
    return "";
}

// ------------------------------------------------------------ faults
static void faults(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    size_t ns = c.size_in(1, 24), nt = c.size_in(1, 30);
    bool writing = c.flip();
    int style = int(c.draw(2)) ? S_INDEX : S_NORMAL;
    uint64_t ds = c.draw(1u << 20);
    IoOpt io = gen_io(c, 240 + 4 * ns);
    RuleSpec rule = gen_rule(c, true, false);
    struct Op { int what; Share s; };
    std::vector<Op> ops;
    size_t nops = 1 + c.size_in(0, 4);
    std::ostringstream d;
    for (size_t k = 0; k < nops; k++) {
        Op o;
        o.what = int(c.draw(3));  // 0: samples 1: samples and headers 2: headers
        Sv set;
        bool all = c.flip();
        for (size_t t = 0; t < nt; t++) if (all || c.flip()) set.push_back(t);
        o.s = gen_share(c, set, np);
        d << " " << (o.what == 0 ? "samples" : o.what == 1 ? "traces" : "headers") << " " << o.s.str();
        ops.push_back(o);
    }
    bool ask = c.flip();  // the number of traces is given
    auto kind  = fault::Kind(1 + c.draw(fault::NKINDS - 1));
    int victim = int(c.draw(np));
    bool everyone = c.chance(1, 5);
    int howmany = int(c.draw(3));  // 0, 1: one call, 2: all from there
    uint64_t where = c.draw(1u << 20);
    size_t num = c.draw(4), den = 4;
    int err = c.flip() ? MPI_ERR_IO : MPI_ERR_NO_SPACE;
    c.desc << (writing ? "write" : "read") << " ns=" << ns << " nt=" << nt << (ask ? " count given" : "") << " rule=" << rule.str() << " io=" << io.str() << d.str()
           << " fault: " << fault::NAME[kind] << (howmany == 2 ? " from then on" : " once") << " process " << (everyone ? std::string("all") : std::to_string(victim))
           << " at " << where << " part " << num << "/" << den;

    std::string name = c.path("f.segy");
    auto sample = [&](size_t t, size_t j) { return sample_bits(style, ds, t, j); };
    ref::File F;
    F.ns = ns; F.inc_us = 1000; F.tr.resize(nt);
    F.text.assign(3200, 'x');
    for (size_t t = 0; t < nt; t++) {
        F.tr[t].h = ref_header(rule, ds, 0, t);
        for (size_t j = 0; j < ns; j++) F.tr[t].s.push_back(sample(t, j));
    }
    size_t dosz = 240 + 4 * ns;

    auto run = [&](bool inject, long k) -> std::vector<long> {
        // returns the calls met
        bool mine = inject && (everyone || victim == me);
        if (me == 0) { if (writing) unlink(name.c_str()); else ref::spit(name, F.encode()); }
        barrier();
        auto piol = new_piol();
        long total = 0;
        bool fhdr = false, fclose = false;
        std::vector<char> opbad(ops.size(), 0);
        auto step = [&](const std::string& what, auto f) -> bool {
            size_t before = reports(piol);
            fault::hits = 0;
            fault::on   = true;
            f();
            fault::on = false;
            size_t after = reports(piol);
            long h = fault::hits;
            if (h != 0 && after == before)
                c.fail(what + ": " + std::to_string(h) + " call(s) failed (" + fault::NAME[kind] + ") on process " + std::to_string(me) + " and nothing was recorded");
            if (h != 0 && kind != fault::NONE && (kind == fault::ERROR || kind == fault::VIEW_LOST) && !is_err(piol)) c.fail(what + ": a failed call left no error");
            if (!inject && after != before) c.fail(what + ": a valid call recorded: " + said(piol));
            return h != 0;
        };
        fault::count = 0;
        fault::kind = mine ? kind : fault::NONE;
        fault::first = k; fault::last = howmany == 2 ? 1 << 30 : k;
        fault::num = num; fault::den = den; fault::err = err;
        if (writing) {
            std::unique_ptr<EP::WriteDirect> w;
            fhdr |= step("open", [&] { w = open_write(piol, name, io); });
            fhdr |= step("file header", [&] { w->writeText(std::string(3200, 'x')); w->writeNs(ns); w->writeInc(0.001); if (ask) w->writeNt(nt); });
            for (size_t o = 0; o < ops.size(); o++) {
                auto& O = ops[o];
                auto& ids = O.s.ids[me];
                Fv trc(ids.size() * ns + 1, 7.f);
                for (size_t i = 0; i < ids.size(); i++) for (size_t j = 0; j < ns; j++) trc[i * ns + j] = ref::u2f(sample(ids[i], j));
                EP::Param prm(rule.make(), ids.size());
                for (size_t i = 0; i < ids.size(); i++) fill_param(&prm, i, rule, ds, 0, ids[i]);
                opbad[o] = step("write " + std::to_string(o), [&] {
                    do_write(*w, O.s, ids, O.what == 2 ? nullptr : trc.data(), O.what == 0 ? PIOL_PARAM_NULL : &prm);
                });
                // the caller's samples stay as they are
                for (size_t i = 0; i < ids.size() * ns; i++)
                    if (O.what != 2 && ref::f2u(trc[i]) != sample(ids[i / ns], i % ns)) { c.fail("the caller's samples changed"); break; }
            }
            fclose = step("close", [&] { w.reset(); });
        }
        else {
            std::unique_ptr<EP::ReadDirect> r;
            fhdr = step("open", [&] { r = open_read(piol, name, io); });
            if (!fhdr) { c.eq(r->readNs(), ns, "ns"); c.eq(r->readNt(), nt, "nt"); }
            // a process without the file's dimensions can not take part in reading it
            int lost = fhdr, anylost = 0;
            MPI_Allreduce(&lost, &anylost, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
            for (size_t o = 0; o < ops.size() && !anylost; o++) {
                auto& O = ops[o];
                auto& ids = O.s.ids[me];
                size_t n = ids.size();
                std::unique_ptr<float[]> trc(new float[n * ns]);
                for (size_t i = 0; i < n * ns; i++) trc[i] = ref::u2f(0x7fc12345u);
                EP::Param prm(rule.make(), n);
                opbad[o] = step("read " + std::to_string(o), [&] {
                    size_t off = n ? ids[0] : 0;
                    if (O.what == 2) {
                        if (O.s.list) r->readParamNonContiguous(n, ids.data(), &prm);
                        else r->readParam(off, n, &prm);
                    }
                    else {
                        EP::Param* p = O.what == 0 ? PIOL_PARAM_NULL : &prm;
                        if (O.s.list) r->readTraceNonContiguous(n, ids.data(), trc.get(), p);
                        else r->readTrace(off, n, trc.get(), p);
                    }
                });
                if (fhdr || opbad[o]) continue;
                for (size_t i = 0; i < n && !c.failed; i++) {
                    if (O.what != 2)
                        for (size_t j = 0; j < ns; j++)
                            if (ref::f2u(trc[i * ns + j]) != sample(ids[i], j)) { c.fail("read " + std::to_string(o) + " which recorded nothing: sample " + std::to_string(j) + " of trace " + std::to_string(ids[i])); break; }
                    if (O.what != 0) {
                        auto e = prm_vs_header(&prm, i, rule, F.tr[ids[i]].h.data());
                        if (!e.empty()) c.fail("read " + std::to_string(o) + " which recorded nothing: trace " + std::to_string(ids[i]) + " " + e);
                    }
                }
            }
            step("close", [&] { r.reset(); });
        }
        total = fault::count;
        fault::kind = fault::NONE;
        { Quiet q; piol.reset(); }
        barrier();
        if (writing) {
            // what the other calls wrote is in the file, and nothing else
            std::vector<char> b(ops.size() * np + 3 * np), mineb(ops.size() + 3);
            for (size_t o = 0; o < ops.size(); o++) mineb[o] = opbad[o];
            mineb[ops.size()] = fhdr; mineb[ops.size() + 1] = fclose;
            MPI_Allgather(mineb.data(), int(mineb.size()), MPI_CHAR, b.data(), int(mineb.size()), MPI_CHAR, MPI_COMM_WORLD);
            if (me == 0) {
                size_t S = mineb.size();
                bool anyclose = false, any = false;
                for (int p = 0; p < np; p++) { anyclose |= b[p * S + ops.size() + 1]; for (size_t i = 0; i < S - 1; i++) any |= b[p * S + i]; }
                std::vector<int> sgood(nt), hgood(nt), smay(nt), hmay(nt);
                for (size_t o = 0; o < ops.size(); o++)
                    for (int p = 0; p < np; p++)
                        for (auto t : ops[o].s.ids[p]) {
                            bool bad = b[p * S + o];
                            if (ops[o].what != 2) (bad ? smay : sgood)[t] = 1;
                            if (ops[o].what != 0) (bad ? hmay : hgood)[t] = 1;
                        }
                auto f = ref::slurp(name);
                auto want = F.encode();
                size_t fmax = 3600 + nt * dosz;
                if (f.size() > fmax) c.fail("the file is longer than its traces: " + std::to_string(f.size()));
                auto look = [&](size_t at, size_t n, int good, int may, const std::string& what) {
                    for (size_t i = at; i < at + n; i++) {
                        if (good && i >= f.size()) { c.fail(what + " is not in the file"); return; }
                        if (i >= f.size()) return;
                        uint8_t w = want[i];
                        bool ok = good ? f[i] == w : may ? f[i] == w || f[i] == 0 : f[i] == 0;
                        if (!ok) { c.fail(what + " byte " + std::to_string(i - at) + " is " + std::to_string(f[i]) + (good ? " want " + std::to_string(w) : " but no call which reported success wrote there")); return; }
                    }
                };
                for (size_t t = 0; t < nt && !c.failed; t++) {
                    look(3600 + t * dosz, 240, hgood[t], hmay[t], "header of trace " + std::to_string(t));
                    look(3840 + t * dosz, 4 * ns, sgood[t], smay[t], "samples of trace " + std::to_string(t));
                }
                auto hd = F.header();
                for (size_t i = 0; i < 3600 && i < f.size() && !c.failed; i++)
                    if (any ? (f[i] != 0 && f[i] != hd[i]) : i < 3200 && f[i] != 'x') c.fail("file header byte " + std::to_string(i) + " is " + std::to_string(f[i]));
            }
        }
        barrier();
        std::vector<long> all(np);
        MPI_Allgather(&total, 1, MPI_LONG, all.data(), 1, MPI_LONG, MPI_COMM_WORLD);
        return all;
    };
    auto calls = run(false, -1);
    if (!c.all_ok()) { drop(name); return; }
    long n = everyone ? *std::min_element(calls.begin(), calls.end()) : calls[victim];
    bool any = n > 0;
    if (any) {
        run(true, long(where % uint64_t(n)));
    }
    c.label(std::string("fault: ") + fault::NAME[kind]);
    c.label(writing ? "writing" : "reading");
    c.label_if(everyone, "on every process");
    c.label_if(howmany == 2, "persistent");
    c.nontrivial(any && nt > 1);
    drop(name);
}

// ------------------------------------------------------------ values SEG-Y can not hold
static void values(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    size_t ns = c.size_in(1, 8);
    IoOpt io = gen_io(c, 240 + 4 * ns);
    RuleSpec rule = gen_rule(c, false, true);
    size_t nt = c.size_in(1, 12);
    bool samples = c.flip();
    Sv set(nt);
    for (size_t t = 0; t < nt; t++) set[t] = t;
    Share s = gen_share(c, set, np);
    // most cases hold one value that is out of range, or none
    int mode = int(c.draw(4));  // 0: none 1, 2: one 3: any
    struct V { size_t t; size_t e; double f; int64_t i; };
    std::vector<V> vs;
    size_t nv = mode == 0 ? c.size_in(0, 4) : mode == 3 ? c.size_in(1, 6) : 1;
    std::vector<size_t> nums;
    for (size_t e = 0; e < rule.ent.size(); e++) if (rule.ent[e].type != ref::SHORT) nums.push_back(e);
    if (nums.empty()) nv = 0;
    const double FM = 2147483647. * 10000.;
    std::vector<int> bad(nt, 0), may(nt, 0);
    for (size_t k = 0; k < nv; k++) {
        V v;
        v.t = c.draw(nt);
        v.e = c.pick(nums);
        bool out = mode == 0 ? false : mode == 3 ? c.flip() : true;
        bool neg = c.flip();
        if (rule.ent[v.e].type == ref::LONG) {
            if (out) {
                switch (c.draw(4)) {
                    case 0: v.i = neg ? -2147483649l : 2147483648l; break;
                    case 1: v.i = neg ? -4294967296l : 4294967296l; break;
                    case 2: v.i = neg ? std::numeric_limits<int64_t>::min() : std::numeric_limits<int64_t>::max(); break;
                    default: v.i = int64_t(c.bits64());
                }
            }
            else v.i = neg ? (c.flip() ? -2147483648l : -int64_t(c.draw(1u << 31))) : (c.flip() ? 2147483647l : int64_t(c.draw(1u << 31)));
            v.f = 0;
            if (v.i != int64_t(int32_t(v.i))) bad[v.t] = 1;
        }
        else {
            if (out) {
                switch (c.draw(6)) {
                    case 0: v.f = FM + (neg ? 16000 : 6000); break;
                    case 1: v.f = FM * 2; break;
                    case 2: v.f = 1e300; break;
                    case 3: v.f = std::numeric_limits<double>::infinity(); break;
                    case 4: v.f = std::numeric_limits<double>::quiet_NaN(); break;
                    default: v.f = FM * (1.001 + double(c.draw(1000))); break;
                }
            }
            else v.f = c.flip() ? FM : double(c.draw(1u << 30)) * (c.flip() ? 1. : .0001) * (c.flip() ? 1. : 10000.);
            if (neg) v.f = -v.f;
            v.i = 0;
            if (!(v.f >= -FM - 14000 && v.f <= FM + 4000)) bad[v.t] = 1;
        }
        vs.push_back(v);
    }
    // a later value of the same entry replaces an earlier one: keep one of each
    for (auto& v : vs) for (auto& w : vs) if (&v != &w && v.t == w.t && v.e == w.e) may[v.t] = 1;
    c.desc << "values ns=" << ns << " nt=" << nt << " io=" << io.str() << " rule=" << rule.str() << " " << s.str() << (samples ? " with samples" : "");
    c.desc.precision(17);
    for (auto& v : vs) c.desc << " [" << v.t << " " << rule.ent[v.e].name << "=" << (rule.ent[v.e].type == ref::LONG ? double(v.i) : v.f) << (rule.ent[v.e].type == ref::LONG ? " " + std::to_string(v.i) : "") << "]";
    c.label("values out of range");
    c.nontrivial(!vs.empty() && nt > 1);
    std::string name = c.path("v.segy");
    if (me == 0) unlink(name.c_str());
    barrier();
    auto piol = new_piol();
    {
        auto w = open_write(piol, name, io);
        w->writeNs(ns);
        w->writeInc(0.001);
        auto& ids = s.ids[me];
        Fv trc(ids.size() * ns + 1, 1.f);
        EP::Param prm(rule.make(), ids.size());
        bool any = false, maybe = false;
        for (size_t i = 0; i < ids.size(); i++) {
            fill_param(&prm, i, rule, 5, 0, ids[i]);
            for (auto& v : vs)
                if (v.t == ids[i]) {
                    auto& f = rule.ent[v.e];
                    if (f.type == ref::LONG) EP::param_utils::setPrm(i, EP::Meta(f.meta), exseis::utils::Integer(v.i), &prm);
                    else EP::param_utils::setPrm(i, EP::Meta(f.meta), exseis::utils::Floating_point(v.f), &prm);
                }
            any |= bad[ids[i]] && !may[ids[i]];
            maybe |= may[ids[i]];
        }
        size_t before = reports(piol);
        if (samples) do_write(*w, s, ids, trc.data(), &prm);
        else do_write(*w, s, ids, nullptr, &prm);
        size_t after = reports(piol);
        if (any && after == before) c.fail("values SEG-Y can not hold were written on process " + std::to_string(me) + " and nothing was recorded");
        if (!any && !maybe && after != before) c.fail("values SEG-Y can hold were reported on process " + std::to_string(me) + ": " + said(piol));
    }
    { Quiet q; piol.reset(); }
    drop(name);
}

// ------------------------------------------------------------ requests which can not be met
static void requests(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    int what = int(c.draw(8));
    size_t ns = c.size_in(1, 16), nt = c.size_in(0, 12);
    IoOpt io = gen_io(c, 240 + 4 * ns);
    std::string dir = c.path("d"), name = c.path("r.segy");
    static const char* W[] = {"missing input", "missing directory", "directory as input", "directory as output", "samples", "interval", "range beyond the end", "list beyond the end"};
    c.label(std::string("request: ") + W[what]);
    uint64_t x = c.bits64();
    size_t past = c.size_in(1, 20), n = c.size_in(1, 20);
    int who = int(c.draw(np + 1));  // np: everyone
    bool hdr = c.flip(), smp = !hdr || c.flip();
    double inc = 0;
    switch (c.draw(9)) {
        case 0: inc = 0.; break;
        case 1: inc = std::numeric_limits<double>::infinity(); break;
        case 2: inc = std::numeric_limits<double>::quiet_NaN(); break;
        case 3: inc = 0.0327676; break;
        case 4: inc = -0.0327686; break;
        case 5: inc = 1e300; break;
        case 6: inc = 5e-324; break;
        case 7: inc = -std::numeric_limits<double>::infinity(); break;
        default: inc = 0.033 * (1. + double(x % 1000000)); break;
    }
    size_t bigns = x % 3 == 0 ? 32768 : x % 3 == 1 ? 65535 + x % 9 : (x | 32768);
    c.desc << W[what] << " io=" << io.str();
    if (what == 4) c.desc << " ns=" << bigns;
    if (what == 5) c.desc << " inc=" << inc;
    if (what >= 6) c.desc << " ns=" << ns << " nt=" << nt << " past=" << past << " n=" << n << " who=" << who << (hdr ? " headers" : "") << (smp ? " samples" : "");
    c.nontrivial(what >= 4 || io.use);
    if (me == 0) { unlink(name.c_str()); mkdir(dir.c_str(), 0700); }
    barrier();
    auto piol = new_piol();
    if (what < 4) {
        std::string f = what == 0 ? name : what == 1 ? dir + "/none/x.segy" : dir;
        if (what == 0 || what == 2) { auto r = open_read(piol, f, io); if (reports(piol) == 0) c.fail("the input could not be read, and nothing was recorded"); if (what == 0) { if (!is_err(piol)) c.fail("the input could not be opened, and no error was recorded"); c.eq(r->readNt(), size_t(0), "traces of a file which could not be opened"); } }
        else { auto w = open_write(piol, f, io); if (!is_err(piol)) c.fail("the output could not be opened, and no error was recorded"); }
        struct stat st;
        if (what == 0 && stat(name.c_str(), &st) == 0) c.fail("opening a missing input made a file");
    }
    else if (what < 6) {
        auto w = open_write(piol, name, io);
        if (what == 4) w->writeNs(bigns);
        else w->writeInc(inc);
        if (!is_err(piol)) c.fail(std::string("a number of samples or interval SEG-Y can not hold was accepted"));
    }
    else {
        ref::File F;
        F.ns = ns; F.inc_us = 1000; F.tr.resize(nt);
        for (size_t t = 0; t < nt; t++) { F.tr[t].h.fill(3); for (size_t j = 0; j < ns; j++) F.tr[t].s.push_back(sample_bits(S_INDEX, 1, t, j)); }
        if (me == 0) ref::spit(name, F.encode());
        barrier();
        auto r = open_read(piol, name, io);
        bool mine = who == np || who == me;
        // this process asks for n traces, of which the last ones (or all of them) lie beyond the end
        size_t off = nt + past > n ? nt + past - n : 0;
        size_t m   = mine ? nt + past - off : 0;
        Sv ids(m);
        for (size_t i = 0; i < m; i++) ids[i] = off + i;
        size_t in = 0;
        for (auto t : ids) in += t < nt;
        std::unique_ptr<float[]> trc(new float[m * ns]);
        for (size_t i = 0; i < m * ns; i++) trc[i] = ref::u2f(0x7fc12345u);
        EP::Param prm(m);
        size_t before = reports(piol);
        auto* p = hdr ? &prm : PIOL_PARAM_NULL;
        if (!smp) {
            if (what == 7) r->readParamNonContiguous(m, ids.data(), &prm);
            else r->readParam(off, m, &prm);
        }
        else if (what == 7) r->readTraceNonContiguous(m, ids.data(), trc.get(), p);
        else r->readTrace(off, m, trc.get(), p);
        size_t after = reports(piol);
        if (m != 0 && after == before) c.fail("only " + std::to_string(in) + " of the " + std::to_string(m) + " traces asked for are in the file, and nothing was recorded");
        if (m == 0 && after != before) c.fail("a process which asked for nothing recorded: " + said(piol));
        // those in the file are read
        if (smp)
            for (size_t i = 0; i < in * ns; i++)
                if (ref::f2u(trc[i]) != sample_bits(S_INDEX, 1, ids[i / ns], i % ns)) { c.fail("a trace in the file was not read"); break; }
    }
    { Quiet q; piol.reset(); }
    barrier();
    if (me == 0) rmdir(dir.c_str());
    drop(name);
}

// ------------------------------------------------------------ the log itself
static void logs(Ctx& c)
{
    int level = int(c.draw(4));
    size_t n = c.size_in(0, 30);
    EP::Logger L{EP::Verbosity(level)};
    EP::Logger D;
    size_t count[4] = {0, 0, 0, 0}, kept = 0;
    bool err = false;
    using St = EP::Logger::Status;
    const St all[] = {St::Error, St::Warning, St::Request};
    c.desc << "log level=" << level;
    for (size_t i = 0; i < n; i++) {
        int st = int(c.draw(3)), v = int(c.draw(4));
        bool cond = c.flip(), given = c.flip();
        c.desc << " " << st << "/" << v << (given ? cond ? "y" : "n" : "");
        if (given) L.record("f", EP::Logger::Layer::File, all[st], "m" + std::to_string(i), EP::Verbosity(v), cond);
        else L.record("f", EP::Logger::Layer::File, all[st], "m" + std::to_string(i), EP::Verbosity(v));
        if (given && !cond) continue;
        if (v <= level) { count[st]++; kept++; }
        err |= st == 0;
        c.eq(L.isErr(), err, "isErr");
    }
    size_t sz = 0;
    for (auto& i : L.loglist()) { (void)i; sz++; }
    c.eq(sz, kept, "items");
    for (int s = 0; s < 3; s++) c.eq(L.numStat(all[s]), count[s], "items of a status");
    {
        Quiet q;
        L.procLog();
    }
    c.eq(L.isErr(), err, "isErr after the items are printed");
    c.eq(L.numStat(St::Error), size_t(0), "errors after the items are printed");
    c.label("log");
    c.nontrivial(n > 3);
}

static void prop(Ctx& c)
{
    int w = int(c.draw(10));
    if (w < 6) faults(c);
    else if (w < 8) values(c);
    else if (w < 9 || c.flip()) requests(c);
    else logs(c);
}
int main(int a, char** v) { return pbt::run(a, v, prop); }
