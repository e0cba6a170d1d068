// C05: a write changes only what it names (byte model of the whole file).
#include "common.hh"

static void prop(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    size_t ns   = c.size_in(1, 24);
    size_t nt   = c.count_in(1, 24, 2000);
    uint64_t ds = c.draw(1 << 20);
    RuleSpec R[2] = {gen_rule(c), gen_rule(c)};
    IoOpt io    = gen_io(c, 240 + 4 * ns);
    const size_t far = gen_far(c, ns);  // the traces before these are a hole
    const uint64_t base = 3600 + far * (240 + 4 * ns);
    auto image = [&](const std::string& name) {
        auto b = ref::slurp(name, 0, 3600);
        if (ref::size_of(name) <= 3600) { b.resize(3600); return b; }
        auto t = ref::slurp(name, base, size_t(ref::size_of(name) > base ? ref::size_of(name) - base : 0));
        b.resize(3600);
        b.insert(b.end(), t.begin(), t.end());
        return b;
    };
    bool preset = c.flip();  // start from a file full of foreign bytes
    // the number of traces is told, or follows from what is written of a new file
    const bool told = preset || !c.chance(1, 4);
    size_t nops = c.size_in(1, 10);
    std::string text = "C05 header";
    int inc          = 2000;

    ref::File m;
    m.ns = ns; m.inc_us = inc; m.text = text;
    m.text.resize(3200);
    m.tr.resize(nt);
    for (auto& t : m.tr) t.s.assign(ns, 0);
    std::string fn = c.path("c05.segy");
    if (preset) {
        for (size_t t = 0; t < nt; t++) {
            for (size_t b = 0; b < 240; b++) m.tr[t].h[b] = raw_byte(ds, 1000, t, b);
            for (size_t j = 0; j < ns; j++) m.tr[t].s[j] = sample_bits(S_ANYBITS, ds + 1, t, j);
        }
        if (me == 0) {
            auto b = m.encode();
            unlink(fn.c_str());
            ref::spit(fn, 0, b.data(), 3600);
            ref::spit(fn, base, b.data() + 3600, b.size() - 3600);
        }
        barrier();
    }
    c.desc << "ns=" << ns << " nt=" << nt << " after " << far << (preset ? " existing-file " : told ? " new-file " : " new-file of no told length ") << io.str() << " R0=" << R[0].str() << " R1=" << R[1].str();

    auto piol = new_piol();
    std::shared_ptr<EP::Rule> rule[2] = {R[0].make(), R[1].make()};
    std::unique_ptr<EP::WriteDirect> w;
    auto open = [&] {
        w = open_write(piol, fn, io);
        if (told) w->writeNt(far + nt);
        w->writeNs(ns);
        w->writeInc(inc * 1e-6);
        w->writeText(text);
    };
    open();
    bool overlap = false, mixed = false;
    std::vector<int> touched(nt, 0);
    for (size_t o = 0; o < nops; o++) {
        if (told && c.chance(1, 8)) {
            c.desc << " reopen";
            c.label("reopen");
            w.reset();
            barrier();
            open();
        }
        Sv set;
        if (c.flip()) {
            size_t lo = c.draw(nt), n = c.draw(nt - lo + 1);
            for (size_t t = lo; t < lo + n; t++) set.push_back(t);
        }
        else for (size_t t = 0; t < nt; t++) if (c.chance(1, 3)) set.push_back(t);
        int what = int(c.draw(3));
        int ri   = int(c.draw(2));
        Share sh = gen_share(c, set, np);
        c.desc << " " << "btp"[what] << ri << ":" << sh.str();
        for (size_t t : set) { if (touched[t]) overlap = true; touched[t] |= 1 << what; if (touched[t] & (touched[t] - 1)) mixed = true; }
        auto ids = sh.ids[me];
        std::vector<float> buf(ids.size() * ns);
        for (size_t k = 0; k < ids.size(); k++)
            for (size_t j = 0; j < ns; j++) {
                uint32_t u = sample_bits(S_ANYBITS, ds + 10 + o, ids[k], j);
                memcpy(&buf[k * ns + j], &u, 4);
            }
        for (auto& t : ids) t += far;
        float dummy = 0;
        float* tp   = what == 2 ? nullptr : buf.empty() ? &dummy : buf.data();
        if (what == 1) do_write(*w, sh, ids, tp, PIOL_PARAM_NULL);
        else {
            EP::Param p(rule[ri], ids.size());
            for (size_t k = 0; k < ids.size(); k++) fill_param(&p, k, R[ri], ds, o, ids[k] - far);
            do_write(*w, sh, ids, tp, &p);
        }
        for (size_t t : set) {
            if (what != 2) for (size_t j = 0; j < ns; j++) m.tr[t].s[j] = sample_bits(S_ANYBITS, ds + 10 + o, t, j);
            if (what != 1) m.tr[t].h = ref_header(R[ri], ds, o, t);
        }
        // check in mid-history as well: everything but the file header is on disk
        if (c.chance(1, 4)) {
            barrier();
            if (me == 0) {
                auto b = image(fn), want = m.encode();
                b.resize(want.size());
                std::fill(b.begin(), b.begin() + 3600, 0);
                std::fill(want.begin(), want.begin() + 3600, 0);
                if (b != want) c.fail("after operation " + std::to_string(o) + " the file differs from the model: " + hexdiff(b, want));
            }
            barrier();
        }
    }
    w.reset();
    barrier();
    if (!told) {
        size_t n = 0;
        for (size_t t = 0; t < nt; t++) if (touched[t]) n = t + 1;
        m.tr.resize(n);
        c.label("number of traces not told");
    }
    c.label_if(overlap, "overlapping writes");
    c.label_if(mixed, "samples and headers written separately");
    c.label_if(preset, "existing file");
    c.nontrivial(nops > 1 && (overlap || mixed));
    c.check(!is_err(piol), "a valid write recorded an error");
    if (me == 0) {
        auto b = image(fn), want = m.encode();
        if (far) c.check(ref::data_from(fn, 8192, base) + 8192 > base, "something was written where no trace was");
        if (b != want) {
            std::string d = hexdiff(b, want);
            size_t dosz = 240 + 4 * ns, i = 0;
            while (i < std::min(b.size(), want.size()) && b[i] == want[i]) i++;
            if (i >= 3600) d += " = trace " + std::to_string((i - 3600) / dosz) + " byte " + std::to_string((i - 3600) % dosz + 1);
            c.fail("the file differs from the model: " + d);
        }
    }
    drop(fn);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
