// C01: trace samples survive write/read bit for bit, any split, any call history.
#include "common.hh"

struct Op {
    bool list;
    bool with_prm;
    std::vector<Sv> ids;  // per rank, ascending
};

static void prop(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    size_t ns;
    bool big = c.chance(1, 25);
    if (big) ns = size_t(c.pick(std::vector<size_t>{32767, 32766, 16384, 8191, 1000}));
    else ns = c.size_in(1, 64);
    size_t nt   = big ? c.size_in(1, 4) : c.count_in(1, 48, ns <= 8 ? 70000 : 5000);
    int style   = int(c.draw(S_NSTYLES));
    uint64_t ds = c.draw(1 << 20);
    IoOpt wio = gen_io(c, 240 + 4 * ns), rio = gen_io(c, 240 + 4 * ns);
    int prm_mode = int(c.draw(3));  // 0 none, 1 all, 2 per op

    // Split the traces into batches of contiguous or interleaved traces
    std::vector<Op> ops;
    size_t nb = c.size_in(1, 4);
    bool inter = c.chance(1, 3);
    std::vector<Sv> batches(nb);
    if (inter) { for (size_t t = 0; t < nt; t++) batches[c.draw(nb)].push_back(t); }
    else {
        auto p = c.partition(nt, nb);
        size_t o = 0;
        for (size_t b = 0; b < nb; b++) for (size_t k = 0; k < p[b]; k++) batches[b].push_back(o++);
    }
    auto order = c.permutation(nb);
    const size_t far = gen_far(c, ns);
    bool uneven = false, anylist = false;
    for (size_t bi : order) {
        auto& b = batches[bi];
        Op o;
        bool contig = b.empty() || b.back() - b.front() + 1 == b.size();
        o.list      = !contig || c.chance(1, 2);
        o.with_prm  = prm_mode == 1 || (prm_mode == 2 && c.flip());
        o.ids.resize(np);
        if (o.list && c.chance(1, 2)) { for (size_t t : b) o.ids[c.draw(np)].push_back(t); }
        else {
            auto p   = c.partition(b.size(), np);
            size_t k = 0;
            for (int r = 0; r < np; r++) for (size_t i = 0; i < p[r]; i++) o.ids[r].push_back(b[k++]);
        }
        for (int r = 1; r < np; r++) uneven |= o.ids[r].size() != o.ids[0].size();
        anylist |= o.list;
        ops.push_back(o);
    }
    c.desc << "ns=" << ns << " nt=" << nt << " after " << far << " style=" << style << " io=" << wio.str() << "/" << rio.str()
           << " ops=" << ops.size() << (inter ? " interleaved" : " contiguous");
    for (auto& o : ops) {
        c.desc << " {" << (o.list ? "list" : "range") << (o.with_prm ? "+prm" : "") << ":";
        for (auto& v : o.ids) c.desc << vstr(v, 6);
        c.desc << "}";
    }
    c.label_if(np > 1 && uneven, "uneven split");
    c.label_if(anylist, "list write");
    c.label_if(ops.size() > 1, "several writes");
    c.label_if(big, "long traces");
    c.label_if(style >= S_ANYBITS, "arbitrary bits");
    c.nontrivial(nt > 1 && (ops.size() > 1 || np > 1 || style >= S_ANYBITS));

    std::string f = c.path("c01.segy");
    auto piol     = new_piol();
    bool buf_changed = false;
    {
        auto w = open_write(piol, f, wio);
        w->writeNs(ns);
        w->writeNt(far + nt);
        w->writeInc(0.004);
        w->writeText("C01 trace round trip");
        auto rule = std::make_shared<EP::Rule>(true, true);
        for (auto& o : ops) {
            auto ids = o.ids[me];
            // An exact-size heap buffer: overruns are caught by the sanitizer.
            std::vector<float> buf(ids.size() * ns);
            for (size_t k = 0; k < ids.size(); k++)
                for (size_t j = 0; j < ns; j++) {
                    uint32_t u = sample_bits(style, ds, ids[k], j);
                    memcpy(&buf[k * ns + j], &u, 4);
                }
            std::vector<float> keep = buf;
            EP::Param prm(rule, ids.size());
            if (o.with_prm)
                for (size_t k = 0; k < ids.size(); k++) EP::param_utils::setPrm(k, PIOL_META_tn, int64_t(ids[k]), &prm);
            for (auto& t : ids) t += far;
            const EP::Param* pp = o.with_prm ? &prm : PIOL_PARAM_NULL;
            if (o.list) w->writeTraceNonContiguous(ids.size(), ids.data(), buf.data(), pp);
            else w->writeTrace(ids.empty() ? 0 : ids[0], ids.size(), buf.data(), pp);
            if (!buf.empty() && memcmp(buf.data(), keep.data(), 4 * buf.size()) != 0) buf_changed = true;
        }
    }
    barrier();
    c.check(!buf_changed, "the write call changed the caller's sample buffer");
    c.check(!is_err(piol), "a valid write recorded an error");

    // 1. The bytes on disk, through the independent decoder
    if (me == 0) {
        const size_t base = 3600 + far * (240 + 4 * ns);
        c.eq(ref::size_of(f), base + nt * (240 + 4 * ns), "file size");
        auto b = ref::slurp(f, base, nt * (240 + 4 * ns));
        if (far) c.check(ref::data_from(f, 8192, base) + 8192 > base, "something was written where no trace was");
        for (size_t t = 0; t < nt && !c.failed; t++)
            for (size_t j = 0; j < ns; j++) {
                size_t at  = t * (240 + 4 * ns) + 240 + 4 * j;
                uint32_t g = at + 4 <= b.size() ? ref::getu32(&b[at]) : 0, w = sample_bits(style, ds, t, j);
                if (g != w) {
                    std::ostringstream s;
                    s << std::hex << "sample on disk of trace " << std::dec << t << "[" << j << "]: got 0x" << std::hex << g << " want 0x" << w;
                    c.fail(s.str());
                    break;
                }
            }
    }
    // 2. Through the library with another split
    {
        auto part   = c.partition(nt, np);
        bool prm    = c.flip();
        bool list   = c.flip();
        c.desc << " read " << vstr(part) << (list ? " list" : " range") << (prm ? "+prm" : "");
        auto r      = open_read(piol, f, rio);
        c.eq(r->readNs(), ns, "readNs");
        c.eq(r->readNt(), far + nt, "readNt");
        if (c.all_ok()) {
            size_t off = offset_of(part, me), n = part[me];
            std::vector<float> buf(n * ns);
            EP::Param p(n);
            EP::Param* pp = prm ? &p : PIOL_PARAM_NULL;
            Sv ids(n);
            for (size_t k = 0; k < n; k++) ids[k] = far + off + k;
            if (list) r->readTraceNonContiguous(n, ids.data(), buf.data(), pp);
            else r->readTrace(far + off, n, buf.data(), pp);
            for (size_t k = 0; k < n && !c.failed; k++)
                for (size_t j = 0; j < ns; j++) {
                    uint32_t g, w = sample_bits(style, ds, off + k, j);
                    memcpy(&g, &buf[k * ns + j], 4);
                    if (g != w) {
                        std::ostringstream s;
                        s << "read back trace " << off + k << "[" << j << "]: got 0x" << std::hex << g << " want 0x" << w;
                        c.fail(s.str());
                        break;
                    }
                }
        }
    }
    c.check(!is_err(piol), "a valid read recorded an error");
    drop(f);
}

int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
