// C19: the I/O layer reads and writes exactly the requested bytes.
#include "common.hh"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include <fcntl.h>
#include <unistd.h>

// What the layer asks of MPI: what its options say.
static struct Asked {
    size_t most = 0;                   // the most one call moves
    size_t together = 0, alone = 0;    // collective and independent transfers
    std::string hint;                  // found in the info object the file was opened with
    MPI_Comm want = MPI_COMM_WORLD;    // which it is to be opened on
    int same = MPI_UNEQUAL;            // how the one it was opened on compares
} asked;
static void moved(int n, MPI_Datatype t, bool all)
{
    int k = 1;
    PMPI_Type_size(t, &k);
    asked.most = std::max(asked.most, size_t(n) * size_t(k));
    (all ? asked.together : asked.alone)++;
}
extern "C" {
int MPI_File_open(MPI_Comm c, const char* n, int m, MPI_Info i, MPI_File* f)
{
    char v[64] = "";
    int has = 0;
    if (i != MPI_INFO_NULL) PMPI_Info_get(i, "exseisdat_check", 60, v, &has);
    asked.hint = has ? v : "";
    PMPI_Comm_compare(c, asked.want, &asked.same);
    return PMPI_File_open(c, n, m, i, f);
}
int MPI_File_read_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { moved(n, t, false); return PMPI_File_read_at(f, o, b, n, t, s); }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { moved(n, t, false); return PMPI_File_write_at(f, o, b, n, t, s); }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { moved(n, t, true); return PMPI_File_read_at_all(f, o, b, n, t, s); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { moved(n, t, true); return PMPI_File_write_at_all(f, o, b, n, t, s); }
int MPI_File_read(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { moved(n, t, false); return PMPI_File_read(f, b, n, t, s); }
int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { moved(n, t, false); return PMPI_File_write(f, b, n, t, s); }
int MPI_File_read_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s) { moved(n, t, true); return PMPI_File_read_all(f, b, n, t, s); }
int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s) { moved(n, t, true); return PMPI_File_write_all(f, b, n, t, s); }
}

// One round: every process asks for its own amount by the same kind of call.
struct Ask {
    size_t off = 0, bsz = 0, osz = 1, nb = 0;  // contiguous: nb bytes from off; strided: nb blocks
    std::vector<size_t> list;                  // listed: block offsets
};
enum Kind { CONTIG, STRIDE, LIST };
static const char* KN[] = {"contiguous", "strided", "listed"};

// ---------------------------------------------- few bytes over many gigabytes
static void wide(Ctx& c)
{
    int P = c.size();
    uint64_t seed = c.draw(1u << 20);
    bool coll = !c.chance(1, 3), deflt = c.chance(1, 4);
    size_t gap  = size_t(1) << (8 + c.draw(18));
    size_t span = size_t(1) << (32 + c.draw(5));
    size_t bsz  = 1 + c.size_in(0, 40);
    size_t most = std::min<size_t>(400, span / gap / size_t(P) + 1);
    // how many blocks a transfer may hold, so that a process makes a bounded number of them
    size_t k = most / 40 + 1 + c.draw(8);
    size_t maxsz = std::min<size_t>(size_t(1) << 31, std::max(k * gap, k * bsz * 2));
    struct R { Kind k; bool write; std::vector<Ask> a; };
    std::vector<R> rounds;
    size_t nr = 1 + c.draw(4), base = c.chance(1, 2) ? c.draw(5000) : c.bits64() % span;
    c.desc << "np=" << P << (deflt ? " default options" : coll ? " collective" : " independent") << " limit=" << maxsz << " wide";
    for (size_t r = 0; r < nr; r++) {
        R x;
        x.k     = c.flip() ? STRIDE : LIST;
        x.write = r == 0 || c.flip();
        c.desc << " {" << (x.write ? "write " : "read ") << KN[x.k];
        if (r && c.chance(1, 3)) base = c.bits64() % span;
        size_t at = base;
        for (int p = 0; p < P; p++) {
            Ask a;
            a.bsz = bsz;
            a.nb  = c.chance(1, 6) ? 0 : 1 + c.draw(most);
            a.osz = std::min<size_t>(std::max<size_t>(bsz, gap - c.draw(gap / 2)), size_t(1) << 31);
            if (x.write || c.flip()) a.off = at;
            else a.off = base;
            if (x.k == LIST) {
                size_t q = a.off;
                for (size_t i = 0; i < a.nb; i++) {
                    a.list.push_back(q);
                    q += bsz + hash({seed, r, uint64_t(p), i}) % gap;
                }
                at = std::max(at, q);
            }
            else at = std::max(at, a.off + a.nb * a.osz);
            c.desc << " " << a.off << "/" << a.bsz << "/" << (x.k == LIST ? 0 : a.osz) << "x" << a.nb;
            x.a.push_back(a);
        }
        c.desc << "}";
        rounds.push_back(x);
    }
    c.label("over gigabytes");
    auto where = [](const R& x, const Ask& q, size_t i) { return (x.k == STRIDE ? q.off + (i / q.bsz) * q.osz : q.list[i / q.bsz]) + i % q.bsz; };
    auto val = [&](size_t r, size_t p, size_t i) { return uint8_t(1 + hash({seed, r, p, i}) % 255); };
    std::map<size_t, uint8_t> model;
    auto got = [&](size_t at) { auto i = model.find(at); return i == model.end() ? uint8_t(0) : i->second; };
    std::string name = c.path("wide.bin");
    if (c.rank() == 0) unlink(name.c_str());
    barrier();
    asked.want = MPI_COMM_WORLD;
    {
        auto piol = new_piol(MPI_COMM_WORLD);
        EP::DataMPIIO::Opt o;
        if (!deflt) { o.coll = coll; o.maxSize = maxsz; }
        EP::DataMPIIO f(std::shared_ptr<EP::ExSeisPIOL>(piol), name, o, EP::FileMode::ReadWrite);
        // the whole of the span is in the file
        size_t fsz = 0;
        for (auto& x : rounds)
            for (auto& a : x.a) if (a.nb) fsz = std::max(fsz, where(x, a, a.nb * a.bsz - 1) + 1);
        f.setFileSz(fsz);
        barrier();
        for (size_t r = 0; r < rounds.size() && !c.failed; r++) {
            auto& x = rounds[r];
            auto& a = x.a[c.rank()];
            size_t n = a.nb * a.bsz;
            ref::Bytes b(n);
            for (size_t i = 0; i < n; i++) b[i] = x.write ? val(r, c.rank(), i) : uint8_t(~got(where(x, a, i)));
            // the default limit may be less than a stride wants of one call
            if (x.k == STRIDE) {
                if (x.write) f.write(a.off, a.bsz, a.osz, a.nb, b.data());
                else f.read(a.off, a.bsz, a.osz, a.nb, b.data());
            }
            else if (x.write) f.write(a.bsz, a.nb, a.list.data(), b.data());
            else f.read(a.bsz, a.nb, a.list.data(), b.data());
            if (x.write)
                for (int p = 0; p < P; p++) {
                    auto& q = x.a[p];
                    for (size_t i = 0; i < q.nb * q.bsz; i++) model[where(x, q, i)] = val(r, p, i);
                }
            else
                for (size_t i = 0; i < n; i++)
                    if (b[i] != got(where(x, a, i))) {
                        c.fail("round " + std::to_string(r) + ": byte " + std::to_string(i) + " read, at " + std::to_string(where(x, a, i)) + ", is " + std::to_string(b[i]) + " want " + std::to_string(got(where(x, a, i))));
                        break;
                    }
            barrier();
        }
        c.check(!is_err(piol), "an error was recorded");
        c.eq(f.getFileSz(), fsz, "file size");
    }
    barrier();
    // nothing else was written
    if (c.rank() == 0) {
        int fd = open(name.c_str(), O_RDONLY);
        std::vector<uint8_t> b(1 << 16);
        size_t seen = 0;
        for (off_t at = 0; fd >= 0 && (at = lseek(fd, at, SEEK_DATA)) >= 0;) {
            off_t end = lseek(fd, at, SEEK_HOLE);
            while (at < end) {
                ssize_t n = pread(fd, b.data(), std::min<size_t>(b.size(), size_t(end - at)), at);
                if (n <= 0) break;
                for (ssize_t i = 0; i < n; i++) {
                    if (!b[i]) continue;
                    seen++;
                    if (b[i] != got(size_t(at) + size_t(i))) { c.fail("byte " + std::to_string(size_t(at) + size_t(i)) + " of the file is " + std::to_string(b[i]) + " want " + std::to_string(got(size_t(at) + size_t(i)))); at = end; break; }
                }
                at += n;
            }
        }
        if (fd >= 0) close(fd);
        if (!c.failed) c.eq(seen, model.size(), "bytes found in the file");
        unlink(name.c_str());
    }
    c.nontrivial(model.size() > 1);
    barrier();
}
static void prop(Ctx& c)
{
    if (c.chance(1, 8)) return wide(c);
    int P = c.size();
    bool sub = P > 1 && c.chance(1, 5);  // on the first P-1 processes
    bool coll = !c.chance(1, 3), over = c.chance(1, 3), deflt = c.chance(1, 5);
    size_t maxsz = c.pick(std::vector<size_t>{1, 2, 3, 7, 16, 64, 100, 1000, 100000});
    int mode = int(c.draw(4));  // 0,1: read-write; 2: write then read; 3: temporary (deleted on close)
    uint64_t seed = c.draw(1u << 20);
    size_t pre = over ? c.size_in(0, 300) : 0;
    // everything may happen far into a (sparse) file
    size_t shift = c.chance(1, 6) ? c.pick(std::vector<size_t>{(1ul << 31) - 90, (1ul << 32) - 120, 5000000000ul}) : 0;
    if (shift) pre = 0;
    struct Round { int op; Kind k; std::vector<Ask> a; size_t sz; bool write; };
    std::vector<Round> rounds;
    int N = sub ? P - 1 : P;
    size_t nr = 1 + c.size_in(0, 6);
    std::ostringstream d;
    bool uneven = false, many = false, anyw = false;
    for (size_t r = 0; r < nr; r++) {
        Round R;
        R.op    = int(c.draw(8));  // 7: set the size
        R.sz    = c.size_in(0, 400);
        R.k     = Kind(c.draw(3));
        R.write = c.flip() || r == 0;
        R.a.resize(N);
        d << " {";
        if (shift && r == 0) R.op = 0;
        if (R.op == 7 && mode != 2) { d << "size " << R.sz << "}"; rounds.push_back(R); continue; }
        if (mode == 2) R.write = 2 * r < nr;
        R.op = 0;
        d << (R.write ? "write " : "read ") << KN[R.k];
        size_t base = c.size_in(0, 200);
        if (R.k == CONTIG) {
            for (auto& a : R.a) {
                a.nb = c.chance(1, 4) ? 0 : c.size_in(0, 150);
                if (R.write) { a.off = base; base += a.nb + c.size_in(0, 10); }
                else a.off = c.size_in(0, 400);
                d << " " << a.off << "+" << a.nb;
            }
            if (c.flip()) std::reverse(R.a.begin(), R.a.end());
        }
        else if (R.k == STRIDE) {
            // blocks of one stride dealt round the processes, or a region for each
            size_t bsz = c.chance(1, 8) ? 0 : 1 + c.size_in(0, 12);
            if (R.write && c.flip()) {
                size_t osz = std::max<size_t>(1, bsz * N + c.draw(5));
                for (size_t i = 0; i < R.a.size(); i++) {
                    auto& a = R.a[i];
                    a.bsz = bsz; a.osz = osz; a.off = base + i * bsz; a.nb = c.chance(1, 4) ? 0 : c.size_in(0, 20);
                }
            }
            else
                for (auto& a : R.a) {
                    a.bsz = bsz; a.osz = std::max<size_t>(1, bsz + c.size_in(0, 12)); a.nb = c.chance(1, 4) ? 0 : c.size_in(0, 20);
                    if (R.write) { a.off = base; base += a.osz * a.nb; }
                    else a.off = c.size_in(0, 400);
                }
            for (auto& a : R.a) d << " " << a.off << "/" << a.bsz << "/" << a.osz << "x" << a.nb;
        }
        else {
            size_t bsz = 1 + c.size_in(0, 12);
            // ascending blocks, dealt to the processes
            std::vector<size_t> loc;
            size_t at = base, n = c.size_in(0, 40);
            for (size_t i = 0; i < n; i++) { loc.push_back(at); at += bsz + (c.chance(1, 2) ? 0 : c.draw(20)); }
            for (auto& a : R.a) a.bsz = bsz;
            int deal = int(c.draw(3));
            for (size_t i = 0; i < n; i++) {
                size_t who = deal == 0 ? i % N : deal == 1 ? i * N / n : c.draw(N);
                R.a[who].list.push_back(loc[i]);
            }
            if (!R.write && c.chance(1, 3)) for (auto& a : R.a) a.list = loc;  // all read the same
            for (auto& a : R.a) { a.nb = a.list.size(); d << " [" << bsz << ":"; for (auto x : a.list) d << x << ","; d << "]"; }
        }
        d << "}";
        for (auto& a : R.a) { uneven |= a.nb != R.a[0].nb; many |= a.nb > 1; }
        anyw |= R.write;
        rounds.push_back(R);
    }
    c.desc << "np=" << P << (sub ? " sub-communicator" : "") << (deflt ? " default options" : coll ? " collective" : " independent") << " limit=" << (deflt ? 0 : maxsz)
           << " mode=" << mode << " existing=" << pre << " from=" << shift << d.str();
    c.label_if(shift != 0, "beyond 2 GiB");
    c.label(deflt ? "default options" : coll ? "collective" : "independent");
    c.label_if(uneven, "uneven amounts");
    c.label_if(sub, "sub-communicator");
    c.nontrivial(many && anyw && rounds.size() > 1);

    std::string name = c.path("data.bin");
    if (c.rank() == 0) {
        unlink(name.c_str());
        if (pre) {
            ref::Bytes b(pre);
            for (size_t i = 0; i < pre; i++) b[i] = uint8_t(hash({seed, 77, i}));
            ref::spit(name, b);
        }
    }
    barrier();
    // the model
    ref::Bytes model(pre);
    for (size_t i = 0; i < pre; i++) model[i] = uint8_t(hash({seed, 77, i}));
    size_t fsz = pre;
    bool sized = false;
    auto put = [&](size_t at, uint8_t v) { if (at >= model.size()) model.resize(at + 1, 0); model[at] = v; };
    auto val = [&](size_t r, size_t p, size_t i) { return uint8_t(hash({seed, r, p, i})); };

    MPI_Comm comm = MPI_COMM_WORLD;
    if (sub) MPI_Comm_split(MPI_COMM_WORLD, c.rank() < N ? 0 : 1, c.rank(), &comm);
    asked.want = comm;
    if (c.rank() < N) {
        int me = c.rank();
        auto piol = new_piol(comm);
        auto open = [&](EP::FileMode m) {
            if (deflt && !sub) return std::make_unique<EP::DataMPIIO>(std::shared_ptr<EP::ExSeisPIOL>(piol), name, m);
            EP::DataMPIIO::Opt o;
            o.fcomm = comm;
            if (!deflt) { o.coll = coll; o.maxSize = maxsz; }
            const std::string hint = std::to_string(seed);
            MPI_Info_set(o.info, "exseisdat_check", hint.c_str());
            auto f = std::make_unique<EP::DataMPIIO>(std::shared_ptr<EP::ExSeisPIOL>(piol), name, o, m);
            c.eq(asked.hint, hint, "hint the file was opened with");
            c.check(asked.same == MPI_IDENT || asked.same == MPI_CONGRUENT, "the file was opened on another communicator");
            return f;
        };
        auto f = open(mode < 2 ? EP::FileMode::ReadWrite : mode == 2 ? EP::FileMode::Write : EP::FileMode::Test);
        bool reading = mode != 2;
        for (size_t r = 0; r < rounds.size(); r++) {
            auto& R = rounds[r];
            auto& a = R.a[me];
            if (R.op == 7) {
                f->setFileSz(shift + R.sz);
                model.resize(R.sz, 0);
                sized = true;
                fsz = R.sz;
                MPI_Barrier(comm);
                c.eq(f->getFileSz(), shift + fsz, "size after setting it");
                MPI_Barrier(comm);
                continue;
            }
            asked.most = asked.together = asked.alone = 0;
            size_t bytes = R.k == CONTIG ? a.nb : a.nb * a.bsz;
            if (R.write) {
                std::unique_ptr<uint8_t[]> buf(new uint8_t[bytes]);
                for (size_t i = 0; i < bytes; i++) buf[i] = val(r, me, i);
                uint8_t* b = buf.get();
                auto l = a.list;
                for (auto& x : l) x += shift;
                if (R.k == CONTIG) f->write(shift + a.off, a.nb, b);
                else if (R.k == STRIDE) f->write(shift + a.off, a.bsz, a.osz, a.nb, b);
                else f->write(a.bsz, l.size(), l.data(), b);
                for (size_t i = 0; i < bytes; i++)
                    if (b[i] != val(r, me, i)) { c.fail("the writer's buffer was changed"); break; }
                for (int p = 0; p < N; p++) {
                    auto& q = R.a[p];
                    size_t n = R.k == CONTIG ? q.nb : q.nb * q.bsz;
                    for (size_t i = 0; i < n; i++)
                        put(R.k == CONTIG ? q.off + i : R.k == STRIDE ? q.off + (i / q.bsz) * q.osz + i % q.bsz : q.list[i / q.bsz] + i % q.bsz, val(r, p, i));
                }
                fsz = std::max(fsz, model.size());
                MPI_Barrier(comm);
            }
            else {
                if (!reading) { f.reset(); MPI_Barrier(comm); f = open(EP::FileMode::Read); reading = true; }
                // what lies beyond the end can not be read: keep to the file
                Ask q = a;
                auto inside = [&](size_t at, size_t n) { return at + n <= fsz; };
                if (R.k == CONTIG) { if (q.off >= fsz) q.nb = 0; else q.nb = std::min(q.nb, fsz - q.off); }
                else if (R.k == STRIDE) { while (q.nb && !inside(q.off + (q.nb - 1) * q.osz, q.bsz)) q.nb--; }
                else while (!q.list.empty() && !inside(q.list.back(), q.bsz)) q.list.pop_back();
                if (R.k == LIST) q.nb = q.list.size();
                size_t n = R.k == CONTIG ? q.nb : q.nb * q.bsz;
                std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
                for (size_t i = 0; i < n; i++) {
                    size_t at = R.k == CONTIG ? q.off + i : R.k == STRIDE ? q.off + (i / q.bsz) * q.osz + i % q.bsz : q.list[i / q.bsz] + i % q.bsz;
                    buf[i] = uint8_t(~model[at]);
                }
                auto l = q.list;
                for (auto& x : l) x += shift;
                if (R.k == CONTIG) f->read(shift + q.off, q.nb, buf.get());
                else if (R.k == STRIDE) f->read(shift + q.off, q.bsz, q.osz, q.nb, buf.get());
                else f->read(q.bsz, l.size(), l.data(), buf.get());
                for (size_t i = 0; i < n; i++) {
                    size_t at = R.k == CONTIG ? q.off + i : R.k == STRIDE ? q.off + (i / q.bsz) * q.osz + i % q.bsz : q.list[i / q.bsz] + i % q.bsz;
                    if (buf[i] != model[at]) {
                        c.fail("round " + std::to_string(r) + ": byte " + std::to_string(i) + " read, at " + std::to_string(at) + " of the file, is "
                               + std::to_string(buf[i]) + " want " + std::to_string(model[at]));
                        break;
                    }
                }
            }
            c.eq(f->getFileSz(), (fsz || sized) ? shift + fsz : 0, "size after round " + std::to_string(r));
            // no call moves more than the limit, but for a single block; all are of the kind asked for
            if (!deflt) {
                c.check(asked.most <= std::max(maxsz, R.k == CONTIG ? size_t(1) : a.bsz),
                        "a call of round " + std::to_string(r) + " moved " + std::to_string(asked.most) + " bytes");
                c.check((coll ? asked.alone : asked.together) == 0, "round " + std::to_string(r) + " made " + (coll ? "independent" : "collective") + " transfers");
            }
            // a round ends for everyone before the next writes
            MPI_Barrier(comm);
        }
        auto look = [&]() {
            if (!shift) return ref::slurp(name);
            ref::Bytes b;
            std::ifstream i(name, std::ios::binary);
            i.seekg(0, std::ios::end);
            auto n = size_t(i.tellg());
            if (n <= shift) return b;
            b.resize(n - shift);
            i.seekg(std::streamoff(shift));
            i.read((char*)b.data(), std::streamsize(b.size()));
            return b;
        };
        if (mode == 3) {
            // deleted when closed: look before
            MPI_Barrier(comm);
            auto got = look();
            c.check(got == model, "file " + hexdiff(got, model));
            MPI_Barrier(comm);
            f.reset();
            MPI_Barrier(comm);
            struct stat st;
            c.check(stat(name.c_str(), &st) != 0, "a temporary file outlived its closing");
        }
        else {
            f.reset();
            MPI_Barrier(comm);
            model.resize(fsz, 0);
            auto got = look();
            c.check(got == model, "file " + hexdiff(got, model));
        }
        c.check(!is_err(piol), "an error was recorded");
    }
    if (sub) MPI_Comm_free(&comm);
    barrier();
    if (c.rank() == 0) unlink(name.c_str());
    barrier();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
