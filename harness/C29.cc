// C29: what the library takes it gives back.
// The MPI calls that make or free objects, and the C++ allocations of the whole program, are counted.
#include "setgen.hh"
#include "sortref.hh"
#include "ExSeisDat/Flow.h"
#include "ExSeisDat/Flow.hh"
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include <malloc.h>
#include <new>
using exseis::utils::Integer;
namespace PU = EP::param_utils;

// ---------------------------------------------------------------- what is counted
enum Kind { FILES, TYPES, INFOS, WINDOWS, COMMS, REQUESTS, NKINDS };
static const char* KIND[] = {"files", "datatypes", "info objects", "windows", "communicators", "requests"};
static long live[NKINDS], made[NKINDS];
static void add(Kind k, bool ok) { if (ok) { live[k]++; made[k]++; } }
static void sub(Kind k, bool ok) { if (ok) live[k]--; }
static long blocks = 0, bytes = 0;
static void* take(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    __atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&bytes, long(malloc_usable_size(p)), __ATOMIC_RELAXED);
    return p;
}
static void give(void* p)
{
    if (!p) return;
    __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&bytes, long(malloc_usable_size(p)), __ATOMIC_RELAXED);
    free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
// whatever the process holds, by whichever allocator it came (the sanitizer's count)
static long heap() { return __sanitizer_get_current_allocated_bytes ? long(__sanitizer_get_current_allocated_bytes()) : 0; }
#define OK(e) ((e) == MPI_SUCCESS)
extern "C" {
int MPI_File_open(MPI_Comm c, const char* n, int m, MPI_Info i, MPI_File* f) { int e = PMPI_File_open(c, n, m, i, f); add(FILES, OK(e)); return e; }
int MPI_File_close(MPI_File* f) { int e = PMPI_File_close(f); sub(FILES, OK(e)); return e; }
int MPI_Type_create_hvector(int n, int b, MPI_Aint s, MPI_Datatype o, MPI_Datatype* t) { int e = PMPI_Type_create_hvector(n, b, s, o, t); add(TYPES, OK(e)); return e; }
int MPI_Type_vector(int n, int b, int s, MPI_Datatype o, MPI_Datatype* t) { int e = PMPI_Type_vector(n, b, s, o, t); add(TYPES, OK(e)); return e; }
int MPI_Type_create_hindexed(int n, const int* b, const MPI_Aint* s, MPI_Datatype o, MPI_Datatype* t) { int e = PMPI_Type_create_hindexed(n, b, s, o, t); add(TYPES, OK(e)); return e; }
int MPI_Type_create_hindexed_block(int n, int b, const MPI_Aint* s, MPI_Datatype o, MPI_Datatype* t) { int e = PMPI_Type_create_hindexed_block(n, b, s, o, t); add(TYPES, OK(e)); return e; }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t) { int e = PMPI_Type_contiguous(n, o, t); add(TYPES, OK(e)); return e; }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint l, MPI_Aint x, MPI_Datatype* t) { int e = PMPI_Type_create_resized(o, l, x, t); add(TYPES, OK(e)); return e; }
int MPI_Type_create_struct(int n, const int* b, const MPI_Aint* s, const MPI_Datatype* o, MPI_Datatype* t) { int e = PMPI_Type_create_struct(n, b, s, o, t); add(TYPES, OK(e)); return e; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* t) { int e = PMPI_Type_dup(o, t); add(TYPES, OK(e)); return e; }
int MPI_Type_free(MPI_Datatype* t) { int e = PMPI_Type_free(t); sub(TYPES, OK(e)); return e; }
int MPI_Info_create(MPI_Info* i) { int e = PMPI_Info_create(i); add(INFOS, OK(e)); return e; }
int MPI_Info_dup(MPI_Info o, MPI_Info* i) { int e = PMPI_Info_dup(o, i); add(INFOS, OK(e)); return e; }
int MPI_Info_free(MPI_Info* i) { int e = PMPI_Info_free(i); sub(INFOS, OK(e)); return e; }
int MPI_Win_create(void* b, MPI_Aint n, int d, MPI_Info i, MPI_Comm c, MPI_Win* w) { int e = PMPI_Win_create(b, n, d, i, c, w); add(WINDOWS, OK(e)); return e; }
int MPI_Win_allocate(MPI_Aint n, int d, MPI_Info i, MPI_Comm c, void* b, MPI_Win* w) { int e = PMPI_Win_allocate(n, d, i, c, b, w); add(WINDOWS, OK(e)); return e; }
int MPI_Win_free(MPI_Win* w) { int e = PMPI_Win_free(w); sub(WINDOWS, OK(e)); return e; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { int e = PMPI_Comm_dup(c, d); add(COMMS, OK(e)); return e; }
int MPI_Comm_split(MPI_Comm c, int a, int k, MPI_Comm* d) { int e = PMPI_Comm_split(c, a, k, d); add(COMMS, OK(e) && *d != MPI_COMM_NULL); return e; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* d) { int e = PMPI_Comm_create(c, g, d); add(COMMS, OK(e) && *d != MPI_COMM_NULL); return e; }
int MPI_Comm_free(MPI_Comm* c) { int e = PMPI_Comm_free(c); sub(COMMS, OK(e)); return e; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request* r) { int e = PMPI_Isend(b, n, t, d, g, c, r); add(REQUESTS, OK(e) && *r != MPI_REQUEST_NULL); return e; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Request* r) { int e = PMPI_Irecv(b, n, t, s, g, c, r); add(REQUESTS, OK(e) && *r != MPI_REQUEST_NULL); return e; }
int MPI_Wait(MPI_Request* r, MPI_Status* s) { bool had = *r != MPI_REQUEST_NULL; int e = PMPI_Wait(r, s); sub(REQUESTS, had && *r == MPI_REQUEST_NULL); return e; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s)
{
    int had = 0, has = 0;
    for (int i = 0; i < n; i++) had += r[i] != MPI_REQUEST_NULL;
    int e = PMPI_Waitall(n, r, s);
    for (int i = 0; i < n; i++) has += r[i] != MPI_REQUEST_NULL;
    for (int i = has; i < had; i++) sub(REQUESTS, true);
    return e;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) { bool had = *r != MPI_REQUEST_NULL; int e = PMPI_Test(r, f, s); sub(REQUESTS, had && *r == MPI_REQUEST_NULL); return e; }
int MPI_Request_free(MPI_Request* r) { bool had = *r != MPI_REQUEST_NULL; int e = PMPI_Request_free(r); sub(REQUESTS, had); return e; }
}
static long open_fds(const char* under)
{
    // descriptors of files below the directory
    long n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (auto* e = d ? readdir(d) : nullptr) {
        char b[4096];
        std::string p = std::string("/proc/self/fd/") + e->d_name;
        ssize_t k = readlink(p.c_str(), b, sizeof b - 1);
        if (k <= 0) continue;
        b[k] = 0;
        if (strncmp(b, under, strlen(under)) == 0) n++;
    }
    if (d) closedir(d);
    return n;
}

// ---------------------------------------------------------------- the history
struct Step {
    int what;
    size_t slot, k;
    uint64_t seed;
};
struct Plan {
    std::vector<Step> steps;
    std::vector<size_t> release;  // order in which the slots are freed
    IoOpt io;
    size_t ns, nt;
    std::string dir;
};
static const char* WHAT[] = {"write", "open", "open-missing", "open-damaged", "read", "close", "blocks", "set", "set-dropped", "sort", "gathers", "model", "vector", "extremes", "C-files", "C-blocks", "C-set", "handle", "list", "set-many", "angle"};
enum { NWHAT = sizeof WHAT / sizeof WHAT[0] };

static exseis::utils::Trace_value twice(const exseis::utils::Trace_value*, size_t, exseis::utils::Trace_value, size_t) { return 2; }

struct Quiet {
    std::ostringstream s;
    std::streambuf* o;
    Quiet() : o(std::cout.rdbuf(s.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); }
};

static std::string good(const Plan& p, size_t k) { return p.dir + "in_" + std::to_string(k) + ".segy"; }

static void set_ops(EF::Set& s, uint64_t seed, bool many)
{
    size_t n = many ? 1 + seed % 5 : seed % 3;
    for (size_t i = 0; i < n; i++) {
        uint64_t h = hash({seed, i, 77});
        switch (h % 8) {
            case 0: s.sort(EP::SortType(h / 8 % 6)); break;
            case 1: s.taper(exseis::utils::linear_taper, 1, h / 8 % 3); break;
            case 2: s.AGC(twice, 1, 1.f); break;
            case 3: s.AGC(exseis::utils::mean_abs_gain, 3, 1.f); break;
            case 4: { std::vector<EP::CoordElem> mm(4); s.getMinMax(PIOL_META_xSrc, PIOL_META_ySrc, mm.data()); break; }
            case 5: s.temporalFilter(EP::FltrType::Lowpass, h & 64 ? EP::FltrDmn::Time : EP::FltrDmn::Freq, EP::PadType::Symmetric, 100, 2, std::vector<float>{20, 0}); break;
            case 6: s.text("a text " + std::to_string(h)); break;
            default: s.temporalFilter(EP::FltrType::Bandpass, EP::FltrDmn::Time, EP::PadType::Zero, 100, 2, std::vector<float>{20, 40}, 8, 4);
        }
    }
}

static void scenario(const Plan& p, int me, int np)
{
    struct Slot {
        std::unique_ptr<EP::ReadDirect> r;
        std::unique_ptr<EP::WriteDirect> w;
        std::shared_ptr<EP::ExSeis> piol;
        bool ok = false;
    };
    Quiet q;
    std::vector<Slot> slot(6);
    auto piol = new_piol();
    auto part = [&](size_t n, size_t& off) { size_t a = n * size_t(me) / size_t(np), b = n * size_t(me + 1) / size_t(np); off = a; return b - a; };
    size_t nout = 0;
    for (auto& s : p.steps) {
        Slot& S = slot[s.slot];
        size_t off, n = part(p.nt, off);
        switch (s.what) {
            case 0: {  // a file written, left open
                S = Slot();
                S.w = open_write(piol, p.dir + "out" + std::to_string(s.slot) + ".segy", p.io);
                S.w->writeNs(p.ns);
                S.w->writeNt(p.nt);
                S.w->writeInc(0.004);
                Fv t(n * p.ns, 1.f);
                EP::Param prm(n);
                if (s.k % 2) S.w->writeTrace(off, n, t.data(), &prm);
                else S.w->writeTrace(off, n, t.data());
                break;
            }
            case 1:
                S = Slot();
                S.r = open_read(piol, good(p, s.k % 2), p.io);
                S.ok = true;
                break;
            case 2: case 3: {  // its own handle: errors stay with it
                S = Slot();
                S.piol = new_piol();
                S.r = open_read(S.piol, p.dir + (s.what == 2 ? "nothing.segy" : "bad.segy"), p.io);
                break;
            }
            case 4:
                if (S.r && S.ok) {
                    Fv t(n * p.ns);
                    EP::Param prm(n);
                    std::vector<size_t> l(n);
                    for (size_t i = 0; i < n; i++) l[i] = off + i;
                    if (s.k % 3 == 0) S.r->readTrace(off, n, t.data(), &prm);
                    else if (s.k % 3 == 1) S.r->readTraceNonContiguous(n, l.data(), t.data(), &prm);
                    else S.r->readParam(off, n, &prm);
                }
                else if (S.w) {
                    std::vector<size_t> l(n);
                    for (size_t i = 0; i < n; i++) l[i] = off + i;
                    EP::Param prm(n);
                    S.w->writeParamNonContiguous(n, l.data(), &prm);
                }
                break;
            case 5: S = Slot(); break;
            case 6: {
                auto r = std::make_shared<EP::Rule>(true, s.k % 2 == 0, s.k % 3 == 0);
                r->addLong(PIOL_META_Misc1, PIOL_TR_SrcMeas);
                r->addShort(PIOL_META_Misc1, PIOL_TR_SrcMeasExp);
                r->addCopy();
                r->rmRule(PIOL_META_xSrc);
                EP::Rule o(std::vector<EP::Meta>{PIOL_META_xSrc, PIOL_META_il});
                r->addRule(o);
                EP::Param a(r, s.k + 1), b(s.k + 2);
                PU::cpyPrm(0, &a, s.k, &b);
                EP::Param d = a;
                break;
            }
            case 7: case 8: case 19: {
                std::string out = p.dir + "set" + std::to_string(nout++) + "-";
                if (s.what == 8) {
                    EF::Set d(piol, p.dir + "in_*", out);
                    set_ops(d, s.seed, false);
                    break;  // its destructor writes the output
                }
                EF::Set d(piol, p.dir + "in_*");
                if (s.k % 4 == 0) d.add(EP::makeFile<EP::ReadSEGY>(piol, good(p, 0)));
                set_ops(d, s.seed, s.what == 19);
                d.output(out);
                break;
            }
            case 9: {
                auto rule = std::make_shared<EP::Rule>(std::vector<EP::Meta>{PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_il, PIOL_META_xl, PIOL_META_Offset, PIOL_META_gtn, PIOL_META_ltn});
                EP::Param prm(rule, n);
                for (size_t i = 0; i < n; i++) {
                    for (auto m : {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv}) PU::setPrm(i, m, double(hash({s.seed, off + i}) % 9), &prm);
                    PU::setPrm(i, PIOL_META_il, Integer(hash({s.seed, off + i}) % 5), &prm);
                    PU::setPrm(i, PIOL_META_gtn, size_t(off + i), &prm);
                    PU::setPrm(i, PIOL_META_ltn, size_t(off + i), &prm);
                }
                auto l = EP::sort(piol.get(), EP::SortType(s.k % 6), &prm);
                break;
            }
            case 10: {
                auto r = open_read(piol, good(p, s.k % 2), IoOpt());
                EP::ReadInterface* ri = *r;
                auto g = EP::getIlXlGathers(piol.get(), ri);
                break;
            }
            case 11: {
                auto m = EP::makeFile<EP::ReadSEGYModel>(piol, p.dir + "vel.segy");
                exseis::utils::MPI_Distributed_vector<EP::Gather_info> v(2, MPI_COMM_WORLD);
                if (me == 0) { v.set(0, {1, 10, 20}); v.set(1, {1, 11, 21}); }
                MPI_Barrier(MPI_COMM_WORLD);
                auto t = m->readModel(0, 2, v);
                MPI_Barrier(MPI_COMM_WORLD);
                break;
            }
            case 12: {
                exseis::utils::MPI_Distributed_vector<double> v(s.k * 3, MPI_COMM_WORLD);
                auto w = std::move(v);
                if (me == 0) for (size_t i = 0; i < s.k * 3; i++) w.set(i, double(i));
                MPI_Barrier(MPI_COMM_WORLD);
                for (size_t i = 0; i < s.k * 3; i++) w.get(i);
                MPI_Barrier(MPI_COMM_WORLD);
                break;
            }
            case 13: {
                EP::Param prm(n);
                std::vector<EP::CoordElem> mm(4);
                EP::getMinMax(piol.get(), off, n, PIOL_META_xSrc, PIOL_META_ySrc, &prm, mm.data());
                break;
            }
            case 14: {
                auto* h = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
                auto* w = PIOL_File_WriteDirect_new(h, (p.dir + "c.segy").c_str());
                PIOL_File_WriteDirect_writeNs(w, p.ns);
                PIOL_File_WriteDirect_writeNt(w, p.nt);
                PIOL_File_WriteDirect_writeInc(w, 0.004);
                PIOL_File_WriteDirect_writeText(w, "from C");
                auto* r = PIOL_File_ReadDirect_new(h, good(p, 0).c_str());
                if (s.k % 2) PIOL_ExSeis_delete(h);
                auto* prm = PIOL_File_Param_new(nullptr, n);
                Fv t(n * p.ns);
                t.reserve(1);
                PIOL_File_ReadDirect_readTrace(r, off, n, t.data(), prm);
                PIOL_File_WriteDirect_writeTrace(w, off, n, t.data(), prm);
                if (s.k % 3) PIOL_File_ReadDirect_delete(r);
                PIOL_File_WriteDirect_delete(w);
                PIOL_File_Param_delete(prm);
                if (s.k % 3 == 0) PIOL_File_ReadDirect_delete(r);
                if (s.k % 2 == 0) PIOL_ExSeis_delete(h);
                break;
            }
            case 15: {
                auto* r = PIOL_File_Rule_new(s.k % 2 == 0);
                PIOL_File_Rule_addLong(r, PIOL_META_Misc1, PIOL_TR_SrcMeas);
                PIOL_File_Rule_addSEGYFloat(r, PIOL_META_Misc2, PIOL_TR_xRcv, PIOL_TR_ScaleCoord);
                const PIOL_Meta l[] = {PIOL_META_il, PIOL_META_xl, PIOL_META_xSrc};
                auto* r2 = PIOL_File_Rule_new_from_list(l, s.k % 4);
                auto* a = PIOL_File_Param_new(r, s.k + 1);
                auto* b = PIOL_File_Param_new(r2, s.k + 1);
                if (s.k % 2) PIOL_File_Rule_delete(r);
                PIOL_File_cpyPrm(0, a, s.k, b);
                PIOL_File_Param_delete(a);
                PIOL_File_Rule_delete(r2);
                PIOL_File_Param_delete(b);
                if (s.k % 2 == 0) PIOL_File_Rule_delete(r);
                break;
            }
            case 16: {
                auto* h = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
                auto* d = PIOL_Set_new(h, (p.dir + "in_*").c_str());
                if (s.k % 2) PIOL_Set_sort(d, PIOL_SORTTYPE_SrcRcv);
                if (s.k % 3) PIOL_Set_AGC(d, exseis::utils::exseis_mean_abs_gain, 3, 1.f);
                PIOL_Set_text(d, "text");
                PIOL_Set_output(d, (p.dir + "cset-").c_str());
                if (s.k % 2) { PIOL_Set_delete(d); PIOL_ExSeis_delete(h); }
                else { PIOL_ExSeis_delete(h); PIOL_Set_delete(d); }
                break;
            }
            case 17: {  // the rest works with another library handle
                auto old = piol;
                piol = new_piol();
                break;
            }
            case 18: {
                auto r = open_read(piol, good(p, 0), p.io);
                std::vector<size_t> l(n);
                for (size_t i = 0; i < n; i++) l[i] = off + (n - 1 - i);
                Fv t(n * p.ns);
                EP::Param prm(n);
                r->readTraceNonMonotonic(n, l.data(), t.data(), &prm);
                break;
            }
            default: {
                EF::Set d(piol, p.dir + "rad_*");
                d.toAngle(p.dir + "vel.segy", 1 + s.k, 3, 0.01);
                if (s.k % 2) d.AGC(twice, 1, 1.f);
                d.output(p.dir + "angle-");
            }
        }
    }
    for (size_t k : p.release) slot[k] = Slot();
    piol.reset();
}

static void prop(Ctx& c)
{
    Plan p;
    p.ns = 8 + c.size_in(0, 12);
    p.nt = c.size_in(1, 30);
    p.io = gen_io(c, 240 + 4 * p.ns);
    size_t n = 1 + c.size_in(0, 9);
    for (size_t i = 0; i < n; i++) {
        Step s;
        s.what = int(c.draw(NWHAT));
        s.slot = c.draw(6);
        s.k    = c.draw(12);
        s.seed = c.draw(1u << 16);
        p.steps.push_back(s);
        c.desc << (i ? ", " : "") << WHAT[s.what] << "/" << s.k << "@" << s.slot;
        c.label(WHAT[s.what]);
    }
    for (size_t x : c.permutation(6)) p.release.push_back(x);
    size_t mem = c.pick(std::vector<size_t>{0, 0, 400, 4000});
    c.desc << " ns=" << p.ns << " nt=" << p.nt << " " << p.io.str();
    c.nontrivial(n > 1);
    p.dir = sg::fresh_dir(c, "give");
    if (c.rank() == 0) {
        auto file = [&](size_t k) {
            ref::File F;
            F.text.assign(3200, ' ');
            F.ns = p.ns; F.inc_us = 4000;
            F.tr.resize(p.nt);
            for (size_t t = 0; t < p.nt; t++) {
                auto& T = F.tr[t];
                for (auto& b : T.h) b = 0;
                ref::put16(&T.h[70], 1);
                ref::put16(&T.h[68], 1);
                ref::put32(&T.h[72], uint32_t(hash({k, t, 1}) % 7));
                ref::put32(&T.h[188], uint32_t(10 + hash({k, t / 3, 1}) % 2));
                ref::put32(&T.h[192], uint32_t(20 + hash({k, t / 3, 2}) % 2));
                for (size_t j = 0; j < p.ns; j++) T.s.push_back(ref::f2u(float(1 + t + j)));
            }
            return F;
        };
        ref::spit(good(p, 0), file(0).encode());
        ref::spit(good(p, 1), file(1).encode());
        ref::spit(p.dir + "rad_0.segy", file(2).encode());
        auto bad = file(3).encode();
        bad.resize(bad.size() > 3000 ? 3000 : bad.size());
        ref::spit(p.dir + "bad.segy", bad);
        // a velocity model of 2 x 2 places
        ref::File V;
        V.text.assign(3200, ' ');
        V.ns = p.ns; V.inc_us = 4000;
        for (int i = 0; i < 2; i++) for (int x = 0; x < 2; x++) {
            ref::Trace T;
            for (auto& b : T.h) b = 0;
            ref::put32(&T.h[188], uint32_t(10 + i));
            ref::put32(&T.h[192], uint32_t(20 + x));
            for (size_t j = 0; j < p.ns; j++) T.s.push_back(ref::f2u(float(j % 3)));
            V.tr.push_back(T);
        }
        ref::spit(p.dir + "vel.segy", V.encode());
    }
    barrier();
    size_t keep = EF::verif_memlim;
    if (mem) EF::verif_memlim = mem * (p.ns + 120);
    // once to have made whatever is made once
    scenario(p, c.rank(), c.size());
    barrier();
    int grew = 1;  // in every round, on some process
    bool mine = true;
    for (int round = 0; round < (grew ? 6 : 2) && !c.failed; round++) {
        long l0[NKINDS], b0 = blocks, y0 = bytes, f0 = open_fds(p.dir.c_str()), h0 = heap();
        for (int k = 0; k < NKINDS; k++) l0[k] = live[k];
        scenario(p, c.rank(), c.size());
        long b1 = blocks, y1 = bytes;
        for (int k = 0; k < NKINDS; k++)
            if (live[k] != l0[k]) c.fail(std::string(KIND[k]) + " left: " + std::to_string(live[k] - l0[k]));
        long f1 = open_fds(p.dir.c_str());
        if (f1 != 0 || f0 != 0) c.fail(std::to_string(f1) + " descriptors of files left open");
        if (b1 != b0 || y1 != y0) c.fail("memory left: " + std::to_string(b1 - b0) + " blocks, " + std::to_string(y1 - y0) + " bytes");
        barrier();
        // the rest of the heap is also that of the libraries below, which may keep what they will use again
        long h1 = heap();
        mine = mine && h1 > h0;
        int any = mine;
        MPI_Allreduce(&any, &grew, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        if (round == 5 && mine) c.fail("memory left by C allocation: " + std::to_string(h1 - h0) + " bytes, six times in a row");
        if (!c.all_ok()) break;
    }
    EF::verif_memlim = keep;
    if (chdir("/") != 0) c.fail("chdir");
    barrier();
    if (c.rank() == 0) sg::rmtree(p.dir);
    barrier();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
