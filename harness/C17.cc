// C17: a distributed vector is one array seen by every process.
#include "common.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include <sanitizer/asan_interface.h>
namespace U = exseis::utils;

// In guarded mode the memory after each share is watched.
static bool g_guard = false;
struct Block { char* raw; size_t n; };
static std::map<MPI_Win, Block> g_blocks;
static std::string g_spill;
static const size_t PAD = 256;
static const char FILL = 0x5a;
extern "C" int MPI_Win_allocate(MPI_Aint size, int disp, MPI_Info info, MPI_Comm comm, void* base, MPI_Win* win)
{
    if (!g_guard) return PMPI_Win_allocate(size, disp, info, comm, base, win);
    // room for a guard after the share
    int e     = PMPI_Win_allocate(size + MPI_Aint(PAD), disp, info, comm, base, win);
    char* raw = *static_cast<char**>(base);
    std::memset(raw, FILL, size_t(size) + PAD);
    ASAN_POISON_MEMORY_REGION(raw + size, PAD);
    g_blocks[*win] = {raw, size_t(size)};
    return e;
}
extern "C" int MPI_Win_free(MPI_Win* win)
{
    auto it = g_blocks.find(*win);
    if (it != g_blocks.end()) {
        auto b = it->second;
        ASAN_UNPOISON_MEMORY_REGION(b.raw + b.n, PAD);
        for (size_t i = 0; i < PAD; i++)
            if (b.raw[b.n + i] != FILL) g_spill = "memory past the end of a share of the vector was written";
        g_blocks.erase(it);
    }
    return PMPI_Win_free(win);
}

template<size_t N> struct Bytes_ { unsigned char b[N]; };
struct Mixed { char a; double b; int16_t c; };
template<class T> static T make(uint64_t h)
{
    T t;
    std::memset(&t, 0, sizeof t);
    for (size_t i = 0; i < sizeof t; i++) reinterpret_cast<unsigned char*>(&t)[i] = static_cast<unsigned char>(hash({h, i}));
    return t;
}
template<> bool make<bool>(uint64_t h) { return h & 1; }
template<> Mixed make<Mixed>(uint64_t h) { Mixed m; std::memset(&m, 0, sizeof m); m.a = char(h); m.b = double(h % 1000003) / 7; m.c = int16_t(h >> 7); return m; }
template<> EP::Gather_info make<EP::Gather_info>(uint64_t h) { return {size_t(h), int64_t(h * 3), int64_t(h ^ 77)}; }
template<class T> static bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template<> bool same<Mixed>(const Mixed& a, const Mixed& b) { return a.a == b.a && a.b == b.b && a.c == b.c; }
template<> bool same<EP::Gather_info>(const EP::Gather_info& a, const EP::Gather_info& b) { return a.num_traces == b.num_traces && a.inline_ == b.inline_ && a.crossline == b.crossline; }

template<class T> static void history(Ctx& c, const char* type)
{
    int np = c.size(), rank = c.rank();
    MPI_Comm comm = MPI_COMM_WORLD;
    bool sub = np > 1 && c.chance(1, 6);
    int color = 0;
    if (sub) {
        int groups = 1 + int(c.draw(2));
        bool rev   = c.flip();
        color      = rank % groups;
        MPI_Comm_split(MPI_COMM_WORLD, color, rev ? -rank : rank, &comm);
        MPI_Comm_rank(comm, &rank);
        MPI_Comm_size(comm, &np);
    }
    g_guard = c.flip();
    g_spill.clear();
    size_t n = c.count_in(0, c.chance(1, 6) ? 600 : 24, 20000), n2 = c.size_in(0, 10);
    size_t rounds = 1 + c.draw(4);
    uint64_t seed = c.draw(1u << 20);
    bool moved = c.chance(1, 4);
    c.desc << "np=" << np << (sub ? " sub-communicator" : "") << " " << type << "[" << n << "] and [" << n2 << "]" << (g_guard ? " guarded" : "") << (moved ? " moved" : "");
    c.label(type);
    c.label_if(n < size_t(np), "shorter than the processes");
    c.nontrivial(n > 1 && np > 1 && sizeof(T) > 1);
    std::vector<T> model[2] = {std::vector<T>(n), std::vector<T>(n2)};
    std::vector<char> set[2] = {std::vector<char>(n, 0), std::vector<char>(n2, 0)};
    {
        std::vector<U::Distributed_vector<T>> v;
        v.push_back(U::MPI_Distributed_vector<T>(n, comm));
        v.push_back(U::MPI_Distributed_vector<T>(n2, comm));
        if (moved) {
            U::Distributed_vector<T> a(std::move(v[0]));
            v[0] = std::move(a);
        }
        MPI_Barrier(comm);
        for (size_t r = 0; r < rounds && c.all_ok(); r++) {
            // who writes what; every element has at most one writer per round, who may write it several times
            int style = int(c.draw(4));  // 0 one process, 1 owner-ish, 2 shifted, 3 scattered
            size_t who = c.draw(uint64_t(c.size())), num = 1 + c.draw(4);
            bool far = c.chance(1, 2);
            size_t writes = 0;
            c.desc << " | round: " << (style == 0 ? "process " + std::to_string(who % size_t(np)) + " writes" : style == 1 ? "cyclic writes" : style == 2 ? "shifted writes" : "scattered writes") << " 1/" << num << (far ? ", outside too" : "");
            for (int w = 0; w < 2; w++) {
                size_t len = model[w].size();
                c.eq(v[w].size(), len, "size");
                for (size_t i = 0; i < len; i++) {
                    if (hash({seed, r, uint64_t(w), i}) % num) continue;
                    size_t writer = style == 0 ? who : style == 1 ? i : style == 2 ? i * size_t(np) / len + who : hash({seed, r, i});
                    writer %= size_t(np);
                    T val = make<T>(hash({seed, r, uint64_t(w), i, 5}));
                    if (size_t(rank) == writer) {
                        if (hash({seed, i, r}) % 3 == 0) v[w].set(i, make<T>(hash({seed, i, 1})));
                        v[w].set(i, val);
                    }
                    model[w][i] = val;
                    set[w][i]   = 1;
                    writes++;
                }
                if (far) for (size_t i : {len, len + 1, len + size_t(np), 2 * len + 3, std::numeric_limits<size_t>::max(), (std::numeric_limits<size_t>::max() >> 1) + 1}) {
                    v[w].set(i, make<T>(i + uint64_t(rank)));
                    if (!same(v[w].get(i), T())) c.fail("reading index " + std::to_string(i) + " of a vector of " + std::to_string(len) + " gave a value");
                }
            }
            (void)writes;
            MPI_Barrier(comm);
            for (int w = 0; w < 2; w++) for (size_t k = 0; k < model[w].size(); k++) {
                size_t i = (k * 7 + size_t(rank) * 3) % model[w].size();
                if (!set[w][i] || (model[w].size() > 60 && hash({seed, i, r, uint64_t(rank)}) % 4)) continue;
                T x = k % 2 ? v[w].get(i) : v[w][i];
                if (!same(x, model[w][i])) { c.fail("element " + std::to_string(i) + " of vector " + std::to_string(w) + " read by process " + std::to_string(rank) + " is not the value last written"); break; }
            }
            MPI_Barrier(comm);
        }
        MPI_Barrier(comm);
    }
    if (!g_spill.empty()) c.fail(g_spill);
    g_guard = false;
    if (sub) MPI_Comm_free(&comm);
    barrier();
}
static void prop(Ctx& c)
{
    switch (c.draw(9)) {
        case 0: return history<char>(c, "char");
        case 1: return history<int16_t>(c, "short");
        case 2: return history<Bytes_<3>>(c, "3 bytes");
        case 3: return history<int32_t>(c, "int");
        case 4: return history<size_t>(c, "size_t");
        case 5: return history<Mixed>(c, "mixed record");
        case 6: return history<Bytes_<200>>(c, "200 bytes");
        case 7: return history<EP::Gather_info>(c, "gather");
        default: return history<Bytes_<5000>>(c, "5000 bytes");
    }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
