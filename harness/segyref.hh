// Independent byte-level SEG-Y model: written from the SEG-Y rev 1 layout and
// the library's documented parameter table, sharing no code with the library.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <fstream>
#include <string>
#include <vector>
#include <map>
#include <array>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

namespace ref {
typedef std::vector<uint8_t> Bytes;

inline void put16(uint8_t* p, int v) { p[0] = uint8_t((v >> 8) & 255); p[1] = uint8_t(v & 255); }
inline void put32(uint8_t* p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = uint8_t((v >> (24 - 8 * i)) & 255); }
inline int16_t get16(const uint8_t* p) { int v = (int(p[0]) << 8) | p[1]; return int16_t(v >= 32768 ? v - 65536 : v); }
inline uint32_t getu32(const uint8_t* p) { return (uint32_t(p[0]) << 24) | (uint32_t(p[1]) << 16) | (uint32_t(p[2]) << 8) | p[3]; }
inline int32_t get32(const uint8_t* p) { uint32_t u = getu32(p); int32_t v; memcpy(&v, &u, 4); return v; }
inline uint32_t f2u(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float u2f(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }

enum Type { LONG, SHORT, FLOAT };
struct Field { int meta; Type type; int loc; int scal; const char* name; };
// meta numbers are those of the public enum (Meta.h); positions are 1-based SEG-Y bytes.
inline const std::vector<Field>& fields()
{
    static const std::vector<Field> f = {
      {20, FLOAT, 73, 71, "xSrc"}, {21, FLOAT, 77, 71, "ySrc"}, {22, FLOAT, 81, 71, "xRcv"},
      {23, FLOAT, 85, 71, "yRcv"}, {24, FLOAT, 181, 71, "xCmp"}, {25, FLOAT, 185, 71, "yCmp"},
      {14, LONG, 37, 0, "Offset"}, {26, LONG, 189, 0, "il"}, {27, LONG, 193, 0, "xl"},
      {5, LONG, 5, 0, "tn"},
      // extras
      {3, LONG, 1, 0, "tnl"}, {4, LONG, 13, 0, "tnr"}, {6, LONG, 25, 0, "tne"},
      {10, LONG, 17, 0, "SrcNum"}, {9, SHORT, 29, 0, "Tic"}, {12, SHORT, 31, 0, "VStack"},
      {13, SHORT, 33, 0, "HStack"}, {15, FLOAT, 41, 69, "RGElev"}, {16, FLOAT, 45, 69, "SSElev"},
      {17, FLOAT, 49, 69, "SDElev"}, {7, SHORT, 115, 0, "ns"}, {8, SHORT, 117, 0, "inc"},
      {11, FLOAT, 197, 201, "ShotNum"}, {29, SHORT, 203, 0, "TraceUnit"}, {28, SHORT, 211, 0, "TransUnit"},
      {18, FLOAT, 61, 69, "WtrDepSrc"}, {19, FLOAT, 65, 69, "WtrDepRcv"},
    };
    return f;
}
constexpr int NDEFAULT = 10, NEXTRA_END = 25, NFIELDS = 27;
inline const Field& field(int meta)
{
    for (auto& f : fields()) if (f.meta == meta) return f;
    abort();
}
inline double scale_of(int16_t s) { return s == 0 ? 1. : s > 0 ? double(s) : 1. / -double(s); }
inline double decode_float(const uint8_t* h, int loc, int scal)
{
    int16_t s = get16(h + scal - 1);
    int32_t v = get32(h + loc - 1);
    if (s < 0) return double(v) / -double(s);
    return double(v) * (s == 0 ? 1. : double(s));
}
/// Finest decimal scale at which v fits a 32 bit integer (as exponent -4..4; 5: none)
inline int finest_exp(double v)
{
    for (int e = -4; e <= 4; e++) {
        double q = std::fabs(v) / std::pow(10., e);
        if (q < 2147483647.0) return e;
    }
    return 5;
}

struct Trace {
    std::array<uint8_t, 240> h;
    std::vector<uint32_t> s;
    Trace() { h.fill(0); }
};
struct File {
    std::string text = std::string(3200, '\0');  // ASCII
    size_t ns = 0;
    int inc_us = 0;
    int format = 5;
    std::vector<Trace> tr;

    Bytes header() const
    {
        Bytes b(3600, 0);
        for (size_t i = 0; i < 3200 && i < text.size(); i++) b[i] = uint8_t(text[i]);
        put16(&b[3216], inc_us);
        put16(&b[3220], int(ns));
        put16(&b[3224], format);
        put16(&b[3254], 1);
        put16(&b[3500], 0x0100);
        put16(&b[3502], 1);
        put16(&b[3504], 0);
        return b;
    }
    Bytes encode() const
    {
        Bytes b = header();
        b.reserve(3600 + tr.size() * (240 + 4 * ns));
        for (auto& t : tr) {
            b.insert(b.end(), t.h.begin(), t.h.end());
            for (size_t j = 0; j < ns; j++) {
                uint8_t w[4];
                put32(w, j < t.s.size() ? t.s[j] : 0);
                b.insert(b.end(), w, w + 4);
            }
        }
        return b;
    }
};

inline Bytes slurp(const std::string& f)
{
    Bytes b;
    FILE* fp = fopen(f.c_str(), "rb");
    if (!fp) return b;
    struct stat st;
    if (fstat(fileno(fp), &st) == 0 && st.st_size > 0) {
        b.resize(size_t(st.st_size));
        size_t n = fread(b.data(), 1, b.size(), fp);
        b.resize(n);
    }
    fclose(fp);
    return b;
}
inline bool spit(const std::string& f, const Bytes& b)
{
    FILE* fp = fopen(f.c_str(), "wb");
    if (!fp) return false;
    size_t n = fwrite(b.data(), 1, b.size(), fp);
    fclose(fp);
    return n == b.size();
}
/// Part of a file; shorter when the file is
inline Bytes slurp(const std::string& f, uint64_t off, size_t n)
{
    Bytes b;
    FILE* fp = fopen(f.c_str(), "rb");
    if (!fp) return b;
    b.resize(n);
    b.resize(fseeko(fp, off_t(off), SEEK_SET) == 0 ? fread(b.data(), 1, n, fp) : 0);
    fclose(fp);
    return b;
}
inline bool spit(const std::string& f, uint64_t off, const uint8_t* p, size_t n)
{
    FILE* fp = fopen(f.c_str(), "r+b");
    if (!fp) fp = fopen(f.c_str(), "w+b");
    if (!fp) return false;
    bool ok = fseeko(fp, off_t(off), SEEK_SET) == 0 && fwrite(p, 1, n, fp) == n;
    return fclose(fp) == 0 && ok;
}
inline uint64_t size_of(const std::string& f)
{
    struct stat st;
    return stat(f.c_str(), &st) == 0 ? uint64_t(st.st_size) : 0;
}
/// The first byte from `from` on which is not in a hole, or `none` when the file system does not tell
inline uint64_t data_from(const std::string& f, uint64_t from, uint64_t none)
{
    int fd = open(f.c_str(), O_RDONLY);
    if (fd < 0) return none;
    struct stat st;
    off_t r = -1;
    if (fstat(fd, &st) == 0 && uint64_t(st.st_blocks) * 512 < uint64_t(st.st_size) / 2) r = lseek(fd, off_t(from), SEEK_DATA);
    close(fd);
    return r < 0 ? none : uint64_t(r);
}
inline bool parse(const Bytes& b, File& f)
{
    if (b.size() < 3600) return false;
    f.text.assign(b.begin(), b.begin() + 3200);
    f.inc_us = get16(&b[3216]);
    f.ns     = uint16_t(get16(&b[3220]));
    f.format = get16(&b[3224]);
    size_t dosz = 240 + 4 * f.ns;
    size_t nt   = (b.size() - 3600) / dosz;
    f.tr.resize(nt);
    for (size_t i = 0; i < nt; i++) {
        const uint8_t* p = &b[3600 + i * dosz];
        std::copy(p, p + 240, f.tr[i].h.begin());
        f.tr[i].s.resize(f.ns);
        for (size_t j = 0; j < f.ns; j++) f.tr[i].s[j] = getu32(p + 240 + 4 * j);
    }
    return 3600 + nt * dosz == b.size();
}
}  // namespace ref
