// C07: files from other systems decode correctly; number and character conversions.
#include "common.hh"
#include "ExSeisDat/utils/encoding/character_encoding.hh"
#include "ExSeisDat/utils/encoding/number_encoding.hh"
namespace U = exseis::utils;

/// The value of an IBM word, exactly (a double holds every one of them).
static double ibm_value(uint32_t w)
{
    double m = double(w & 0xFFFFFFu) / 16777216.;
    int e    = int((w >> 24) & 0x7F) - 64;
    double v = std::ldexp(m, 4 * e);
    return (w >> 31) ? -v : v;
}
static bool same_float(float a, float b)  // -0 and 0 denote the same value
{
    return a == b || (a != a && b != b);
}
static uint32_t gen_ibm(uint64_t h, int style)
{
    uint32_t r = uint32_t(h), s = uint32_t(h >> 63) << 31;
    switch (style) {
        case 0: return r;                                            // any word
        case 1: return s | (uint32_t(64 + (h >> 32) % 3) << 24) | (r & 0xFFFFFF);  // ordinary values
        case 2: return s | (uint32_t(30 + (h >> 32) % 5) << 24) | (r & 0xFFFFFF);  // around the smallest IEEE values
        case 3: return s | (uint32_t(95 + (h >> 32) % 3) << 24) | (r & 0xFFFFFF);  // around the largest
        case 4: return s | (uint32_t((h >> 32) % 128) << 24) | (1u << (r % 24));   // single fraction bit
        case 5: return s | (uint32_t((h >> 32) % 128) << 24) | ((r & 0xFFFFFF) >> (h >> 40) % 24);  // unnormalised
        case 6: return s | (uint32_t((h >> 32) % 128) << 24);        // zero fractions
        default: return s | (uint32_t(31 + (h >> 32) % 4) << 24) | (0xFFFFFF - ((r % 3) >> 1)) >> ((h >> 40) % 3);  // round-ups
    }
}

static uint8_t ebcdic_of(char a, bool& known)
{
    known = true;
    if (a >= 'A' && a <= 'I') return uint8_t(0xC1 + a - 'A');
    if (a >= 'J' && a <= 'R') return uint8_t(0xD1 + a - 'J');
    if (a >= 'S' && a <= 'Z') return uint8_t(0xE2 + a - 'S');
    if (a >= 'a' && a <= 'i') return uint8_t(0x81 + a - 'a');
    if (a >= 'j' && a <= 'r') return uint8_t(0x91 + a - 'j');
    if (a >= 's' && a <= 'z') return uint8_t(0xA2 + a - 's');
    if (a >= '0' && a <= '9') return uint8_t(0xF0 + a - '0');
    switch (a) {
        case ' ': return 0x40; case '.': return 0x4B; case '<': return 0x4C; case '(': return 0x4D;
        case '+': return 0x4E; case '&': return 0x50; case '*': return 0x5C; case ')': return 0x5D;
        case ';': return 0x5E; case '-': return 0x60; case '/': return 0x61; case ',': return 0x6B;
        case '%': return 0x6C; case '_': return 0x6D; case '>': return 0x6E; case '?': return 0x6F;
        case ':': return 0x7A; case '#': return 0x7B; case '@': return 0x7C; case '\'': return 0x7D;
        case '=': return 0x7E; case '"': return 0x7F; case '$': return 0x5B; case '!': return 0x5A;
        case '|': return 0x4F; case '\\': return 0xE0; case '{': return 0xC0; case '}': return 0xD0;
        case '`': return 0x79; case '~': return 0xA1;
        case '\0': return 0; case '\n': return 0x25; case '\r': return 0x0D; case '\t': return 0x05;
    }
    known = false;
    return 0x3F;
}

template<class T> static void ints(Ctx& c, uint64_t v)
{
    T x = T(v);
    auto b = U::to_big_endian(x);
    for (size_t i = 0; i < sizeof(T); i++)
        if (b[i] != uint8_t((v >> (8 * (sizeof(T) - 1 - i))) & 255)) { c.fail("to_big_endian, " + std::to_string(sizeof(T)) + " bytes, value " + std::to_string(x)); return; }
}
static void numbers(Ctx& c)
{
    uint64_t seed = c.bits64();
    int style     = int(c.draw(8));
    size_t n      = 1 + c.draw(64);
    c.desc << "conversions style=" << style << " n=" << n << " seed=" << seed;
    c.label("number conversions");
    c.nontrivial();
    for (size_t k = 0; k < n && !c.failed; k++) {
        uint64_t h = hash({seed, k});
        uint32_t w = gen_ibm(h, style);
        if (k == 0 && n == 1) w = uint32_t(seed);
        std::array<unsigned char, 4> be, le;
        ref::put32(be.data(), w);
        for (int i = 0; i < 4; i++) le[i] = be[3 - i];
        float want = float(ibm_value(w));
        float g1 = U::from_IBM_to_float(be, true), g2 = U::from_IBM_to_float(le, false);
        if (!same_float(g1, want) || !same_float(g2, want)) {
            std::ostringstream s;
            s.precision(9);
            s << "IBM word 0x" << std::hex << w << std::dec << ": got " << g1 << " (big endian), " << g2 << " (little endian), want " << want;
            c.fail(s.str());
        }
        // integers and floats
        static const uint64_t edge[] = {0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000ull, 0xFFFFFFFFull, 0xFF00FF00, 0x00FF00FF};
        uint64_t v = (h >> 8) % 4 ? hash({h}) : edge[h % 13];
        ints<int16_t>(c, v); ints<uint16_t>(c, v); ints<int32_t>(c, v); ints<uint32_t>(c, v); ints<int64_t>(c, v); ints<uint64_t>(c, v);
        uint8_t q[4];
        ref::put32(q, uint32_t(v));
        std::array<unsigned char, 4> q4 = {{q[0], q[1], q[2], q[3]}};
        std::array<unsigned char, 2> q2 = {{q[2], q[3]}};
        c.eq(int64_t(U::from_big_endian<int32_t>(q4)), int64_t(ref::get32(q)), "from_big_endian int32");
        c.eq(U::from_big_endian<uint32_t>(q4), uint32_t(v), "from_big_endian uint32");
        c.eq(int(U::from_big_endian<int16_t>(q2)), int(int16_t(uint16_t(v))), "from_big_endian int16");
        c.eq(int(U::from_big_endian<uint16_t>(q2)), int(uint16_t(v)), "from_big_endian uint16");
        c.eq(int64_t(U::from_big_endian<int32_t>(q[0], q[1], q[2], q[3])), int64_t(ref::get32(q)), "from_big_endian bytes");
        float f = U::from_big_endian<float>(q4);
        c.eq(ref::f2u(f), uint32_t(v), "from_big_endian float");
        auto fb = U::to_big_endian(ref::u2f(uint32_t(v)));
        c.check(memcmp(fb.data(), q, 4) == 0, "to_big_endian float");
    }
    // characters: all 256, every case
    for (int a = 0; a < 256 && !c.failed; a++) {
        bool known;
        uint8_t e = a < 128 ? ebcdic_of(char(a), known) : (known = false, 0);
        if (known) {
            c.eq(int(U::to_EBCDIC_from_ASCII(uint8_t(a))), int(e), "EBCDIC of ASCII " + std::to_string(a));
            c.eq(int(U::to_ASCII_from_EBCDIC(e)), a, "ASCII of EBCDIC " + std::to_string(int(e)));
            c.eq(U::is_printable_EBCDIC(e), a >= 32 && a < 127, "printable EBCDIC " + std::to_string(int(e)));
        }
        c.eq(U::is_printable_ASCII(uint8_t(a)), a >= 32 && a < 127, "printable ASCII " + std::to_string(a));
        uint8_t x = U::to_EBCDIC_from_ASCII(uint8_t(a)), y = U::to_ASCII_from_EBCDIC(uint8_t(a));
        c.check(x == 0x3F || U::to_ASCII_from_EBCDIC(x) == a, "ASCII " + std::to_string(a) + " does not survive a round trip through EBCDIC");
        c.check(y == 0x1A || U::to_EBCDIC_from_ASCII(y) == a, "EBCDIC " + std::to_string(a) + " does not survive a round trip through ASCII");
    }
}

static std::string foreign_text(Ctx& c)
{
    uint64_t seed = c.draw(1 << 20);
    int style     = int(c.draw(4));
    std::string t(3200, ' ');
    static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .<(+&*);-/,%_>?:#@'=\"$!";
    for (int l = 0; l < 40; l++) {
        char p[8];
        snprintf(p, 8, "C%2d ", l + 1);
        if (style < 3) t.replace(l * 80, 4, p);
        size_t len = style == 0 ? 0 : hash({seed, uint64_t(l)}) % 77;
        for (size_t i = 0; i < len; i++) t[l * 80 + 4 + i] = al[hash({seed, uint64_t(l), i}) % al.size()];
    }
    if (style == 3) t.replace(0, 3, "C 1");
    return t;
}

static void foreign(Ctx& c)
{
    const int np = c.size(), me = c.rank();
    size_t ns = c.count_in(0, 40, 65535), nt = ns > 1000 ? c.draw(3) : c.count_in(0, 20, 1500);
    bool ibm  = c.chance(2, 3), ebcdic = c.flip();
    std::string text = foreign_text(c);
    uint64_t seed    = c.draw(1 << 20);
    int style = int(c.draw(8)), ss = int(c.draw(S_NSTYLES));
    int inc   = 1 + int(c.draw(32767));
    RuleSpec R = gen_rule(c);
    IoOpt io   = gen_io(c, 240 + 4 * ns);
    int scm    = int(c.draw(3));
    ref::File f;
    f.ns     = ns;
    f.inc_us = inc;
    f.format = ibm ? 1 : 5;
    f.tr.resize(nt);
    std::vector<std::vector<uint32_t>> want(nt);
    for (size_t t = 0; t < nt; t++) {
        for (size_t b = 0; b < 240; b++) f.tr[t].h[b] = raw_byte(seed, 1, t, b);
        static const int sc[] = {1, 10, 100, 1000, 10000, -1, -10, -100, -1000, -10000, 0, 32767, -32768, -32767, 3, -7};
        if (scm) for (int p : {70, 68, 200}) ref::put16(&f.tr[t].h[p], sc[hash({seed, scm == 1 ? t : 0, uint64_t(p)}) % 16]);
        f.tr[t].s.resize(ns);
        want[t].resize(ns);
        for (size_t j = 0; j < ns; j++) {
            uint32_t w = ibm ? gen_ibm(hash({seed, t, j}), style) : sample_bits(ss, seed, t, j);
            f.tr[t].s[j] = w;
            want[t][j]   = ibm ? ref::f2u(float(ibm_value(w))) : w;
        }
    }
    auto bytes = f.encode();
    for (int i = 3200; i < 3600; i++) {  // whatever the other fields hold
        bool used = (i >= 3216 && i < 3218) || (i >= 3220 && i < 3222) || (i >= 3224 && i < 3226) || (i >= 3504 && i < 3506);
        if (!used) bytes[i] = raw_byte(seed, 2, 0, i);
    }
    for (int i = 0; i < 3200; i++) {
        bool k;
        bytes[i] = ebcdic ? ebcdic_of(text[i], k) : uint8_t(text[i]);
    }
    c.desc << "file ns=" << ns << " nt=" << nt << (ibm ? " IBM style " : " IEEE style ") << (ibm ? style : ss) << (ebcdic ? " EBCDIC" : " ASCII") << " rule=" << R.str() << " " << io.str();
    c.label(ibm ? "IBM file" : "IEEE file");
    c.label(ebcdic ? "EBCDIC text" : "ASCII text");
    c.nontrivial(ns > 0 && nt > 0);
    std::string fn = c.path("c07.segy");
    if (me == 0) ref::spit(fn, bytes);
    barrier();
    auto piol = new_piol();
    {
        auto r = open_read(piol, fn, io);
        c.eq(r->readNs(), ns, "samples per trace");
        c.eq(r->readNt(), nt, "trace count");
        c.check(std::fabs(r->readInc() - inc * 1e-6) < 1e-12, "interval");
        std::string g = r->readText();
        if (g != text) {
            size_t i = 0;
            while (i < 3200 && i < g.size() && g[i] == text[i]) i++;
            c.fail("text header differs at character " + std::to_string(i) + ": got " + std::to_string(i < g.size() ? int(uint8_t(g[i])) : -1) + " want " + std::to_string(int(uint8_t(text[i]))));
        }
        Sv all(nt);
        for (size_t t = 0; t < nt; t++) all[t] = t;
        int kind = int(c.draw(3));
        Share sh = gen_share(c, all, np);
        auto& ids = sh.ids[me];
        bool prm  = c.flip();
        c.desc << " read" << kind << sh.str();
        std::vector<float> buf(ids.size() * ns + 1);
        EP::Param p(R.make(), ids.size());
        EP::Param* pp = prm ? &p : PIOL_PARAM_NULL;
        if (kind == 0 && !sh.list) r->readTrace(ids.empty() ? 0 : ids[0], ids.size(), buf.data(), pp);
        else if (kind == 1) r->readTraceNonMonotonic(ids.size(), ids.data(), buf.data(), pp);
        else r->readTraceNonContiguous(ids.size(), ids.data(), buf.data(), pp);
        for (size_t k = 0; k < ids.size() && !c.failed; k++) {
            for (size_t j = 0; j < ns && !c.failed; j++) {
                uint32_t g_ = ref::f2u(buf[k * ns + j]), w = want[ids[k]][j];
                bool ok = ibm ? same_float(ref::u2f(g_), ref::u2f(w)) : g_ == w;
                if (!ok) {
                    std::ostringstream s;
                    s << "trace " << ids[k] << " sample " << j << " stored as 0x" << std::hex << f.tr[ids[k]].s[j] << ": read 0x" << g_ << " want 0x" << w;
                    c.fail(s.str());
                }
            }
            if (prm) {
                auto d = prm_vs_header(&p, k, R, f.tr[ids[k]].h.data());
                if (!d.empty()) c.fail("trace " + std::to_string(ids[k]) + ": " + d);
            }
        }
        c.check(!is_err(piol), "reading a well-formed file recorded an error");
    }
    drop(fn);
}
static void prop(Ctx& c)
{
    if (c.chance(1, 3)) numbers(c);
    else foreign(c);
}
int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
