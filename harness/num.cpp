// C21: binary64 bit patterns to integers.  C22: integers, comparators, hashes.
#include "text.hpp"
#include <climits>
#include <cmath>
#include "fsdyn/float.h"
#include "fsdyn/integer.h"
#include "fsdyn/hashtable.h"
using namespace mc;

static inline void check_bits(uint64_t v)
{
    double d;
    memcpy(&d, &v, 8);
    long long n = 0x5a5a5a5a;
    unsigned long long u = 0x5a5a5a5a;
    bool whole = std::isfinite(d) && std::trunc(d) == d;
    bool wi = whole && d >= -9223372036854775808.0 && d < 9223372036854775808.0;
    bool wu = whole && d >= 0 && d < 18446744073709551616.0;
    bool gi = binary64_to_integer(v, &n), gu = binary64_to_unsigned(v, &u);
    if (gi != wi) fail("binary64_to_integer(%016llx) %s", (unsigned long long)v, gi ? "succeeds" : "fails");
    if (gi && n != (long long)d) fail("binary64_to_integer(%016llx) gives %lld instead of %lld", (unsigned long long)v, n, (long long)d);
    if (gu != wu) fail("binary64_to_unsigned(%016llx) %s", (unsigned long long)v, gu ? "succeeds" : "fails");
    if (gu && u != (unsigned long long)d) fail("binary64_to_unsigned(%016llx) gives %llu instead of %llu", (unsigned long long)v, u, (unsigned long long)d);
}
static const uint64_t M52 = ((uint64_t)1 << 52) - 1;

static std::vector<uint64_t> boundary_ints()
{
    std::vector<uint64_t> v;
    for (int k = 0; k < 64; k++) for (int j = -3; j <= 3; j++) { v.push_back(((uint64_t)1 << k) + j); v.push_back(-((uint64_t)1 << k) + j); }
    for (int k = 0; k < 64; k += 4) v.push_back(0x123456789abcdef0ull >> k);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static void unique(std::vector<uint64_t> &v, const char *what)
{
    size_t n = v.size();
    std::sort(v.begin(), v.end());
    MC_CHECK(std::unique(v.begin(), v.end()) - v.begin() == (ptrdiff_t)n, "two different %s have the same hash", what);
    step(n);
}
static void check_pure(const std::string &s)
{
    // s holds no NUL for hash_string; blobs may hold any byte
    static char b[2][256];
    uint64_t hs = 0, hb = 0; bool first = true;
    bool str = s.find('\0') == std::string::npos;
    for (int fill = 0; fill < 3; fill++) for (int off = 1; off < 17; off++) for (int which = 0; which < 2; which++) {
        char *p = b[which];
        memset(p, fill == 0 ? 0 : fill == 1 ? 0xff : 'a', sizeof b[0]);
        memcpy(p + 32 + off, s.data(), s.size());
        uint64_t x = hash_blob(p + 32 + off, s.size());
        uint64_t y = 0;
        if (str) { p[32 + off + s.size()] = 0; y = hash_string(p + 32 + off); }
        if (first) { hb = x; hs = y; first = false; }
        MC_CHECK(x == hb, "hash_blob of %s depends on where it lies", hex(s.data(), s.size()).c_str());
        MC_CHECK(y == hs, "hash_string of %s depends on where it lies", quote(s).c_str());
        step(2);
    }
}

void mc::suites(std::vector<Suite> &out)
{
    if (prop == "C21") {
        out.push_back(numbered("all-exponents", "every sign and exponent with every run of set bits, every pair of set bits, their complements and every 8-bit field in the significand", 4096, [](uint64_t se) {
            uint64_t top = se << 52;
            for (int i = 0; i < 52; i++) for (int j = i; j < 52; j++) {
                uint64_t run = ((uint64_t)2 << j) - ((uint64_t)1 << i), two = (uint64_t)1 << i | (uint64_t)1 << j;
                for (uint64_t m : {run, two, M52 & ~run, M52 & ~two}) check_bits(top | (m & M52));
                step(4);
            }
            for (int k = 0; k <= 44; k++) for (uint64_t x = 0; x < 256; x++) { check_bits(top | x << k); step(); }
        }));
        int w = thorough ? 22 : 16;
        out.push_back(numbered("relevant-exponents", "exponents -2..66 of both signs with every " + std::to_string(w) + "-bit field at every place of the significand, zeros or ones elsewhere", 69 * 2 * (52 - w + 1), [w](uint64_t i) {
            int k = i % (52 - w + 1); i /= 52 - w + 1;
            uint64_t top = (i & 1) << 63 | (uint64_t)(1023 - 2 + i / 2) << 52;
            uint64_t field = (((uint64_t)1 << w) - 1) << k;
            for (uint64_t x = 0; x < (uint64_t)1 << w; x++) {
                check_bits(top | x << k);
                check_bits(top | (M52 & ~field) | x << k);
            }
            step((uint64_t)2 << w);
        }));
        out.push_back(numbered("three-bits", "exponents -2..66 of both signs with every 3 set bits", 69 * 2, [](uint64_t i) {
            uint64_t top = (i & 1) << 63 | (uint64_t)(1023 - 2 + i / 2) << 52;
            for (int a = 0; a < 52; a++) for (int b = a + 1; b < 52; b++) for (int c = b + 1; c < 52; c++) {
                check_bits(top | (uint64_t)1 << a | (uint64_t)1 << b | (uint64_t)1 << c);
                step();
            }
        }));
        out.push_back(numbered("integers", "every integer up to 2^22 in size and the neighbours of every power of two, also one unit in the last place off", 65, [](uint64_t i) {
            auto one = [](double d) {
                uint64_t v; memcpy(&v, &d, 8);
                for (int k = -2; k <= 2; k++) { check_bits(v + k); check_bits((v + k) ^ (uint64_t)1 << 63); }
                step(10);
            };
            if (i == 64) { for (int n = 0; n < 1 << 22; n++) one(n); return; }
            for (int j = -100; j <= 100; j++) one(std::ldexp(1.0, (int)i) + j);
        }));
        return;
    }
    auto ints = std::make_shared<std::vector<uint64_t>>(boundary_ints());
    out.push_back(numbered("integers", "all pairs of boundary integers: boxing and comparison, signed and unsigned", ints->size(), [ints](uint64_t i) {
        uint64_t a = (*ints)[i];
        MC_CHECK(as_intptr(as_integer((intptr_t)a)) == (intptr_t)a && as_uintptr(as_unsigned(a)) == a, "%llx does not survive boxing", (unsigned long long)a);
        for (uint64_t b : *ints) {
            int ws = (intptr_t)a < (intptr_t)b ? -1 : (intptr_t)a > (intptr_t)b, wu = a < b ? -1 : a > b;
            int gs = integer_cmp(as_integer((intptr_t)a), as_integer((intptr_t)b)), gu = unsigned_cmp(as_unsigned(a), as_unsigned(b));
            MC_CHECK(sgn(gs) == ws, "integer_cmp(%lld, %lld) is %d", (long long)a, (long long)b, gs);
            MC_CHECK(sgn(gu) == wu, "unsigned_cmp(%llu, %llu) is %d", (unsigned long long)a, (unsigned long long)b, gu);
            step(2);
        }
    }));
    out.push_back(numbered("small-integers", "all pairs of integers -600..600, and around the 32-bit limits", 1201, [](uint64_t i) {
        for (int64_t base : {(int64_t)0, (int64_t)INT_MAX, (int64_t)INT_MIN, (int64_t)1 << 32, INT64_MAX - 600, INT64_MIN + 600}) {
            intptr_t a = base + (int64_t)i - 600;
            for (int64_t d = -600; d <= 600; d++) {
                intptr_t b = base + d;
                MC_CHECK(sgn(integer_cmp(as_integer(a), as_integer(b))) == (a < b ? -1 : a > b), "integer_cmp(%ld, %ld) is wrong", a, b);
                uintptr_t ua = a, ub = b;
                MC_CHECK(sgn(unsigned_cmp(as_unsigned(ua), as_unsigned(ub))) == (ua < ub ? -1 : ua > ub), "unsigned_cmp(%lu, %lu) is wrong", ua, ub);
                step(2);
            }
        }
    }));
    out.push_back(numbered("integer-hashes", "no collision among all integers of up to 22 bits of both signs, all 16-bit fields at every place and boundary integers; purity", 2, [ints](uint64_t which) {
        std::vector<uint64_t> in(*ints), v;
        for (int64_t n = -(1 << 22); n < 1 << 22; n++) in.push_back(n);
        for (int k = 0; k <= 48; k++) for (uint64_t x = 0; x < 65536; x++) { in.push_back(x << k); in.push_back(~(x << k)); }
        std::sort(in.begin(), in.end());
        in.erase(std::unique(in.begin(), in.end()), in.end());
        for (uint64_t x : in) v.push_back(which ? hash_unsigned(as_unsigned(x)) : hash_integer(as_integer((intptr_t)x)));
        for (size_t i = 0; i < in.size(); i += 7)
            MC_CHECK(v[i] == (which ? hash_unsigned(as_unsigned(in[i])) : hash_integer(as_integer((intptr_t)in[i]))), "the hash of %llx is not always the same", (unsigned long long)in[i]);
        unique(v, which ? "unsigned integers" : "integers");
    }));
    out.push_back(numbered("short-hashes", "no collision among all strings and all blobs of up to 3 bytes; purity across calls", 2, [](uint64_t blob) {
        std::vector<uint64_t> v;
        v.reserve(17000000);
        unsigned char b[8] = {0};
        int lo = blob ? 0 : 1;
        auto h = [&](int n) { b[n] = blob ? 0xee : 0; return blob ? hash_blob(b, n) : hash_string((char *)b); };
        v.push_back(h(0));
        for (int x = lo; x < 256; x++) { b[0] = x; v.push_back(h(1)); }
        for (int x = lo; x < 256; x++) for (int y = lo; y < 256; y++) { b[0] = x; b[1] = y; v.push_back(h(2)); }
        for (int x = lo; x < 256; x++) for (int y = lo; y < 256; y++) for (int z = lo; z < 256; z++) {
            b[0] = x; b[1] = y; b[2] = z;
            v.push_back(h(3));
            if (z == 77) MC_CHECK(v.back() == h(3), "the hash is not always the same");
        }
        unique(v, blob ? "blobs of up to 3 bytes" : "strings of up to 3 bytes");
    }));
    out.push_back(words("purity", "all strings and blobs of up to 6 bytes over 5, at 16 alignments, in 2 buffers and 3 surroundings", bytes_of(std::string("a\x01\x80\xff\0", 5)), 0, thorough ? 7 : 6, check_pure));
    out.push_back(words("purity-any", "all strings and blobs of up to 2 arbitrary bytes at 16 alignments, in 2 buffers and 3 surroundings", all_bytes(0), 0, 2, check_pure));
    out.push_back(numbered("purity-long", "strings and blobs of 0..150 bytes of 3 patterns at 16 alignments", 151, [](uint64_t n) {
        for (int pat = 0; pat < 3; pat++) {
            std::string s(n, 'x');
            for (size_t i = 0; i < n; i++) s[i] = pat == 0 ? 'x' : pat == 1 ? 1 + i : i * 29;
            check_pure(s);
        }
    }));
}
