// C18: ASCII classification, case mapping, comparison, prefixes and suffixes.
#include "text.hpp"
#include "charstr.h"
using namespace mc;

static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static uint64_t ref_class(int c)
{
    auto in = [&](int a, int b) { return c >= a && c <= b; };
    uint64_t k = 0;
    if (in(0, 31) || c == 127) k |= CHARSTR_CONTROL;
    if (in('0', '9')) k |= CHARSTR_DIGIT;
    if (in('a', 'z')) k |= CHARSTR_LOWER;
    if (in('A', 'Z')) k |= CHARSTR_UPPER;
    if (c == 9) k |= CHARSTR_HT;
    if (c == 10) k |= CHARSTR_LF;
    if (c == 12) k |= CHARSTR_FF;
    if (c == 13) k |= CHARSTR_CR;
    if (c == 32) k |= CHARSTR_SPACE;
    if (in('0', '7')) k |= CHARSTR_OCTAL;
    if (in('0', '9') || in('a', 'f') || in('A', 'F')) k |= CHARSTR_HEX;
    if (c == '_') k |= CHARSTR_UNDER;
    if (in(32, 126)) k |= CHARSTR_PRINT;
    return k;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static int ref_cmp(const std::string &a, const std::string &b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        int x = i < a.size() ? lo((uint8_t)a[i]) : 0, y = i < b.size() ? lo((uint8_t)b[i]) : 0;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
static void check_pair(const std::string &a, const std::string &b)
{
    // the strings continue with garbage after their terminators
    static char A[64], B[64];
    memcpy(A, a.data(), a.size()); A[a.size()] = 0; memcpy(A + a.size() + 1, "a~", 3);
    memcpy(B, b.data(), b.size()); B[b.size()] = 0; memcpy(B + b.size() + 1, "Z!", 3);
    int w = ref_cmp(a, b, -1);
    int g = charstr_case_cmp(A, B);
    outcome(10 + w);
    MC_CHECK(sgn(g) == w, "charstr_case_cmp(%s, %s) is %d", quote(a).c_str(), quote(b).c_str(), g);
    size_t m = std::max(a.size(), b.size()) + 2;
    for (size_t n = 0; n <= m + 1; n++) {
        size_t k = n == m + 1 ? (size_t)-1 : n;
        g = charstr_ncase_cmp(A, B, k);
        w = ref_cmp(a, b, k);
        MC_CHECK(sgn(g) == w, "charstr_ncase_cmp(%s, %s, %zd) is %d", quote(a).c_str(), quote(b).c_str(), (ssize_t)k, g);
    }
    bool starts = a.size() >= b.size() && !a.compare(0, b.size(), b);
    bool cstarts = a.size() >= b.size() && !ref_cmp(a.substr(0, b.size()), b, -1);
    bool ends = a.size() >= b.size() && !a.compare(a.size() - b.size(), b.size(), b);
    outcome(20 + starts + 2 * cstarts + 4 * ends);
    const char *want = starts ? A + b.size() : nullptr, *cwant = cstarts ? A + b.size() : nullptr;
    MC_CHECK(charstr_skip_prefix(A, B) == want, "charstr_skip_prefix(%s, %s) is wrong", quote(a).c_str(), quote(b).c_str());
    MC_CHECK(charstr_case_starts_with(A, B) == want, "charstr_case_starts_with(%s, %s) is wrong", quote(a).c_str(), quote(b).c_str());
    MC_CHECK(charstr_case_skip_prefix(A, B) == cwant, "charstr_case_skip_prefix(%s, %s) is wrong", quote(a).c_str(), quote(b).c_str());
    MC_CHECK(charstr_ncase_starts_with(A, B) == cwant, "charstr_ncase_starts_with(%s, %s) is wrong", quote(a).c_str(), quote(b).c_str());
    MC_CHECK(charstr_ends_with(A, B) == ends, "charstr_ends_with(%s, %s) is wrong", quote(a).c_str(), quote(b).c_str());
    step(m + 7);
}
static void check_case(const std::string &s)
{
    // whole string (s may hold a NUL: conversion stops there) and every sub-string
    size_t n = s.size();
    char b[80];
    for (int upper = 0; upper < 2; upper++) {
        auto f = [&](int c) { return (char)(upper ? up((uint8_t)c) : lo((uint8_t)c)); };
        memcpy(b, s.data(), n); memcpy(b + n, "\0Mm", 4);
        char *r = upper ? charstr_ucase_str(b) : charstr_lcase_str(b);
        MC_CHECK(r == b, "in-place case conversion does not return its argument");
        size_t z = strnlen(s.data(), n);
        for (size_t i = 0; i < n; i++) {
            char w = i < z ? f(s[i]) : s[i];
            MC_CHECK(b[i] == w, "converting %s to %s case gives %s", quote(s).c_str(), upper ? "upper" : "lower", quote(std::string(b, n)).c_str());
        }
        MC_CHECK(!memcmp(b + n, "\0Mm", 3), "converting %s changes bytes after the terminator", quote(s).c_str());
        for (size_t i = 0; i <= n; i++) for (size_t e = i; e <= n; e++) {
            memcpy(b, s.data(), n); memcpy(b + n, "\0Mm", 4);
            r = upper ? charstr_ucase_substr(b + i, b + e) : charstr_lcase_substr(b + i, b + e);
            MC_CHECK(r == b + i, "in-place case conversion does not return its argument");
            for (size_t k = 0; k < n; k++) {
                char w = k >= i && k < e ? f(s[k]) : s[k];
                MC_CHECK(b[k] == w, "converting bytes %zu..%zu of %s to %s case gives %s", i, e, quote(s).c_str(), upper ? "upper" : "lower", quote(std::string(b, n)).c_str());
            }
            step();
        }
    }
}

void mc::suites(std::vector<Suite> &out)
{
    out.push_back(numbered("bytes", "every byte value: classes, case mappings, digit value", 1, [](uint64_t) {
        for (int c = 0; c < 256; c++) {
            MC_CHECK(charstr_char_class((char)c) == ref_class(c), "byte %02x has the classes %llx instead of %llx", c, (unsigned long long)charstr_char_class((char)c), (unsigned long long)ref_class(c));
            MC_CHECK((uint8_t)charstr_lcase_char((char)c) == lo(c), "byte %02x has the lower case %02x", c, (uint8_t)charstr_lcase_char((char)c));
            MC_CHECK((uint8_t)charstr_ucase_char((char)c) == up(c), "byte %02x has the upper case %02x", c, (uint8_t)charstr_ucase_char((char)c));
            if (ref_class(c) & CHARSTR_HEX) {
                unsigned w = c <= '9' ? c - '0' : lo(c) - 'a' + 10;
                MC_CHECK(charstr_digit_value((char)c) == w, "digit %c has the value %u", c, charstr_digit_value((char)c));
            }
            step(4);
        }
    }));
    out.push_back(numbered("pairs-1", "every pair of single bytes, alone and with a common prefix", 256, [](uint64_t a) {
        for (int b = 0; b < 256; b++) {
            std::string x = a ? std::string(1, (char)a) : "", y = b ? std::string(1, (char)b) : "";
            check_pair(x, y);
            check_pair("q" + x, "Q" + y);
            if (a && b) { check_pair(x + "q", y); check_pair(x + "r", y + "Q"); }
        }
    }));
    Alphabet cls = bytes_of("aAzZ@[`{1\xe4\xc4I");
    auto all = [cls](int max) {
        auto v = std::make_shared<std::vector<std::string>>();
        v->push_back("");
        for (size_t from = 0, len = 0; (int)len < max; len++) {
            size_t to = v->size();
            for (size_t i = from; i < to; i++) for (auto &c : cls) v->push_back((*v)[i] + c);
            from = to;
        }
        return v;
    };
    auto v2 = all(thorough ? 4 : 3);
    out.push_back(numbered("pairs", std::string("all pairs of strings of up to ") + (thorough ? "4" : "3") + " bytes over 12 bytes around the letter ranges and above 127, every bound", v2->size(), [v2](uint64_t i) {
        current((*v2)[i].data(), (*v2)[i].size());
        for (auto &b : *v2) check_pair((*v2)[i], b);
    }));
    auto small = std::make_shared<std::vector<std::string>>();
    small->push_back("");
    for (size_t from = 0, len = 0; len < (thorough ? 8u : 6u); len++) {
        size_t to = small->size();
        for (size_t i = from; i < to; i++) for (char c : std::string("aAb")) small->push_back((*small)[i] + c);
        from = to;
    }
    out.push_back(numbered("pairs-long", std::string("all pairs of strings of up to ") + (thorough ? "8" : "6") + " bytes over 3 letters", small->size(), [small](uint64_t i) {
        current((*small)[i].data(), (*small)[i].size());
        for (auto &b : *small) check_pair((*small)[i], b);
    }));
    out.push_back(words("case", std::string("in-place conversion of all strings of up to ") + (thorough ? "6" : "5") + " bytes over 9 bytes incl. NUL, whole and every sub-string", bytes_of(std::string("aAzZ@{\xe4I\0", 9)), 0, thorough ? 6 : 5, check_case));
    out.push_back(words("case-any", "in-place conversion of all strings of 2 arbitrary bytes", all_bytes(0), 1, 2, check_case));
    out.push_back(numbered("long", "strings of 0..600 bytes and around powers of two up to 2^17 differing at one place or not at all", ladder(600, 17).size(), [](uint64_t no) {
        size_t n = ladder(600, 17)[no];
        std::string a(n, 'x'), b(n, 'X');
        for (size_t d : {(size_t)-1, (size_t)0, (size_t)n / 2, (size_t)n - 1}) for (char c : {'\xff', '[', 'y', 'A'}) {
            std::string u = a, v = b;
            if (d < n) u[d] = c;
            int w = ref_cmp(u, v, -1);
            MC_CHECK(sgn(charstr_case_cmp(u.c_str(), v.c_str())) == w && sgn(charstr_case_cmp(v.c_str(), u.c_str())) == -w, "wrong comparison of strings of %zu bytes differing at %zd", (size_t)n, (ssize_t)d);
            for (size_t k : {(size_t)0, d, d + 1, (size_t)n, (size_t)n + 5, (size_t)1 << 63, (size_t)-1})
                MC_CHECK(sgn(charstr_ncase_cmp(u.c_str(), v.c_str(), k)) == ref_cmp(u, v, k), "wrong bounded comparison (%zd) of strings of %zu bytes differing at %zd", (ssize_t)k, (size_t)n, (ssize_t)d);
            MC_CHECK((charstr_case_skip_prefix(u.c_str(), v.c_str()) != nullptr) == (w == 0), "wrong prefix verdict on %zu bytes", (size_t)n);
            MC_CHECK(charstr_ends_with((v + u).c_str(), u.c_str()), "wrong suffix verdict on %zu bytes", (size_t)n);
            for (const std::string &pre : {std::string(), std::string("q"), std::string("xxx")}) {
                std::string t = pre + u;
                MC_CHECK(charstr_ends_with(t.c_str(), a.c_str()) == (u == a), "wrong suffix verdict on strings of %zu bytes differing at %zd", (size_t)n, (ssize_t)d);
                MC_CHECK(charstr_ends_with(u.c_str(), t.c_str()) == pre.empty(), "wrong suffix verdict on a string of %zu bytes and a longer suffix", (size_t)n);
                std::string w2 = u + pre;
                const char *q = charstr_skip_prefix(w2.c_str(), a.c_str());
                MC_CHECK(q == (u == a ? w2.c_str() + n : nullptr), "wrong prefix verdict on strings of %zu bytes differing at %zd", (size_t)n, (ssize_t)d);
                q = charstr_case_skip_prefix(w2.c_str(), b.c_str());
                MC_CHECK(q == (w == 0 ? w2.c_str() + n : nullptr), "wrong caseless prefix verdict on strings of %zu bytes differing at %zd", (size_t)n, (ssize_t)d);
            }
            std::string l = u, h = u;
            charstr_lcase_str(&l[0]); charstr_ucase_str(&h[0]);
            for (size_t i = 0; i < n; i++) MC_CHECK((uint8_t)l[i] == lo((uint8_t)u[i]) && (uint8_t)h[i] == up((uint8_t)u[i]), "wrong conversion of byte %zu of %zu", i, (size_t)n);
            step(12);
        }
    }));
}
