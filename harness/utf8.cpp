// C12: UTF-8 decoding, encoding, validation, sanitizing against the standard.
#include "text.hpp"
#include "ref_utf8.hpp"
#include "charstr.h"
using namespace mc;

// Decode at s with n available bytes (bounded) or none given.
static inline void check_decode(const uint8_t *s, size_t n, bool bounded)
{
    int k = ref::utf8_len(s, n);
    int cp = -7;
    const char *e = charstr_decode_utf8_codepoint((const char *)s, bounded ? (const char *)s + n : nullptr, &cp);
    if (!k) {
        if (e) fail("the ill-formed sequence %s (%s) is decoded to U+%04X", hex(s, n).c_str(), bounded ? "bounded" : "unbounded", cp);
        return;
    }
    if (!e) fail("the well-formed sequence %s (%s) is refused", hex(s, n).c_str(), bounded ? "bounded" : "unbounded");
    if (e != (const char *)s + k) fail("decoding %s (%s) consumes %td bytes instead of %d", hex(s, n).c_str(), bounded ? "bounded" : "unbounded", e - (const char *)s, k);
    if (cp != ref::utf8_value(s, k)) fail("decoding %s gives U+%04X", hex(s, n).c_str(), cp);
    if (charstr_decode_utf8_codepoint((const char *)s, bounded ? (const char *)s + n : nullptr, nullptr) != e)
        fail("decoding %s without asking for the codepoint differs", hex(s, n).c_str());
}

static void check_string(const std::string &s)
{
    const uint8_t *p = (const uint8_t *)s.data();
    size_t n = s.size();
    // every position and every end
    for (size_t i = 0; i <= n; i++) for (size_t e = i; e <= n; e++) { check_decode(p + i, e - i, true); step(); }
    for (size_t i = 0; i <= n; i++) {
        // the implied terminator counts as a further byte
        std::string t = s.substr(i) + std::string(4, 0);
        check_decode((const uint8_t *)t.data(), t.size(), false);
        step();
    }
    for (size_t e = 0; e <= n; e++) {
        ref::U u;
        bool want = ref::utf8_decode(s.substr(0, e), u);
        outcome(want ? 2 + u.size() : 1);
        MC_CHECK(charstr_valid_utf8_bounded((const char *)p, (const char *)p + e) == want, "charstr_valid_utf8_bounded says %s to %s (end after %zu)", want ? "no" : "yes", hex(p, n).c_str(), e);
        step();
    }
    std::string z = s.substr(0, strnlen(s.data(), n));
    ref::U u;
    bool want = ref::utf8_decode(z, u);
    MC_CHECK(charstr_valid_utf8(z.c_str()) == want, "charstr_valid_utf8 says %s to %s", want ? "no" : "yes", hex(z.data(), z.size()).c_str());
    std::string sane;
    for (size_t i = 0; i < z.size();) {
        int k = ref::utf8_len((const uint8_t *)z.data() + i, z.size() - i);
        if (k) { sane += z.substr(i, k); i += k; }
        else { sane += "\xef\xbf\xbd"; i++; }
    }
    char *r = charstr_sanitize_utf8(z.c_str());
    MC_CHECK(r && sane == r, "sanitizing %s gives %s instead of %s", hex(z.data(), z.size()).c_str(), r ? hex(r, strlen(r)).c_str() : "NULL", hex(sane.data(), sane.size()).c_str());
    fsfree(r);
    step(2);
}

// Representatives of every byte class and boundary of Table 3-7.
static const char CLS[] = "\x00\x41\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf8\xfe\xff";
static const char CLS_S[] = "\x00\x41\x80\x8f\x90\x9f\xa0\xbf\xc1\xc2\xe0\xe1\xed\xef\xf0\xf1\xf4\xf5";
static const char CLS_XS[] = "\x41\x80\xbf\xc2\xe1\xf1\xff";

void mc::suites(std::vector<Suite> &out)
{
    out.push_back(numbered("null", "NULL arguments", 1, [](uint64_t) {
        int cp;
        MC_CHECK(!charstr_decode_utf8_codepoint(nullptr, nullptr, &cp), "decoding NULL does not give NULL");
        MC_CHECK(!charstr_encode_utf8_codepoint('A', nullptr, nullptr), "encoding to NULL does not give NULL");
        step(2);
    }));
    out.push_back(numbered("encode", "every Unicode scalar value with every buffer size 0..5 and unlimited, decoded back", 0x1100, [](uint64_t blk) {
        for (int cp = blk << 8; cp < (int)((blk + 1) << 8); cp++) {
            if (!ref::scalar(cp)) continue;
            std::string w = ref::utf8(cp);
            for (int room = -1; room <= 5; room++) {
                char b[12];
                memset(b, 0x55, sizeof b);
                char *e = charstr_encode_utf8_codepoint(cp, b + 2, room < 0 ? nullptr : b + 2 + room);
                step();
                if (room >= 0 && room < (int)w.size()) { MC_CHECK(!e, "encoding U+%04X into %d bytes is not refused", cp, room); continue; }
                MC_CHECK(e == b + 2 + w.size(), "encoding U+%04X into %d bytes: wrong end", cp, room);
                MC_CHECK(!memcmp(b + 2, w.data(), w.size()), "encoding U+%04X gives %s", cp, hex(b + 2, w.size()).c_str());
            }
            check_decode((const uint8_t *)w.data(), w.size(), true);
        }
    }));
    out.push_back(numbered("decode-3", "every sequence of up to 3 bytes, with every end and unbounded", 256, [](uint64_t a) {
        uint8_t s[8] = {(uint8_t)a};
        check_decode(s, 0, true);
        check_decode(s, 1, true);
        for (int b = 0; b < 256; b++) {
            s[1] = b; s[2] = s[3] = 0;
            check_decode(s, 2, true);
            for (int c = 0; c < 256; c++) {
                s[2] = c;
                check_decode(s, 3, true);
                check_decode(s, 8, false);
                check_decode(s, 8, true);
                step(3);
            }
        }
    }));
    out.push_back(numbered("decode-4", "every sequence of 4 bytes that starts with a byte from 0xf0 up, bounded and unbounded", 16 * 256, [](uint64_t x) {
        uint8_t s[8] = {(uint8_t)(0xf0 + x / 256), (uint8_t)x};
        for (int c = 0; c < 256; c++) {
            s[2] = c;
            for (int d = 0; d < 256; d++) {
                s[3] = d;
                check_decode(s, 4, true);
                check_decode(s, 8, false);
            }
            current(s, 4);
            step(512);
        }
    }));
    out.push_back(words("strings", std::string("all strings of up to ") + (thorough ? "5" : "4") + " bytes over 27 boundary bytes: decoding at every position with every end, validation, sanitizing", bytes_of(std::string(CLS, 27)), 0, thorough ? 5 : 4, check_string));
    out.push_back(words("strings-long", std::string("all strings of up to ") + (thorough ? "6" : "5") + " bytes over 18 boundary bytes", bytes_of(std::string(CLS_S, 18)), 5, thorough ? 6 : 5, check_string));
    out.push_back(words("strings-longer", std::string("all strings of up to ") + (thorough ? "9" : "8") + " bytes over 7 class representatives", bytes_of(std::string(CLS_XS, 7)), 5, thorough ? 9 : 8, check_string));
    Alphabet seqs = {"A", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbd", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf",
                     "\x80", "\xc0\x80", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xff", std::string(1, 0)};
    out.push_back(words("sequences", "all strings of up to 4 well-formed, ill-formed and truncated sequences (20 kinds)", seqs, 0, thorough ? 5 : 4, check_string));
    out.push_back(numbered("long", "strings of 0..2000 bytes and around powers of two up to 2^18 with an ill-formed byte at each of several places: validation and sanitizing", ladder(2000, 18).size(), [](uint64_t no) {
        size_t n = ladder(2000, 18)[no];
        for (int pat = 0; pat < 3; pat++) {
            std::string s;
            while (s.size() < n) s += pat == 0 ? "a" : pat == 1 ? "\xc3\xa4" : "\xff";
            for (size_t bad : {(size_t)-1, (size_t)0, (size_t)n / 2, (size_t)n - 1}) {
                std::string t = s;
                if (bad < n) t[bad] = '\xc3';
                const uint8_t *p = (const uint8_t *)t.data();
                ref::U u;
                bool want = ref::utf8_decode(t, u);
                MC_CHECK(charstr_valid_utf8(t.c_str()) == want && charstr_valid_utf8_bounded(t.data(), t.data() + t.size()) == want, "wrong verdict on a string of %zu bytes", t.size());
                std::string sane;
                for (size_t i = 0; i < t.size();) {
                    int k = ref::utf8_len(p + i, t.size() - i);
                    if (k) { sane += t.substr(i, k); i += k; } else { sane += "\xef\xbf\xbd"; i++; }
                }
                arena_reset();
                char *r = charstr_sanitize_utf8(t.c_str());
                MC_CHECK(r && sane == r, "wrong sanitized string for %zu bytes (pattern %d, bad byte at %zd)", t.size(), pat, (ssize_t)bad);
                step(3);
            }
        }
    }));
}
