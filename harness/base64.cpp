// C11: base64 against a reference codec, over exhaustively enumerated inputs.
#include "text.hpp"
#include "base64.h"
using namespace mc;

static const char *STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static bool is_ws(int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'; }

// ---- reference -------------------------------------------------------------
static char ref_char(int v, char c62, char c63)
{
    if (c62 == -1) c62 = '+';
    if (c63 == -1) c63 = '/';
    return v == 62 ? c62 : v == 63 ? c63 : STD[v];
}
static std::string ref_encode(const std::string &s, char c62, char c63)
{
    std::string r;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned a = (uint8_t)s[i], b = i + 1 < s.size() ? (uint8_t)s[i + 1] : 0, c = i + 2 < s.size() ? (uint8_t)s[i + 2] : 0;
        r += ref_char(a >> 2, c62, c63);
        r += ref_char((a & 3) << 4 | b >> 4, c62, c63);
        r += i + 1 < s.size() ? ref_char((b & 15) << 2 | c >> 6, c62, c63) : '=';
        r += i + 2 < s.size() ? ref_char(c & 63, c62, c63) : '=';
    }
    return r;
}
struct Map { int8_t v[256]; };
static Map ref_map(char c62, char c63)
{
    Map m;
    memset(m.v, -1, sizeof m.v);
    for (int i = 0; i < 64; i++) m.v[(uint8_t)ref_char(i, c62, c63)] = i;
    return m;
}
// text ends at its first NUL, if any
static bool ref_decode(const char *t, size_t n, const Map &m, bool wsp, std::string &out)
{
    char f[4096]; size_t k = 0;
    for (size_t i = 0; i < n && t[i]; i++)
        if (!(wsp && is_ws((uint8_t)t[i]))) f[k++] = t[i];
    out.clear();
    if (k % 4) return false;
    size_t pad = 0;
    while (pad < 3 && pad < k && f[k - 1 - pad] == '=') pad++;
    if (pad > 2) return false;
    for (size_t i = 0; i + pad < k; i++) if (m.v[(uint8_t)f[i]] < 0) return false;
    for (size_t i = 0; i < k; i += 4) {
        int q = i + 4 == k ? 4 - pad : 4;
        unsigned b = 0;
        for (int j = 0; j < 4; j++) b = b << 6 | (j < q ? m.v[(uint8_t)f[i + j]] : 0);
        if (q == 4) { out += (char)(b >> 16); out += (char)(b >> 8); out += (char)b; }
        else if (q == 3) { if (b & 0xff) return false; out += (char)(b >> 16); out += (char)(b >> 8); }
        else { if (b & 0xffff) return false; out += (char)(b >> 16); }
    }
    return true;
}

// ---- checks ----------------------------------------------------------------
static char buf[8192];
static void check_encode(const std::string &s, char c62, char c63, size_t dest_size)
{
    std::string r = ref_encode(s, c62, c63);
    memset(buf, 0x5c, dest_size + 8);
    step();
    size_t n = base64_encode_buffer(s.data(), s.size(), dest_size ? buf : nullptr, dest_size, c62, c63);
    MC_CHECK(n == r.size(), "encoding %s (destination of %zu) reports %zu characters instead of %zu", quote(s).c_str(), dest_size, n, r.size());
    if (!dest_size) return;
    size_t k = std::min(r.size(), dest_size - 1);
    MC_CHECK(!memcmp(buf, r.data(), k), "encoding %s (destination of %zu) gives %s instead of %s", quote(s).c_str(), dest_size,
             quote(std::string(buf, k)).c_str(), quote(r.substr(0, k)).c_str());
    MC_CHECK(buf[k] == 0, "encoding %s (destination of %zu) is not NUL-terminated", quote(s).c_str(), dest_size);
}
static void check_decode(const std::string &t, size_t given, const char *src, char c62, char c63, const Map &m, bool wsp, size_t dest_size, const std::string &r, bool ok)
{
    memset(buf, 0x5c, std::min(dest_size, sizeof buf - 8) + 8);
    step();
    errno = 0;
    ssize_t n = base64_decode_buffer(src, given, dest_size ? buf : nullptr, dest_size, c62, c63, wsp);
    if (!ok) {
        MC_CHECK(n < 0, "decoding %s (white space %s, size %zd, destination of %zu) is accepted with %zd bytes", quote(t).c_str(), wsp ? "ignored" : "not ignored", (ssize_t)given, dest_size, n);
        MC_CHECK(errno == EILSEQ, "decoding %s fails with errno %d", quote(t).c_str(), errno);
        return;
    }
    MC_CHECK(n >= 0, "decoding %s (white space %s, size %zd, destination of %zu) is refused", quote(t).c_str(), wsp ? "ignored" : "not ignored", (ssize_t)given, dest_size);
    MC_CHECK((size_t)n == r.size(), "decoding %s (white space %s, size %zd, destination of %zu) reports %zd bytes instead of %zu", quote(t).c_str(), wsp ? "ignored" : "not ignored", (ssize_t)given, dest_size, n, r.size());
    size_t k = std::min(r.size(), dest_size);
    MC_CHECK(!memcmp(buf, r.data(), k), "decoding %s (destination of %zu) gives %s instead of %s", quote(t).c_str(), dest_size, hex(buf, k).c_str(), hex(r.data(), k).c_str());
}
static void check_simple_decode(const std::string &t)
{
    static const Map std_map = ref_map(-1, -1);
    std::string r;
    bool ok = ref_decode(t.data(), t.size(), std_map, true, r);
    size_t n = 12345;
    step();
    errno = 0;
    char *p = (char *)base64_decode_simple(t.c_str(), &n);
    if (!ok) {
        MC_CHECK(!p, "base64_decode_simple accepts %s", quote(t).c_str());
        MC_CHECK(errno == EILSEQ, "base64_decode_simple of %s fails with errno %d", quote(t).c_str(), errno);
        return;
    }
    MC_CHECK(p, "base64_decode_simple refuses %s", quote(t).c_str());
    MC_CHECK(n == r.size() && !memcmp(p, r.data(), n) && !p[n], "base64_decode_simple of %s gives %s instead of %s", quote(t).c_str(), hex(p, n).c_str(), hex(r.data(), r.size()).c_str());
    fsfree(p);
}
static void check_simple_encode(const std::string &s)
{
    step();
    char *p = base64_encode_simple(s.data(), s.size());
    std::string r = ref_encode(s, -1, -1);
    MC_CHECK(p && r == p, "base64_encode_simple of %s gives %s instead of %s", quote(s).c_str(), p ? p : "NULL", r.c_str());
    MC_CHECK(base64_encoding_size(s.size()) == r.size(), "base64_encoding_size(%zu) is not %zu", s.size(), r.size());
    fsfree(p);
}

// A text in all decoding modes.
static void decode_modes(const std::string &t, char c62, char c63, const Map &m)
{
    size_t nul = strnlen(t.data(), t.size());
    static char src[8192];
    for (int wsp = 0; wsp < 2; wsp++) {
        std::string r;
        bool ok = ref_decode(t.data(), t.size(), m, wsp, r);
        outcome(ok ? 16 + r.size() : 1 + wsp);
        for (int mode = 0; mode < 3; mode++) {
            size_t given = t.size();
            memcpy(src, t.data(), t.size());
            if (mode == 0) { src[t.size()] = 0; given = -1; }                        // NUL decides
            else if (mode == 1) { memcpy(src + t.size(), "AAAA=", 6); }              // size decides
            else { memcpy(src + t.size(), "\0AAA", 5); given = t.size() + 4; }       // both, NUL first
            if (mode == 1 && nul < t.size()) continue;
            for (size_t d = 0; d <= r.size() + 1 && d < 12; d++) check_decode(t, given, src, c62, c63, m, wsp, d, r, ok);
            if (!ok) for (size_t d : {(size_t)1, (size_t)2, (size_t)5}) check_decode(t, given, src, c62, c63, m, wsp, d, r, ok);
            else check_decode(t, given, src, c62, c63, m, wsp, 4000, r, ok);
        }
    }
}

void mc::suites(std::vector<Suite> &out)
{
    out.push_back(numbered("tables", "every entry of the two published tables", 1, [](uint64_t) {
        for (int i = 0; i < 64; i++) MC_CHECK(base64_bitfield_encoding[i] == ref_char(i, -1, -1), "base64_bitfield_encoding[%d] is wrong", i);
        Map m = ref_map(-1, -1);
        for (int c = 0; c < 256; c++) {
            int want = m.v[c] >= 0 ? m.v[c] : c == 0 ? BASE64_ILLEGAL_NUL : c == '=' ? BASE64_ILLEGAL_TRAILER : is_ws(c) ? BASE64_ILLEGAL_WHITESPACE : BASE64_ILLEGAL_OTHER;
            MC_CHECK(base64_bitfield_decoding[c] == want, "base64_bitfield_decoding[%d] is %d instead of %d", c, base64_bitfield_decoding[c], want);
            step();
        }
    }));
    out.push_back(numbered("encoding-size", "every size up to 100000 and within 5000 of every overflow boundary", 6, [](uint64_t part) {
        __int128 two64 = (__int128)1 << 64;
        __int128 centre[] = {50000, two64 / 4 * 3, two64 - 5001, two64 / 2, two64 / 3, two64 / 3 * 2};
        __int128 r = part ? 5000 : 50000;
        for (__int128 n = centre[part] - r; n <= centre[part] + r; n++) {
            if (n < 0 || n >= two64) continue;
            __int128 want = (n + 2) / 3 * 4;
            if (want >= two64) want = two64 - 1;
            size_t got = base64_encoding_size((size_t)n);
            MC_CHECK(got == (size_t)want, "base64_encoding_size(%zu) is %zu instead of %zu", (size_t)n, got, (size_t)want);
            step();
            if (want == two64 - 1) MC_CHECK(base64_encode_simple("", (size_t)n) == nullptr, "base64_encode_simple with %zu bytes is not refused", (size_t)n);
        }
    }));
    out.push_back(numbered("encode-3", "all byte strings of up to 3 bytes: encode, decode back", 257, [](uint64_t a) {
        static const Map m = ref_map(-1, -1);
        std::string s, r;
        if (a == 256) {
            for (int x = -1; x < 256; x++) for (int y = -1; y < (x < 0 ? 0 : 256); y++) {
                s.clear();
                if (x >= 0) s += (char)x;
                if (y >= 0) s += (char)y;
                for (size_t d = 0; d <= 6; d++) check_encode(s, -1, -1, d);
                arena_reset();
                check_simple_encode(s);
                std::string t = ref_encode(s, -1, -1);
                decode_modes(t, -1, -1, m);
                arena_reset();
                check_simple_decode(t);
            }
            return;
        }
        s.assign(3, (char)a);
        char o[8], back[8];
        for (int x = 0; x < 65536; x++) {
            s[1] = x >> 8; s[2] = x;
            unsigned b = (unsigned)a << 16 | x;
            char e[5] = {ref_char(b >> 18, -1, -1), ref_char(b >> 12 & 63, -1, -1), ref_char(b >> 6 & 63, -1, -1), ref_char(b & 63, -1, -1), 0};
            size_t n = base64_encode_buffer(s.data(), 3, o, sizeof o, -1, -1);
            MC_CHECK(n == 4 && !memcmp(o, e, 5), "encoding %s gives %s", quote(s).c_str(), quote(o).c_str());
            ssize_t k = base64_decode_buffer(e, 4, back, sizeof back, -1, -1, x & 1);
            MC_CHECK(k == 3 && !memcmp(back, s.data(), 3), "decoding %s does not give %s", e, quote(s).c_str());
            step(2);
        }
    }));
    out.push_back(numbered("encode-long", "byte strings of 0..40 (thorough 300) bytes, 6 patterns and every single-byte deviation, every destination size; allocating variants", thorough ? 300 : 41, [](uint64_t n) {
        for (int pat = 0; pat < 6; pat++) {
            std::string s(n, 0);
            for (size_t i = 0; i < n; i++) s[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? i * 37 + 11 : pat == 3 ? 0xfb : pat == 4 ? i * i * 7 + 3 : 'a' + i % 26;
            for (size_t d = 0; d <= n / 3 * 4 + 8; d++) { check_encode(s, -1, -1, d); check_encode(s, '-', '_', d); }
            arena_reset();
            check_simple_encode(s);
            for (char c62 : {(char)-1, '-'}) {
                Map m = ref_map(c62, c62 == -1 ? -1 : '_');
                std::string t = ref_encode(s, c62, c62 == -1 ? -1 : '_');
                decode_modes(t, c62, c62 == -1 ? -1 : '_', m);
                // a white-space character at every position, also multi-character
                for (size_t i = 0; i <= t.size(); i++) for (const char *w : {" ", "\t", "\n", "\f", "\r", "\v", "\r\n "}) {
                    std::string u = t; u.insert(i, w);
                    if (n < 20) decode_modes(u, c62, c62 == -1 ? -1 : '_', m);
                }
                if (c62 == -1) { arena_reset(); check_simple_decode(t); }
            }
            if (n <= 24)
                for (size_t i = 0; i < n; i++) for (int x = 0; x < 256; x++) {
                    std::string u = s; u[i] = x;
                    check_encode(u, -1, -1, n / 3 * 4 + 8);
                }
        }
    }));
    out.push_back(numbered("specials", "all pairs of characters for positions 62 and 63: encoding, and decoding of every character under every meaningful pair", 256, [](uint64_t a) {
        char c62 = (char)a;
        for (int b = 0; b < 256; b++) {
            char c63 = (char)b;
            std::string s = "\xfb\xef\xbe\xff\xff\xff\xfb\xf0";
            check_encode(s, c62, c63, 20);
            char e62 = c62 == -1 ? '+' : c62, e63 = c63 == -1 ? '/' : c63;
            auto bad = [](char c) { return !c || c == '=' || is_ws(c) || strchr(STD, c); };
            if (bad(e62) || bad(e63) || e62 == e63) continue;
            Map m = ref_map(c62, c63);
            std::string t = "AAAA", r;
            for (int x = 1; x < 256; x++) for (int pos = 0; pos < 4; pos += 1 + (x & 1)) {
                t = "AAAA"; t[pos] = x;
                for (int wsp = 0; wsp < 2; wsp++) {
                    bool ok = ref_decode(t.data(), 4, m, wsp, r);
                    check_decode(t, 4, t.data(), c62, c63, m, wsp, pos == 3 ? 4 : pos, r, ok);
                }
            }
        }
    }));
    // Structure: every text over one representative of each class.
    Alphabet cls = bytes_of(std::string("AQg/=\n-", 7) + std::string(1, 0));
    out.push_back(words("decode-structure", "all texts of up to 7 (thorough 8) characters over 8 classes (zero, 16, 32, 63, '=', white space, foreign, NUL), every mode, white-space setting and destination size", cls, 0, thorough ? 8 : 7, [](const std::string &t) {
        static const Map m = ref_map(-1, -1);
        decode_modes(t, -1, -1, m);
        check_simple_decode(t.substr(0, strlen(t.c_str())));
    }));
    Alphabet wide = bytes_of("ABQgw9+/= \t\f\v.-~\x80\xff\x0b");
    out.push_back(words("decode-wide", "all texts of up to 4 characters over 19 characters", wide, 0, 4, [](const std::string &t) {
        static const Map m = ref_map(-1, -1), u = ref_map('-', '~');
        decode_modes(t, -1, -1, m);
        decode_modes(t, '-', '~', u);
    }));
    out.push_back(words("decode-any-char", "all texts of 2 arbitrary non-NUL characters, alone and after or before a quantum", all_bytes(1), 2, 2, [](const std::string &t) {
        static const Map m = ref_map(-1, -1);
        for (const std::string &u : {t, "AA" + t, t + "==", "QQ==" + t, t + "AAQUI=", "A" + t + "="})
            for (int wsp = 0; wsp < 2; wsp++) {
                std::string r;
                bool ok = ref_decode(u.data(), u.size(), m, wsp, r);
                for (size_t d : {(size_t)0, (size_t)1, (size_t)20})
                    check_decode(u, u.size(), u.data(), -1, -1, m, wsp, d, r, ok);
            }
        check_simple_decode("AA" + t);
    }));
    if (thorough)
        out.push_back(numbered("decode-4", "all 4-character texts over the 64 base64 characters and '='", 65 * 65, [](uint64_t a) {
            static const Map m = ref_map(-1, -1);
            auto ch = [](int v) { return v == 64 ? '=' : ref_char(v, -1, -1); };
            std::string t(4, 0), r;
            t[0] = ch(a / 65); t[1] = ch(a % 65);
            for (int x = 0; x < 65 * 65; x++) {
                t[2] = ch(x / 65); t[3] = ch(x % 65);
                bool ok = ref_decode(t.data(), 4, m, false, r);
                check_decode(t, 4, t.data(), -1, -1, m, false, 4, r, ok);
            }
        }));
    auto sizes = std::make_shared<std::vector<size_t>>(ladder(1300, 20));
    out.push_back(numbered("sizes", "byte strings of every size up to 1300 and around powers of two up to 2^20: encoding and decoding with several destination sizes, lines of 76 characters, one foreign character at the beginning, middle or end", sizes->size(), [sizes](uint64_t no) {
        static const Map m = ref_map(-1, -1);
        static std::vector<char> o(1600000);
        size_t n = (*sizes)[no];
        std::string s(n, 0);
        for (size_t i = 0; i < n; i++) s[i] = (char)(i * 37 + (i >> 8) * 11 + no);
        std::string r = ref_encode(s, -1, -1), t;
        MC_CHECK(base64_encoding_size(n) == r.size(), "base64_encoding_size(%zu) is wrong", n);
        for (size_t d : {(size_t)1, r.size() / 2, r.size(), r.size() + 1, r.size() + 2}) {
            memset(&o[0], 0x5c, d + 8);
            size_t k = base64_encode_buffer(s.data(), n, &o[0], d, -1, -1), w = std::min(r.size(), d ? d - 1 : 0);
            MC_CHECK(k == r.size() && (!d || (!memcmp(&o[0], r.data(), w) && !o[w])) && o[d] == 0x5c, "encoding %zu bytes into %zu is wrong", n, d);
            step();
        }
        arena_reset();
        char *p = base64_encode_simple(s.data(), n);
        MC_CHECK(p && r == p, "base64_encode_simple of %zu bytes is wrong", n);
        fsfree(p);
        for (size_t i = 0; i < r.size(); i += 76) t += r.substr(i, 76) + "\r\n";
        for (int wrapped = 0; wrapped < 2; wrapped++) {
            const std::string &text = wrapped ? t : r;
            for (size_t d : {(size_t)0, n / 2, n ? n - 1 : 0, n, n + 1}) {
                memset(&o[0], 0x5c, d + 8);
                ssize_t k = base64_decode_buffer(text.data(), no % 2 ? text.size() : -1, &o[0], d, -1, -1, wrapped);
                MC_CHECK(k == (ssize_t)n && !memcmp(&o[0], s.data(), std::min(n, d)) && o[d] == 0x5c, "decoding %zu characters into %zu bytes is wrong", text.size(), d);
                step();
            }
            if (wrapped && n) MC_CHECK(base64_decode_buffer(text.data(), -1, &o[0], n, -1, -1, false) < 0, "white space among %zu characters is accepted", text.size());
            arena_reset();
            size_t got = 12345;
            p = (char *)base64_decode_simple(text.c_str(), &got);
            MC_CHECK(p && got == n && !memcmp(p, s.data(), n) && !p[n], "base64_decode_simple of %zu characters is wrong", text.size());
            fsfree(p);
            for (size_t bad : {(size_t)0, text.size() / 2, text.size() - 1}) if (bad < text.size()) {
                std::string u = text;
                u[bad] = '*';
                MC_CHECK(base64_decode_buffer(u.data(), u.size(), &o[0], n, -1, -1, true) < 0, "a foreign character at %zu of %zu is accepted", bad, u.size());
                arena_reset();
                MC_CHECK(!base64_decode_simple(u.c_str(), &got), "base64_decode_simple accepts a foreign character at %zu of %zu", bad, u.size());
                step(2);
            }
        }
    }));
}
