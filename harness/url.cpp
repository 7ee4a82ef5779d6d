// C16: URL encoding and decoding.
#include "text.hpp"
#include "charstr.h"
using namespace mc;

static bool safe(int c)
{
    return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c && strchr("\"-./<>\\^_`{|}~", c));
}
struct Enc { bool reserve[256] = {}, spare[256] = {}; };
static std::string pct(int c) { char b[8]; snprintf(b, sizeof b, "%%%02X", c); return b; }
static std::string ref_byte(const Enc &e, int c)
{
    if (c && e.reserve[c]) return pct(c);
    if (c && e.spare[c]) return std::string(1, (char)c);
    if (c == ' ') return "+";
    return safe(c) ? std::string(1, (char)c) : pct(c);
}
static std::string ref_encode(const Enc &e, const std::string &s) { std::string r; for (unsigned char c : s) r += ref_byte(e, c); return r; }
static int hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool ref_decode(const std::string &s, bool plus, std::string &r)
{
    r.clear();
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%') {
            if (i + 2 >= s.size()) return false;
            int a = hexval((uint8_t)s[i + 1]), b = hexval((uint8_t)s[i + 2]);
            if (a < 0 || b < 0) return false;
            r += (char)(a * 16 + b);
            i += 2;
        } else r += plus && s[i] == '+' ? ' ' : s[i];
    }
    return true;
}
static void check_decode(const std::string &t)
{
    for (int plus = 0; plus < 2; plus++) for (int want_size = 0; want_size < 2; want_size++) {
        std::string r;
        bool ok = ref_decode(t, plus, r);
        outcome(ok ? 2 + r.size() : 1);
        size_t n = 777;
        errno = 0;
        step();
        char *p = charstr_url_decode(t.c_str(), plus, want_size ? &n : nullptr);
        if (!ok) {
            MC_CHECK(!p, "the malformed encoding %s is accepted", quote(t).c_str());
            MC_CHECK(errno == EILSEQ, "decoding %s fails with errno %d", quote(t).c_str(), errno);
            continue;
        }
        MC_CHECK(p, "the encoding %s is refused", quote(t).c_str());
        if (want_size) MC_CHECK(n == r.size(), "decoding %s reports %zu bytes instead of %zu", quote(t).c_str(), n, r.size());
        MC_CHECK(!memcmp(p, r.data(), r.size()) && !p[r.size()], "decoding %s (plus is %s) gives %s instead of %s", quote(t).c_str(), plus ? "space" : "plus", hex(p, r.size()).c_str(), hex(r.data(), r.size()).c_str());
        fsfree(p);
    }
}
static void check_encode(charstr_url_encoder_t *enc, const Enc &e, const std::string &s)
{
    step();
    char *p = enc ? charstr_url_custom_encode(enc, s.c_str()) : charstr_url_encode(s.c_str());
    std::string r = ref_encode(e, s);
    MC_CHECK(p && r == p, "encoding %s gives %s instead of %s", quote(s).c_str(), p ? quote(p).c_str() : "NULL", quote(r).c_str());
    fsfree(p);
}
static void check_table(charstr_url_encoder_t *enc, const Enc &e, const char *what)
{
    for (int c = 0; c < 256; c++) {
        const char *p = enc ? charstr_url_custom_encode_byte(enc, c) : charstr_url_encode_byte(c);
        MC_CHECK(ref_byte(e, c) == p, "%s encodes byte %02x as %s instead of %s", what, c, quote(p).c_str(), quote(ref_byte(e, c)).c_str());
    }
    step(256);
}
static void round_trip(const std::string &s)
{
    Enc e;
    check_encode(nullptr, e, s);
    std::string t = ref_encode(e, s);
    size_t n;
    char *p = charstr_url_decode(t.c_str(), true, &n);
    MC_CHECK(p && n == s.size() && !memcmp(p, s.data(), n) && !p[n], "%s does not survive encoding and decoding", quote(s).c_str());
    fsfree(p);
    step();
}
static Enc make(const std::string &r, const std::string &u) { Enc e; for (unsigned char c : r) e.reserve[c] = true; for (unsigned char c : u) e.spare[c] = true; return e; }
static std::string all_str()
{
    std::string s;
    for (int c = 1; c < 256; c++) s += (char)c;
    return s;
}

// Several encoders alive at the same time, created, used and destroyed in any order.
struct Encoders : System {
    struct Live { charstr_url_encoder_t *e; int kind; };
    std::vector<Live> v;
    static std::pair<std::string, std::string> kind(int k)
    {
        switch (k) {
            case 0: return {"", ""};
            case 1: return {"aZ/~ ", ""};
            case 2: return {"", "+&%=\x80\xff"};
            default: return {"~.x\xff", " aZ@"};
        }
    }
    void start(int) override { v.clear(); }
    void ops(std::vector<uint16_t> &o) override
    {
        if (v.size() < 3) for (int k = 0; k < 4; k++) o.push_back(k);
        for (size_t i = 0; i < v.size(); i++) { o.push_back(16 + i); o.push_back(32 + i); }
        o.push_back(48);
    }
    void apply(uint16_t op) override
    {
        if (op < 16) {
            auto k = kind(op);
            auto *e = charstr_create_url_encoder(k.first.c_str(), k.second.c_str());
            MC_CHECK(e, "charstr_create_url_encoder returns NULL");
            v.push_back({e, op});
        } else if (op < 32) {
            charstr_destroy_url_encoder(v[op - 16].e);
            v.erase(v.begin() + (op - 16));
        } else if (op < 48) {
            auto k = kind(v[op - 32].kind);
            check_encode(v[op - 32].e, make(k.first, k.second), all_str());
        } else check_encode(nullptr, Enc(), all_str());
    }
    void check() override
    {
        check_table(nullptr, Enc(), "the standard encoder");
        for (auto &l : v) { auto k = kind(l.kind); check_table(l.e, make(k.first, k.second), "a custom encoder"); }
        check_encode(nullptr, Enc(), "aZ/~ +&%=@\x80");
    }
    void canon(Canon &c) override { for (auto &l : v) { c.root(l.e); c.add(l.kind); } c.add(v.size()); }
    void finish() override { for (auto &l : v) charstr_destroy_url_encoder(l.e); v.clear(); }
    std::string opname(uint16_t op) override
    {
        if (op < 16) return "create encoder of kind " + std::to_string(op);
        if (op < 32) return "destroy encoder " + std::to_string(op - 16);
        if (op < 48) return "encode with encoder " + std::to_string(op - 32);
        return "encode with the standard encoder";
    }
};

void mc::suites(std::vector<Suite> &out)
{
    out.push_back(numbered("table", "every byte", 1, [](uint64_t) { check_table(nullptr, Enc(), "charstr_url_encode_byte"); }));
    out.push_back(words("round-trip", "all strings of up to 2 bytes: encode, decode back", all_bytes(1), 0, 2, round_trip));
    out.push_back(words("round-trip-long", std::string("all strings of up to ") + (thorough ? "8" : "6") + " bytes over 7 classes", bytes_of("aF0 +%\xff"), 3, thorough ? 8 : 6, round_trip));
    out.push_back(words("decode-any", "all texts of up to 2 arbitrary bytes", all_bytes(1), 0, 2, check_decode));
    out.push_back(numbered("decode-escape", "every pair of bytes after a percent sign, alone and with text around", 255, [](uint64_t a) {
        for (int b = 1; b < 256; b++) {
            arena_reset();
            std::string t = std::string("%") + (char)(a + 1) + (char)b;
            check_decode(t);
            check_decode("a" + t);
            check_decode(t + "b");
        }
    }));
    Alphabet cls = bytes_of("%+aG0fF9:");
    out.push_back(words("decode-structure", std::string("all texts of up to ") + (thorough ? "8" : "7") + " characters over 9 classes", cls, 0, thorough ? 8 : 7, check_decode));
    Alphabet seqs = {"%00", "%ff", "%2B", "%25", "%20", "+", "a", "%", "%4", "%G1", "%1g", " ", "\xff"};
    out.push_back(words("decode-sequences", "all texts of up to 5 whole or broken escapes (13 kinds)", seqs, 0, thorough ? 6 : 5, check_decode));
    out.push_back(numbered("custom-one", "every single reserved byte with every single unreserved byte: whole table and encoding of all bytes", 256, [](uint64_t a) {
        for (int b = 0; b < 256; b++) {
            if (a == (uint64_t)b && a) continue;
            std::string r, u;
            if (a) r += (char)a;
            if (b) u += (char)b;
            arena_reset();
            auto *enc = charstr_create_url_encoder(r.c_str(), u.c_str());
            MC_CHECK(enc, "charstr_create_url_encoder returns NULL");
            Enc e = make(r, u);
            check_table(enc, e, "a custom encoder");
            check_encode(enc, e, all_str());
            if (b % 16 == 0) check_table(nullptr, Enc(), "the standard encoder");
            charstr_destroy_url_encoder(enc);
        }
        check_encode(nullptr, Enc(), all_str());
    }));
    // each of 7 bytes neutral, reserved or unreserved
    out.push_back(words("custom-sets", "every way of reserving, unreserving or leaving each of 8 bytes, in both orders of mention", bytes_of("nru"), 8, 8, [](const std::string &s) {
        const char *b = "a \x01%+~\xff/";
        std::string r, u;
        for (int i = 0; i < 8; i++) { if (s[i] == 'r') r += b[i]; if (s[i] == 'u') u += b[i]; }
        for (int rev = 0; rev < 2; rev++) {
            std::string rr = rev ? std::string(r.rbegin(), r.rend()) + r : r, uu = rev ? std::string(u.rbegin(), u.rend()) + u : u;
            auto *enc = charstr_create_url_encoder(rr.c_str(), uu.c_str());
            MC_CHECK(enc, "charstr_create_url_encoder returns NULL");
            Enc e = make(r, u);
            check_table(enc, e, "a custom encoder");
            check_encode(enc, e, all_str());
            check_table(nullptr, Enc(), "the standard encoder");
            charstr_destroy_url_encoder(enc);
        }
    }));
    Suite su;
    su.name = "encoders";
    su.bound = "all histories of creating, using and destroying up to 3 simultaneous encoders of 4 kinds";
    su.make = [] { return new Encoders; };
    out.push_back(su);
    out.push_back(numbered("long", "strings of 0..1500 bytes and around powers of two up to 2^18 of 4 patterns", ladder(1500, 18).size(), [](uint64_t no) {
        size_t n = ladder(1500, 18)[no];
        for (int pat = 0; pat < 4; pat++) {
            std::string s(n, pat == 0 ? 'a' : pat == 1 ? '%' : ' ');
            if (pat == 3) for (size_t i = 0; i < n; i++) s[i] = 1 + i % 255;
            arena_reset();
            round_trip(s);
            check_decode(s);
        }
    }));
}
