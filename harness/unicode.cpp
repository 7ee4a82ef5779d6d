// C13: Unicode and IDNA tables.  C14: normalization.  C15: IDNA encoding.
#include <climits>
#include <array>
#include "text.hpp"
#include "ref_ucd.hpp"
#include "charstr.h"
using namespace mc;
using ref::U;

static std::string ustr(const U &u) { std::string s; char b[16]; for (int c : u) { snprintf(b, sizeof b, "%sU+%04X", s.empty() ? "" : " ", c); s += b; } return s; }

// ------------------------------------------------------------------------ C13
static const char *CATS[] = {"Cn", "Cc", "Cf", "Co", "Cs", "Ll", "Lm", "Lo", "Lt", "Lu", "Mc", "Me", "Mn", "Nd", "Nl", "No", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Sc", "Sk", "Sm", "So", "Zl", "Zp", "Zs"};
static const int CATV[] = {UNICODE_CATEGORY_Cn, UNICODE_CATEGORY_Cc, UNICODE_CATEGORY_Cf, UNICODE_CATEGORY_Co, UNICODE_CATEGORY_Cs, UNICODE_CATEGORY_Ll, UNICODE_CATEGORY_Lm, UNICODE_CATEGORY_Lo, UNICODE_CATEGORY_Lt, UNICODE_CATEGORY_Lu, UNICODE_CATEGORY_Mc, UNICODE_CATEGORY_Me, UNICODE_CATEGORY_Mn, UNICODE_CATEGORY_Nd, UNICODE_CATEGORY_Nl, UNICODE_CATEGORY_No, UNICODE_CATEGORY_Pc, UNICODE_CATEGORY_Pd, UNICODE_CATEGORY_Pe, UNICODE_CATEGORY_Pf, UNICODE_CATEGORY_Pi, UNICODE_CATEGORY_Po, UNICODE_CATEGORY_Ps, UNICODE_CATEGORY_Sc, UNICODE_CATEGORY_Sk, UNICODE_CATEGORY_Sm, UNICODE_CATEGORY_So, UNICODE_CATEGORY_Zl, UNICODE_CATEGORY_Zp, UNICODE_CATEGORY_Zs};
static int catval(const std::string &s) { for (int i = 0; i < 30; i++) if (s == CATS[i]) return CATV[i]; return -1; }
static bool status_of(int c, const std::string &s)
{
    if (s == "deviation") return charstr_idna_status_is_deviation(c);
    if (s == "disallowed") return charstr_idna_status_is_disallowed(c);
    if (s == "disallowed_STD3_valid") return charstr_idna_status_is_disallowed_STD3_valid(c);
    if (s == "disallowed_STD3_mapped") return charstr_idna_status_is_disallowed_STD3_mapped(c);
    if (s == "ignored") return charstr_idna_status_is_ignored(c);
    if (s == "mapped") return charstr_idna_status_is_mapped(c);
    return charstr_idna_status_is_valid(c);
}
static void check_tables(int c)
{
    const auto &d = ref::data();
    bool in = c >= 0 && c < ref::NCP;
    const std::string dcat = in ? d.category(c) : "Cn";
    int w = catval(dcat), g = charstr_unicode_category(c);
    outcome(w);
    MC_CHECK(g == w, "U+%04X has the category %s instead of %s", c, g >= 0 && g < 30 ? CATS[g] : "?", dcat.c_str());
    int lw = in && dcat == "Lu" ? d.lower[c] : c, uw = in && dcat == "Ll" ? d.upper[c] : c;
    MC_CHECK(charstr_naive_lcase_unicode(c) == lw, "U+%04X has the lower case U+%04X instead of U+%04X", c, charstr_naive_lcase_unicode(c), lw);
    MC_CHECK(charstr_naive_ucase_unicode(c) == uw, "U+%04X has the upper case U+%04X instead of U+%04X", c, charstr_naive_ucase_unicode(c), uw);
    int cc = in ? d.ccc[c] : 0;
    MC_CHECK(charstr_unicode_canonical_combining_class(c) == cc, "U+%04X has the combining class %d instead of %d", c, charstr_unicode_canonical_combining_class(c), cc);
    static const int NO[] = {UNICODE_NFC_DISALLOWED, UNICODE_NFD_DISALLOWED, UNICODE_NFKC_DISALLOWED, UNICODE_NFKD_DISALLOWED};
    static const int MAYBE[] = {UNICODE_NFC_MAYBE, UNICODE_NFD_MAYBE, UNICODE_NFKC_MAYBE, UNICODE_NFKD_MAYBE};
    int fl = 0;
    for (int k = 0; in && k < 4; k++) fl |= d.qc[k][c] == 1 ? NO[k] : d.qc[k][c] == 2 ? MAYBE[k] : 0;
    MC_CHECK(charstr_allowed_unicode_normal_forms(c) == fl, "U+%04X has the normal-form flags %02x instead of %02x", c, charstr_allowed_unicode_normal_forms(c), fl);
    if (in) {
        const std::string &st = d.statuses[d.status[c]];
        for (auto &s : d.statuses)
            MC_CHECK(status_of(c, s) == (s == st), "U+%04X is %s\"%s\" for IDNA (its status is \"%s\")", c, s == st ? "not " : "", s.c_str(), st.c_str());
        MC_CHECK(st == charstr_idna_status(c), "charstr_idna_status(U+%04X) is \"%s\" instead of \"%s\"", c, charstr_idna_status(c), st.c_str());
    } else
        for (const char *s : {"valid", "mapped", "ignored", "deviation"}) MC_CHECK(!status_of(c, s), "%d, beyond Unicode, is \"%s\" for IDNA", c, s);
    const char *m = charstr_idna_mapping(c);
    auto it = in ? d.mapping.find(c) : d.mapping.end();
    if (it == d.mapping.end()) MC_CHECK(!m, "U+%04X has the IDNA mapping %s", c, quote(m ? m : "").c_str());
    else MC_CHECK(m && ref::utf8(it->second) == m, "U+%04X has the IDNA mapping %s instead of %s", c, quote(m ? m : "NULL").c_str(), ustr(it->second).c_str());
    step(14);
}

// ------------------------------------------------------------------------ C14
enum { BUF = 1 << 22 };
static char inb[BUF], outb[BUF], outc[BUF];
// mode 0: bounded by end, garbage follows; 1: NUL-terminated, end == NULL; 2: NUL before a later end
static const char *place(const std::string &s, int mode, const char *&end)
{
    memcpy(inb, s.data(), s.size());
    memcpy(inb + s.size(), mode == 0 ? "\xcc\x81" "e" : "\0\xcc\x81", 4);
    end = mode == 0 ? inb + s.size() : mode == 1 ? nullptr : inb + s.size() + 3;
    return inb;
}
// expect: the right result, or nullptr-able refusal
static void norm_one(bool dec, const std::string &in, const std::string &want, int mode, size_t room, bool may_refuse)
{
    const char *end, *s = place(in, mode, end);
    memset(outb, 0x3f, std::min((size_t)BUF, room + 8));
    errno = 0;
    step();
    char *r = dec ? charstr_unicode_decompose(s, end, outb, outb + room) : charstr_unicode_recompose(s, end, outb, outb + room);
    const char *fn = dec ? "decomposing" : "recomposing";
    if (!r && may_refuse) return;
    if (room < want.size() + 1) {
        MC_CHECK(!r, "%s %s into %zu bytes, which needs %zu, succeeds", fn, hex(in.data(), in.size()).c_str(), room, want.size() + 1);
        MC_CHECK(errno == EOVERFLOW, "%s %s into too little room fails with errno %d", fn, hex(in.data(), in.size()).c_str(), errno);
        return;
    }
    MC_CHECK(r, "%s %s into %zu bytes, which needs %zu, fails with errno %d", fn, hex(in.data(), in.size()).c_str(), room, want.size() + 1, errno);
    MC_CHECK(r >= outb && (size_t)(r - outb) <= room && *r == 0, "%s %s does not return its NUL-terminated end", fn, hex(in.data(), in.size()).c_str());
    MC_CHECK(std::string(outb, r - outb) == want, "%s %s gives %s instead of %s", fn, hex(in.data(), in.size()).c_str(), hex(outb, r - outb).c_str(), hex(want.data(), want.size()).c_str());
}
static bool many_marks(const U &u)
{
    int run = 0;
    for (int c : u) { run = ref::data().ccc[c] ? run + 1 : 0; if (run > 100) return true; }
    return false;
}
static void detect(const std::string &s, int mode, bool valid, bool is_nfc, bool is_nfd)
{
    const char *end, *p = place(s, mode, end);
    bool c = charstr_unicode_canonically_composed(p, end), d = charstr_unicode_canonically_decomposed(p, end);
    MC_CHECK(!c || (valid && is_nfc), "%s is wrongly reported as canonically composed", hex(s.data(), s.size()).c_str());
    MC_CHECK(!d || (valid && is_nfd), "%s is wrongly reported as canonically decomposed", hex(s.data(), s.size()).c_str());
    for (int k = 0; k < 2; k++) {
        int no = k ? UNICODE_NFD_DISALLOWED : UNICODE_NFC_DISALLOWED, maybe = k ? UNICODE_NFD_MAYBE : UNICODE_NFC_MAYBE;
        int r = charstr_detect_unicode_normal_form(p, end, no, maybe);
        bool is = k ? is_nfd : is_nfc;
        const char *form = k ? "NFD" : "NFC";
        MC_CHECK(r == 0 || r == no || r == maybe || r == -1, "detecting %s of %s gives %d", form, hex(s.data(), s.size()).c_str(), r);
        outcome(100 + r);
        if (!valid) MC_CHECK(r == -1 || r == no, "detecting %s of the ill-formed %s gives %d", form, hex(s.data(), s.size()).c_str(), r);
        else {
            MC_CHECK(r != -1, "the well-formed %s is reported as ill-formed", hex(s.data(), s.size()).c_str());
            MC_CHECK(r != 0 || is, "%s is wrongly reported as %s", hex(s.data(), s.size()).c_str(), form);
            MC_CHECK(r != no || !is, "%s is wrongly reported as not %s", hex(s.data(), s.size()).c_str(), form);
        }
    }
    step(4);
}
// detail 0: one ample and the exact room; 1: also one less; 2: every room and mode
static void check_norm(const U &u, int detail)
{
    std::string s = ref::utf8(u);
    U d = ref::nfd(u), c = ref::nfc_of_nfd(d);
    std::string ds = ref::utf8(d), cs = ref::utf8(c);
    bool refuse = many_marks(d);
    for (int mode = 0; mode < (detail == 2 ? 3 : 1); mode++) {
        norm_one(true, s, ds, mode, 3 * s.size() + 1, false);
        norm_one(false, ds, cs, mode, ds.size() + 1, refuse);
        if (detail >= 1) {
            norm_one(true, s, ds, mode, ds.size() + 1, false);
            norm_one(true, s, ds, mode, ds.size(), false);
            norm_one(false, ds, cs, mode, cs.size() + 1, refuse);
            norm_one(false, ds, cs, mode, cs.size(), refuse);
        }
        if (detail == 2)
            for (size_t room = 0; room <= std::max(ds.size(), cs.size()) + 2; room++) {
                norm_one(true, s, ds, mode, room, false);
                norm_one(false, ds, cs, mode, room, refuse);
            }
        detect(s, mode, true, c == u, d == u);
        if (ds != s) detect(ds, mode, true, c == d, true);
        if (cs != s && cs != ds) detect(cs, mode, true, true, d == c);
    }
}
// code points that take part in normalization, except most Hangul syllables
static U interesting()
{
    const auto &d = ref::data();
    std::vector<bool> on(ref::NCP, false);
    for (auto &x : d.canon) { on[x.first] = true; for (int c : x.second) on[c] = true; }
    for (int c = 0; c < ref::NCP; c++) if (d.ccc[c] || d.qc[0][c] || (d.qc[1][c] && !(c >= 0xac00 && c < 0xd7a4))) on[c] = true;
    for (int c : {0x10ff, 0x1100, 0x1101, 0x1112, 0x1113, 0x1160, 0x1161, 0x1162, 0x1175, 0x1176, 0x11a7, 0x11a8, 0x11c2, 0x11c3, 0xabff, 0xac00, 0xac01, 0xac1b, 0xac1c, 0xd788, 0xd789, 0xd7a3, 0xd7a4, 0x41, 0x61, 0x0, 0x10ffff, 0xfffd})
        on[c] = c != 0;
    U v;
    for (int c = 0; c < ref::NCP; c++) if (on[c]) v.push_back(c);
    return v;
}
static U class_marks()            // a few marks of every combining class
{
    std::map<int, int> n;
    U v;
    for (int c = 0; c < ref::NCP; c++) if (ref::data().ccc[c] && n[ref::data().ccc[c]]++ < 1) v.push_back(c);
    return v;
}
static const U ALPHA = {'A', 'o', 0x300, 0x301, 0x308, 0x323, 0x327, 0x328, 0x345, 0x302, 0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0x212b, 0x344, 0x915, 0x93c, 0x9c7, 0x9be, 0x1e69, 0x3b1, 0x1f82, 0x4e00, 0x1d157, 0x1d165, 0x10ffff};
static Alphabet ualpha(const U &u) { Alphabet a; for (int c : u) a.push_back(ref::utf8(c)); return a; }

static void norm_suites(std::vector<Suite> &out)
{
    out.push_back(numbered("every-codepoint", "every scalar value alone, between letters and with marks around it; every room for itself", 0x1100, [](uint64_t blk) {
        for (int c = blk << 8; c < (int)((blk + 1) << 8); c++) {
            if (!ref::scalar(c) || !c) continue;
            current(ref::utf8(c).data(), ref::utf8(c).size());
            check_norm({c}, 2);
            for (const U &u : {U{'a', c, 'a'}, U{c, 0x301}, U{c, 0x345}, U{c, 0x338}, U{c, 0x301, 0x327}, U{0x301, c}, U{'a', 0x345, c}, U{'a', 0x327, c}, U{'a', 0x301, c, 0x323}, U{c, c}, U{c, 0x11a8}, U{0x1100, c}, U{0xac00, c}, U{c, 0x3099}, U{c, 0x93c}})
                check_norm(u, 0);
        }
    }));
    auto I = std::make_shared<U>(interesting());
    out.push_back(numbered("pairs", "all pairs of the " + std::to_string(I->size()) + " code points that take part in normalization", I->size(), [I](uint64_t i) {
        current(&(*I)[i], 4);
        for (int c : *I) check_norm({(*I)[i], c}, 0);
    }));
    auto M = std::make_shared<U>(class_marks());
    out.push_back(numbered("marks", "a letter followed by every sequence of up to 4 marks out of one per combining class (" + std::to_string(M->size()) + ")", M->size(), [M](uint64_t i) {
        int a = (*M)[i];
        check_norm({'a', a}, 2);
        for (int b : *M) { check_norm({'a', a, b}, 1); for (int c : *M) { check_norm({'a', a, b, c}, 0); for (int d : *M) check_norm({'a', a, b, c, d}, 0); } }
    }));
    // first and second members of the canonical pairs
    auto F = std::make_shared<U>(), S = std::make_shared<U>();
    {
        std::map<int, bool> f, g;
        for (auto &x : ref::data().compose) f[x.first >> 32] = g[(int)(x.first & 0xffffffff)] = true;
        for (auto &x : f) F->push_back(x.first);
        for (auto &x : g) S->push_back(x.first);
    }
    out.push_back(numbered("triples", "every first member of a canonical pair followed by every two second members (" + std::to_string(F->size()) + " x " + std::to_string(S->size()) + " squared)" + (thorough ? ", and by every three" : ""), F->size(), [F, S](uint64_t i) {
        for (int b : *S) for (int c : *S) { check_norm({(*F)[i], b, c}, 0); if (thorough) for (int d : *S) check_norm({(*F)[i], b, c, d}, 0); }
    }));
    // the conformance test of the Unicode Consortium; it judges the reference too
    auto rows = std::make_shared<std::vector<std::array<U, 3>>>();
    {
        auto f = const_cast<ref::Data &>(ref::data()).file("normtest.txt");
        std::string line, col, w;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::array<U, 3> r;
            for (int i = 0; i < 3 && std::getline(is, col, ';'); i++) { std::istringstream ws(col); while (ws >> w) r[i].push_back(ref::Data::hexint(w)); }
            for (const U &u : r)
                if (ref::nfd(u) != r[2] || ref::nfc_of_nfd(ref::nfd(u)) != r[1]) { fprintf(stderr, "the reference fails the normalization test: %s\n", line.c_str()); exit(3); }
            rows->push_back(r);
        }
    }
    out.push_back(numbered("conformance", "every row of the official normalization test, every form of it, every room", rows->size(), [rows](uint64_t i) {
        auto &r = (*rows)[i];
        for (const U &u : {r[0], r[1], r[2]}) check_norm(u, 2);
    }));
    // every primary composite with something in between and after
    out.push_back(numbered("composites", "every canonical pair with each of " + std::to_string(M->size()) + " marks between, before and after, and with letters between", 1, [M](uint64_t) {
        for (auto &x : ref::data().canon) {
            if (x.second.size() != 2) continue;
            int a = x.second[0], b = x.second[1];
            check_norm({a, b}, 2);
            check_norm({x.first}, 2);
            check_norm({a, 'x', b}, 0);
            check_norm({a, b, b}, 0);
            check_norm({a, a, b}, 0);
            for (int m : *M) { check_norm({a, m, b}, 0); check_norm({a, b, m}, 0); check_norm({x.first, m}, 0); check_norm({m, a, b}, 0); check_norm({a, m, m, b}, 0); }
        }
    }));
    out.push_back(numbered("hangul", "every leading, vowel and trailing jamo combination (also just outside the ranges) and every syllable with a trailing jamo", 22, [](uint64_t l) {
        int L = 0x10ff + l;
        for (int V = 0x1160; V <= 0x1177; V++) {
            check_norm({L, V}, 1);
            for (int T = 0x11a6; T <= 0x11c4; T++) { check_norm({L, V, T}, 1); check_norm({L, V, 0x301, T}, 0); check_norm({L, V, T, T}, 0); check_norm({L, L, V, T}, 0); }
        }
        for (int s = 0xac00 + l * 588; s < 0xac00 + (int)(l + 1) * 588 && s < 0xd7b0; s++) for (int T : {0x11a7, 0x11a8, 0x11c2, 0x11c3}) check_norm({s, T}, 1);
    }));
    auto f = [](int detail) { return [detail](const std::string &s) { U u; ref::utf8_decode(s, u); check_norm(u, detail); }; };
    out.push_back(words("words", "all strings of up to 4 of 28 interacting code points", ualpha(ALPHA), 0, 4, f(0), false));
    out.push_back(words("words-rooms", "all strings of up to 3 of 28 interacting code points, every room, all ways of termination", ualpha(ALPHA), 0, 3, f(2), false));
    U small(ALPHA.begin(), ALPHA.begin() + 13);
    out.push_back(words("words-long", std::string("all strings of up to ") + (thorough ? "6" : "5") + " of 13 interacting code points", ualpha(small), 5, thorough ? 6 : 5, f(0), false));
    U tiny = {'a', 0x301, 0x323, 0x327, 0x345};
    out.push_back(words("words-longer", std::string("all strings of up to ") + (thorough ? "9" : "8") + " of a letter and 4 marks", ualpha(tiny), 6, thorough ? 9 : 8, f(0), false));
    Alphabet bad = {"a", "\xcc\x81", "\xc3\xa9", "\xc3", "\x81", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xff", "\xe1\x84", "\xea\xb0\x80"};
    out.push_back(words("ill-formed", "all strings of up to 5 of 11 well- and ill-formed sequences, several rooms, all ways of termination", bad, 1, thorough ? 6 : 5, [](const std::string &s) {
        U u;
        if (ref::utf8_decode(s, u)) { check_norm(u, 0); return; }
        for (int mode = 0; mode < 3; mode++) {
            const char *end, *p = place(s, mode, end);
            for (size_t room : {(size_t)0, (size_t)1, s.size(), 3 * s.size() + 1}) {
                errno = 0;
                MC_CHECK(!charstr_unicode_decompose(p, end, outb, outb + room), "decomposing the ill-formed %s succeeds", hex(s.data(), s.size()).c_str());
                MC_CHECK(errno == EILSEQ || (errno == EOVERFLOW && room < 3 * s.size() + 1), "decomposing the ill-formed %s fails with errno %d", hex(s.data(), s.size()).c_str(), errno);
                errno = 0;
                MC_CHECK(!charstr_unicode_recompose(p, end, outb, outb + room), "recomposing the ill-formed %s succeeds", hex(s.data(), s.size()).c_str());
                MC_CHECK(errno == EILSEQ || (errno == EOVERFLOW && room < s.size() + 1), "recomposing the ill-formed %s fails with errno %d", hex(s.data(), s.size()).c_str(), errno);
                step(2);
            }
            detect(s, mode, false, false, false);
        }
    }, false));
    out.push_back(numbered("mark-runs", "runs of 0..130 marks, and around 256, 512 and 1024, of various classes in both orders after composing and non-composing starters, with exact room", 131 + 9, [](uint64_t n) {
        if (n > 130) n = ((uint64_t)1 << (8 + (n - 131) / 3)) - 1 + (n - 131) % 3;
        for (int base : {(int) 'a', 0x4e00, 0xac00, 0xe4, 0x301}) for (int pat = 0; pat < 7; pat++) for (int tail = 0; tail < 2; tail++) {
            U u = {base};
            static const int K[] = {0x327, 0x323, 0x301, 0x345, 0x334, 0x3099, 0x328};
            for (size_t i = 0; i < n; i++) u.push_back(pat == 0 ? 0x301 : pat == 1 ? K[i % 7] : pat == 2 ? K[6 - i % 7] : pat == 3 ? (i + 1 < n ? 0x323 : 0x302) : pat == 4 ? 0x1d165 : pat == 5 ? (i ? 0x5b0 + i % 8 : 0x304) : (i + 1 < n ? 0x345 : 0x327));
            if (tail) { u.push_back('e'); u.push_back(0x302); u.push_back(0x323); }
            check_norm(u, 1);
        }
    }));
    out.push_back(numbered("long", "strings of 0..400 code points, and around every power of two up to 2^17, of 4 patterns with exact room", 401 + 10 * 3, [](uint64_t n) {
        if (n > 400) n = ((uint64_t)1 << (8 + (n - 401) / 3)) - 1 + (n - 401) % 3;
        for (int pat = 0; pat < 4; pat++) {
            U u;
            for (size_t i = 0; i < n; i++) u.push_back(pat == 0 ? 0x1f82 : pat == 1 ? 0xac00 + (int)i * 29 % 11172 : pat == 2 ? (i % 2 ? 0x301 : 'e') : ALPHA[i * 7 % ALPHA.size()]);
            check_norm(u, 1);
        }
    }));
}

// ------------------------------------------------------------------------ C15
static void check_idna(const std::string &s)
{
    ref::Idna w = ref::idna(s);
    outcome(w.must_refuse ? 1 : w.strict ? 2 : 3);
    step();
    char *p = charstr_idna_encode(s.c_str());
    if (w.must_refuse) { MC_CHECK(!p, "the host name %s is encoded as %s although it must be refused", quote(s).c_str(), quote(p ? p : "").c_str()); return; }
    if (!p) { MC_CHECK(!w.strict, "the valid host name %s is refused instead of encoded as %s", quote(s).c_str(), quote(w.encoding).c_str()); return; }
    MC_CHECK(w.encoding == p, "the host name %s is encoded as %s instead of %s", quote(s).c_str(), quote(p).c_str(), quote(w.encoding).c_str());
    MC_CHECK(arena_is_live(p), "the encoding of %s is not an allocated block", quote(s).c_str());
    fsfree(p);
}
static void idna_suites(std::vector<Suite> &out)
{
    out.push_back(numbered("every-codepoint", "every scalar value alone, in every position of short labels, next to non-ASCII letters and combining marks, and in a second label", 0x1100, [](uint64_t blk) {
        for (int c = blk << 8; c < (int)((blk + 1) << 8); c++) {
            if (!ref::scalar(c) || !c) continue;
            std::string x = ref::utf8(c);
            current(x.data(), x.size());
            arena_reset();
            for (const std::string &s : {x, "a" + x, x + "b", "a" + x + "b", "\xc3\xa4" + x, x + "\xc3\xa4", "\xe4\xb8\xad" + x + "a", "x." + x, x + ".x", x + x, x + "\xcc\x81", "a" + x + "\xcc\x81" + "z", "e\xcc\x81" + x, "\xf0\xa0\x80\x80" + x, "-" + x, x + "-"})
                check_idna(s);
        }
    }));
    Alphabet a = {"a", "B", "7", "-", ".", "\xc3\xa4", "\xc3\x9f", "\xe3\x80\x82", "\xc2\xad", "\xcc\x81", "\xe4\xb8\xad", "\xd7\x90", "\xff", "_", "\xf0\x9f\x92\xa9", "\xef\xbc\xa1", "\xe2\x82\xac", "\xea\xb0\x80", "\xc3\x84", "\xe1\x86\xa8"};
    out.push_back(words("words", std::string("all names of up to ") + (thorough ? "5" : "4") + " of 20 symbols (letters, digit, hyphen, dots, mapped, ignored, deviation, combining, disallowed, malformed)", a, 0, thorough ? 5 : 4, check_idna));
    Alphabet b = {"a", "-", ".", "\xc3\xa4", "\xcc\x88", "\xe4\xb8\xad"};
    out.push_back(words("words-long", std::string("all names of up to ") + (thorough ? "8" : "7") + " of 6 symbols", b, 5, thorough ? 8 : 7, check_idna));
    // Punycode arithmetic: spread code points in all arrangements
    U spread;
    for (int c = 0x80; c < 0x30000; c += c < 0x800 ? 37 : c < 0x4e00 ? 701 : c < 0xd800 ? 2099 : 4099)
        for (int d = c; d < c + 300; d++) if (ref::scalar(d) && ref::data().is_status(d, "valid") && ref::data().category(d)[0] == 'L') { if (spread.empty() || spread.back() != d) spread.push_back(d); break; }
    auto sp = std::make_shared<U>(spread);
    out.push_back(numbered("punycode-3", "all labels of up to 3 of " + std::to_string(spread.size()) + " spread code points, plain and mixed with ASCII", spread.size(), [sp](uint64_t i) {
        std::string x = ref::utf8((*sp)[i]);
        for (int c : *sp) {
            std::string y = x + ref::utf8(c);
            current(y.data(), y.size());
            arena_reset();
            check_idna(y);
            check_idna("ab" + y + "9");
            check_idna(x + "q" + ref::utf8(c));
            for (int d : *sp) { arena_reset(); check_idna(y + ref::utf8(d)); if (thorough) check_idna("k" + y + "-" + ref::utf8(d) + "z"); }
        }
    }));
    out.push_back(numbered("punycode-bias", "labels of n = 0..60 ASCII letters before, between or after every pair of " + std::to_string(spread.size() / 2) + " spread code points and a third one", 61, [sp](uint64_t n) {
        std::string as(n, 'a');
        for (size_t i = 0; i < sp->size(); i += 2) {
            arena_reset();
            for (size_t j = 1; j < sp->size(); j += 2) {
                std::string x = ref::utf8((*sp)[i]), y = ref::utf8((*sp)[j]);
                check_idna(as + x + y); check_idna(x + as + y + x);
                check_idna(y + x + as + ref::utf8((*sp)[(i + j) / 2]));
            }
        }
    }));
    out.push_back(numbered("label-length", "labels of n ASCII letters and m non-ASCII letters of 9 kinds in 3 arrangements for all n, m <= 66, in 4 places of a name", 67, [](uint64_t n) {
        for (int m = 0; m <= 66; m++) for (int kind = 0; kind < 9; kind++) {
            std::string na;
            for (int i = 0; i < m; i++) na += ref::utf8(kind == 0 ? 0xe4 : kind == 1 ? 0xe0 + i % 24 - (i % 24 == 23 ? 1 : 0) : kind == 2 ? 0x4e00 + i * 301 : kind == 3 ? 0x20000 + i % 3 : kind == 4 ? 0xac00 + i * 28 : kind == 5 ? 0x10380 : kind == 6 ? 0x4e00 + i : kind == 7 ? 0x4e80 - i : 0x4e00 + (i * 37 + 5) % 67);
            std::string as(n, 'a');
            std::string mix;
            for (size_t i = 0, j = 0; i < n || j < na.size();) { if (i++ < n) mix += 'b'; if (j < na.size()) { int k = ref::utf8_len((const uint8_t *)na.data() + j, na.size() - j); mix += na.substr(j, k); j += k; } }
            for (const std::string &l : {as + na, na + as, mix}) {
                arena_reset();
                check_idna(l); check_idna(l + "."); check_idna("\xc3\xa4." + l); check_idna(l + ".\xc3\xa4");
            }
        }
    }));
    out.push_back(numbered("name-length", "names of total encoded length 240..260 of labels of 6 sizes, with a non-ASCII label in front, in the middle or at the end, with and without final dot, dots of 4 kinds", 21 * 6, [](uint64_t i) {
        size_t total = 240 + i % 21;
        static const size_t sizes[] = {1, 2, 7, 31, 62, 63};
        size_t sz = sizes[i / 21];
        for (int where = 0; where < 4; where++) for (const char *na : {"\xc3\xa4", "\xe4\xb8\xad", "\xf0\xa0\x80\x80\xf0\xa0\x80\x81"}) for (const char *dot : {".", "\xe3\x80\x82", "\xef\xbc\x8e"}) {
            size_t nl = ref::idna(na).encoding.size();
            std::vector<std::string> v;
            size_t used = 0, want = total - nl - 1;
            while (used < want) { size_t k = std::min(sz, want - used - (used ? 1 : 0)); if (!k) break; v.push_back(std::string(k, 'c')); used += k + (used ? 1 : 0); }
            v.insert(where == 0 ? v.begin() : where == 1 ? v.end() : where == 2 ? v.begin() + v.size() / 2 : v.begin() + 1, na);
            std::string s;
            for (auto &l : v) s += (s.empty() ? "" : dot) + l;
            arena_reset();
            check_idna(s); check_idna(s + dot); check_idna(s + dot + dot); check_idna(dot + s); check_idna(s + "\xc2\xad");
        }
    }));
    out.push_back(numbered("long-utf8", "names of up to 60 codepoints per label and up to 5 labels of 2-, 3- and 4-byte, decomposed and ignored code points; names far beyond the limits", 61, [](uint64_t n) {
        for (int labels = 1; labels <= 6; labels++) for (int kind = 0; kind < 6; kind++) {
            std::string l;
            for (size_t i = 0; i < n; i++) l += kind == 0 ? "\xc3\xa4" : kind == 1 ? "\xe4\xb8\xad" : kind == 2 ? "\xf0\xa0\x80\x80" : kind == 3 ? "\xe1\x84\x80\xe1\x85\xa1\xe1\x86\xa8" : kind == 4 ? "a\xcc\x88" : "a\xc2\xad\xf3\xa0\x84\x80";
            std::string s = l;
            for (int k = 1; k < labels; k++) s += "." + l;
            arena_reset();
            check_idna(s);
            check_idna(s + ".");
        }
        std::string big;
        for (size_t i = 0; i < n * 40; i++) big += "\xc3\xa4" "b.";
        arena_reset();
        check_idna(big);
        check_idna(big + "\xff");
        std::string ign = "\xc3\xa4";
        for (size_t i = 0; i < n * 40; i++) ign += "\xc2\xad";
        check_idna(ign);
    }));
    out.push_back(words("ascii", "all ASCII strings of 2 characters (copied and lower-cased, not validated)", bytes_of([] { std::string s; for (int i = 1; i < 128; i++) s += (char)i; return s; }()), 0, 2, check_idna));
    out.push_back(words("bytes", "all strings of 2 arbitrary bytes, alone and after a letter", all_bytes(1), 1, 2, [](const std::string &s) { check_idna(s); check_idna("\xc3\xa4" + s); check_idna(s + "a"); }));
    out.push_back(numbered("ascii-long", "ASCII names of 0..1200 characters", 1201, [](uint64_t n) { check_idna(std::string(n, 'Q')); check_idna(std::string(n, '[')); }));
    out.push_back(numbered("expanding", "every code point that takes part in normalization repeated up to 55 times, in up to three labels, before and after unnormalized letters", interesting().size(), [](uint64_t i) {
        static const U all = interesting();
        std::string x = ref::utf8(all[i]);
        for (int n : {2, 3, 5, 9, 17, 30, 55}) {
            std::string l;
            for (int k = 0; k < n; k++) l += x;
            current(l.data(), l.size());
            arena_reset();
            for (const std::string &s : {l + "a\xcc\x81", "a\xcc\x81" + l, l + "\xcc\xb8\xcc\xa3", l + "q\xcc\x87\xcc\xa3"}) { check_idna(s); if (n > 5) { check_idna(l + "." + s); check_idna(s + "." + l + "." + s); } }
        }
    }));
    auto I = std::make_shared<U>(interesting());
    out.push_back(numbered("normalization", "every code point that takes part in normalization with each of 12 contexts before and after", I->size(), [I](uint64_t i) {
        std::string x = ref::utf8((*I)[i]);
        current(x.data(), x.size());
        arena_reset();
        for (const char *c : {"\xcc\x80", "\xcc\x81", "\xcc\xa3", "\xcd\x85", "\xcc\xb8", "\xe3\x82\x99", "\xe1\x85\xa1", "\xe1\x86\xa8", "\xe0\xa4\xbc", "A", "\xce\x91", "\xcc\xa7\xcc\x81"})
            for (const std::string &s : {x + c, c + x, "q" + x + c, std::string("q") + c + x, "\xc3\x84" + x + c, "q" + x + c + c}) check_idna(s);
    }));
}

void mc::suites(std::vector<Suite> &out)
{
    ref::data();
    if (prop == "C13") {
        out.push_back(numbered("every-codepoint", "every Unicode code point, surrogates included", 0x1100, [](uint64_t blk) {
            for (int c = blk << 8; c < (int)((blk + 1) << 8); c++) check_tables(c);
        }));
        out.push_back(numbered("beyond", "every value 0x110000..0x210000 and -0x10000..-1, and around every power of two up to INT_MAX and down to INT_MIN", 0x101, [](uint64_t blk) {
            if (blk < 0x100) { for (int c = 0x110000 + (blk << 12); c < (int)(0x110000 + ((blk + 1) << 12)); c++) check_tables(c); return; }
            for (int c = -0x10000; c < 0; c++) check_tables(c);
            for (int k = 16; k < 32; k++) for (int64_t c = -((int64_t)1 << k) - 300; c <= -((int64_t)1 << k) + 300; c++) if (c >= INT_MIN) check_tables((int)c);
            for (int k = 21; k < 32; k++) for (int64_t c = ((int64_t)1 << k) - 300; c <= ((int64_t)1 << k) + 300; c++) if (c <= 0x7fffffff) check_tables((int)c);
        }));
    } else if (prop == "C14") norm_suites(out);
    else idna_suites(out);
}
