// C26: tables built from other data files.  Each case is a complete set of
// data files in the formats of the bundled ones; a copy of the tree is rebuilt
// with them and the resulting library, loaded into this process, is compared
// with the data for every code point.
#include <climits>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>
#include "text.hpp"
#include "ref_ucd.hpp"
#include "charstr.h"
using namespace mc;
using ref::U;
using ref::Data;
typedef std::string S;

static const char *CATS[] = {"Cn", "Cc", "Cf", "Co", "Cs", "Ll", "Lm", "Lo", "Lt", "Lu", "Mc", "Me", "Mn", "Nd", "Nl", "No", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Sc", "Sk", "Sm", "So", "Zl", "Zp", "Zs"};
static const int CATV[] = {UNICODE_CATEGORY_Cn, UNICODE_CATEGORY_Cc, UNICODE_CATEGORY_Cf, UNICODE_CATEGORY_Co, UNICODE_CATEGORY_Cs, UNICODE_CATEGORY_Ll, UNICODE_CATEGORY_Lm, UNICODE_CATEGORY_Lo, UNICODE_CATEGORY_Lt, UNICODE_CATEGORY_Lu, UNICODE_CATEGORY_Mc, UNICODE_CATEGORY_Me, UNICODE_CATEGORY_Mn, UNICODE_CATEGORY_Nd, UNICODE_CATEGORY_Nl, UNICODE_CATEGORY_No, UNICODE_CATEGORY_Pc, UNICODE_CATEGORY_Pd, UNICODE_CATEGORY_Pe, UNICODE_CATEGORY_Pf, UNICODE_CATEGORY_Pi, UNICODE_CATEGORY_Po, UNICODE_CATEGORY_Ps, UNICODE_CATEGORY_Sc, UNICODE_CATEGORY_Sk, UNICODE_CATEGORY_Sm, UNICODE_CATEGORY_So, UNICODE_CATEGORY_Zl, UNICODE_CATEGORY_Zp, UNICODE_CATEGORY_Zs};
static int catval(const S &s) { for (int i = 0; i < 30; i++) if (s == CATS[i]) return CATV[i]; return -1; }
static S fmt(const char *f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static S ustr(const U &u) { S s; for (int c : u) s += fmt("%sU+%04X", s.empty() ? "" : " ", c); return s; }
static S hexs(const U &u) { S s; for (int c : u) s += fmt("%s%04X", s.empty() ? "" : " ", c); return s; }

// --------------------------------------------------------------- a set of data
enum { LAST = 0x10ffff };
struct Char { S gc; int ccc = 0; U dec; bool tagged = false; int up = -1, low = -1; };
struct Set {
    Data d{true};
    S ucd, norm, excl, idna;
    std::vector<U> texts;                       // to be normalized
    // code points must be added in ascending order
    void add(int c, const Char &k, int last = -1)
    {
        S name = fmt("CHARACTER %X", c);
        for (int i = 0; i < (last < 0 ? 1 : 2); i++) {
            if (last >= 0) name = fmt("<Block %X, %s>", c, i ? "Last" : "First");
            ucd += fmt("%04X;", i ? last : c) + name + ";" + k.gc + fmt(";%d;L;", k.ccc) + (k.tagged ? "<compat> " : "") + hexs(k.dec) + ";;;;N;;;" + (k.up >= 0 ? fmt("%04X", k.up) : "") + ";" + (k.low >= 0 ? fmt("%04X", k.low) : "") + ";\n";
        }
        for (int x = c; x <= (last < 0 ? c : last); x++) {
            d.cat[x] = Data::intern(d.cats, k.gc);
            d.ccc[x] = k.ccc;
            if (k.up >= 0) d.upper[x] = k.up;
            if (k.low >= 0) d.lower[x] = k.low;
            if (!k.dec.empty()) { d.compat[x] = k.dec; if (!k.tagged) d.canon[x] = k.dec; }
        }
    }
    // Ranges of equal value of a property, written in one of three styles.
    static void lines(S &out, const std::vector<std::pair<int, S>> &v, int style)
    {
        for (size_t i = 0; i < v.size();) {
            size_t j = i + 1;
            while (style != 1 && j < v.size() && v[j].second == v[i].second && v[j].first == v[j - 1].first + 1 && (style == 0 || j - i < 2)) j++;
            S r = j - i > 1 ? fmt("%04X..%04X", v[i].first, v[j - 1].first) : fmt("%04X", v[i].first);
            if (style != 1) r.resize(std::max<size_t>(r.size(), 14), ' ');
            out += r + (style == 1 ? "; " : "; ") + v[i].second + (style == 2 ? "\n" : fmt(" # Lo   [%zu] SOMETHING; ELSE\n", j - i));
            i = j;
        }
    }
    void exclude(int c, int style)
    {
        excl += style == 0 ? fmt("%04X    #  CHARACTER %X\n", c, c) : style == 1 ? fmt("%04X\n", c) : fmt("%04X #\tCHARACTER\n\n", c);
        d.excluded[c] = true;
    }
    // The quick-check and exclusion properties that follow from the
    // decompositions, and those given in d.qc.
    void finish_norm(int style)
    {
        for (auto &x : d.canon) {
            if (x.second.size() == 2 && !d.excluded[x.first]) d.compose[(uint64_t)x.second[0] << 32 | x.second[1]] = x.first;
        }
        ref::substitute() = &d;
        for (auto &x : d.canon) {
            d.qc[1][x.first] = d.qc[3][x.first] = 1;
            bool no = ref::nfc(U{x.first}) != U{x.first};
            if (no) d.qc[0][x.first] = d.qc[2][x.first] = 1;
            if (x.second.size() < 2) d.excluded[x.first] = true;
        }
        for (auto &x : d.compose) { int m = (uint32_t)x.first; if (!d.qc[0][m]) d.qc[0][m] = 2; if (!d.qc[2][m]) d.qc[2][m] = 2; }
        for (auto &x : d.compat) if (!d.canon.count(x.first)) d.qc[2][x.first] = d.qc[3][x.first] = 1;
        for (int c = 0xac00; c < 0xac00 + 11172; c++) d.qc[1][c] = d.qc[3][c] = 1;
        for (int c = 0x1161; c <= 0x1175; c++) d.qc[0][c] = d.qc[2][c] = 2;
        for (int c = 0x11a8; c <= 0x11c2; c++) d.qc[0][c] = d.qc[2][c] = 2;
        write_norm(style);
    }
    void write_norm(int style)
    {
        static const char *names[4] = {"NFC_QC", "NFD_QC", "NFKC_QC", "NFKD_QC"};
        norm = "# DerivedNormalizationProps\n# ================\n\n037A  ; FC_NFKC; 0020 03B9      # Lm  GREEK YPOGEGRAMMENI\n";
        std::vector<std::pair<int, S>> v;
        for (int c = 0; c <= LAST; c++) if (d.excluded[c]) v.push_back({c, "Full_Composition_Exclusion"});
        lines(norm, v, style);
        for (int k : {1, 0, 3, 2}) {
            norm += S("\n# Property:\t") + names[k] + "\n# @missing: 0000..10FFFF; " + names[k] + "; Yes\n\n";
            for (int val : {1, 2}) {
                v.clear();
                for (int c = 0; c <= LAST; c++) if (d.qc[k][c] == val) v.push_back({c, S(names[k]) + "; " + (val == 1 ? "N" : "M")});
                lines(norm, v, style);
            }
        }
        norm += "\n00AD          ; NFKC_CF;                  # Cf       SOFT HYPHEN\n00AD          ; Changes_When_NFKC_Casefolded # Cf       SOFT HYPHEN\n# EOF\n";
    }
    void set_idna(int c, const S &st, const U &m = U()) { d.status[c] = Data::intern(d.statuses, st); if (m.empty()) d.mapping.erase(c); else d.mapping[c] = m; }
    // Every code point must have a status.
    void write_idna(int style)
    {
        idna = "# IdnaMappingTable\n# @missing\n\n";
        for (int c = 0; c <= LAST;) {
            auto same = [&](int a, int b) {
                if (d.status[a] != d.status[b]) return false;
                auto x = d.mapping.find(a), y = d.mapping.find(b);
                return x == d.mapping.end() ? y == d.mapping.end() : y != d.mapping.end() && x->second == y->second;
            };
            int e = c;
            while (e < LAST && same(c, e + 1) && (style != 1 || d.mapping.count(c) == 0)) e++;
            // style 1: ranges are split in two
            if (style == 1 && e > c) e = c + (e - c) / 2;
            S r = e > c ? fmt("%04X..%04X", c, e) : fmt("%04X", c);
            r.resize(std::max<size_t>(r.size(), 14), ' ');
            S st = d.statuses[d.status[c]];
            st.resize(std::max<size_t>(st.size(), style == 2 ? 0 : 23), ' ');
            auto m = d.mapping.find(c);
            S line = r + "; " + st;
            if (m != d.mapping.end()) line += "; " + hexs(m->second);
            else if (st[0] == 'd' && st[1] == 'e') line += "; ";
            else if (st[0] == 'v' && c % 3) line += ";      ; NV8";
            idna += line + (style == 2 ? "\n" : "    # 1.1  A NAME; <OF A CHARACTER>\n");
            c = e + 1;
        }
    }
    void default_ucd() { for (int c = 'A'; c <= 'Z'; c++) { Char k; k.gc = "Lu"; k.low = c + 32; add(c, k); } for (int c = 'a'; c <= 'z'; c++) { Char k; k.gc = "Ll"; k.up = c - 32; add(c, k); } }
    void default_idna() { for (int c = 0; c <= LAST; c++) set_idna(c, c < 0x80 ? "disallowed_STD3_valid" : "valid"); set_idna('A', "mapped", U{'a'}); write_idna(0); }
};

// ------------------------------------------------- a library built with the set
struct Lib {
    void *so;
    int (*category)(int), (*lcase)(int), (*ucase)(int), (*ccc)(int), (*forms)(int);
    bool (*status[7])(int);
    const char *(*status_name)(int), *(*mapping)(int);
    char *(*decompose)(const char *, const char *, char *, const char *), *(*recompose)(const char *, const char *, char *, const char *);
};
static const char *STATUS[7] = {"deviation", "disallowed", "disallowed_STD3_valid", "disallowed_STD3_mapped", "ignored", "mapped", "valid"};
static int run(const S &cmd) { int r = system(cmd.c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : -1; }
// The copy of the tree that this process rebuilds.
static const S &tree()
{
    static S dir;
    if (!dir.empty()) return dir;
    const char *src = getenv("MC_TREE");
    if (!src) { fprintf(stderr, "no tree\n"); exit(3); }
    for (int i = 0; i < 64; i++) {
        S d = S(src) + "." + std::to_string(i);
        int fd = open((d + ".lock").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
        if (fd < 0) { perror("lock"); exit(3); }
        if (flock(fd, LOCK_EX | LOCK_NB)) { close(fd); continue; }
        if (access((d + ".ready").c_str(), F_OK)) {
            if (run("rm -rf '" + d + "' && cp -a '" + S(src) + "' '" + d + "' && : > '" + d + ".ready'")) { fprintf(stderr, "cannot copy the tree\n"); exit(3); }
        }
        return dir = d;
    }
    exit(3);
}
static void put(const S &path, const S &text)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) { perror(path.c_str()); exit(3); }
}
static S tail(const S &path)
{
    std::ifstream f(path);
    S s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    return s.size() > 1500 ? s.substr(s.size() - 1500) : s;
}
static Lib make(const Set &s)
{
    static int serial;
    const S &t = tree();
    put(t + "/unicode/UnicodeData.txt", s.ucd);
    put(t + "/unicode/DerivedNormalizationProps.txt", s.norm);
    put(t + "/unicode/CompositionExclusions.txt", s.excl);
    put(t + "/idna/IdnaMappingTable.txt", s.idna);
    S so = t + "." + std::to_string(getpid()) + "." + std::to_string(serial++) + ".so", log = t + ".log";
    S lib = "stage/linux64/build/src/libfsdyn.a";
    S cmd = "cd '" + t + "' && scons -j1 -Q " + lib + " >'" + log + "' 2>&1 </dev/null";
    int r = run(cmd);
    if (r) r = run(cmd);
    MC_CHECK(r == 0, "the library cannot be built with well-formed data files: %s", tail(log).c_str());
    if (run("cd '" + t + "' && gcc -shared -Wl,-Bsymbolic -o '" + so + "' -Wl,--whole-archive " + lib + " -Wl,--no-whole-archive >'" + log + "' 2>&1")) { fprintf(stderr, "%s\n", tail(log).c_str()); exit(3); }
    Lib l;
    l.so = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.so) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    unlink(so.c_str());
    auto sym = [&](const S &n) { void *p = dlsym(l.so, n.c_str()); if (!p) { fprintf(stderr, "no %s\n", n.c_str()); exit(3); } return p; };
#define SYM(field, name) l.field = reinterpret_cast<std::decay_t<decltype(l.field)>>(sym(name))
    SYM(category, "charstr_unicode_category"); SYM(lcase, "charstr_naive_lcase_unicode"); SYM(ucase, "charstr_naive_ucase_unicode");
    SYM(ccc, "charstr_unicode_canonical_combining_class"); SYM(forms, "charstr_allowed_unicode_normal_forms");
    for (int i = 0; i < 7; i++) l.status[i] = reinterpret_cast<bool (*)(int)>(sym(S("charstr_idna_status_is_") + STATUS[i]));
    SYM(status_name, "charstr_idna_status"); SYM(mapping, "charstr_idna_mapping");
    SYM(decompose, "charstr_unicode_decompose"); SYM(recompose, "charstr_unicode_recompose");
    return l;
}
static void compare(const Set &set)
{
    Lib l = make(set);
    const Data &d = set.d;
    auto one = [&](int c) {
        bool in = c >= 0 && c < ref::NCP;
        S gc = in ? d.category(c) : "Cn";
        MC_CHECK(l.category(c) == catval(gc), "U+%04X has the category %d instead of %s", c, l.category(c), gc.c_str());
        int lw = in && gc == "Lu" ? d.lower[c] : c, uw = in && gc == "Ll" ? d.upper[c] : c;
        MC_CHECK(l.lcase(c) == lw, "U+%04X has the lower case U+%04X instead of U+%04X", c, l.lcase(c), lw);
        MC_CHECK(l.ucase(c) == uw, "U+%04X has the upper case U+%04X instead of U+%04X", c, l.ucase(c), uw);
        MC_CHECK(l.ccc(c) == (in ? d.ccc[c] : 0), "U+%04X has the combining class %d instead of %d", c, l.ccc(c), in ? d.ccc[c] : 0);
        static const int NO[] = {UNICODE_NFC_DISALLOWED, UNICODE_NFD_DISALLOWED, UNICODE_NFKC_DISALLOWED, UNICODE_NFKD_DISALLOWED};
        static const int MAYBE[] = {UNICODE_NFC_MAYBE, UNICODE_NFD_MAYBE, UNICODE_NFKC_MAYBE, UNICODE_NFKD_MAYBE};
        int fl = 0;
        for (int k = 0; in && k < 4; k++) fl |= d.qc[k][c] == 1 ? NO[k] : d.qc[k][c] == 2 ? MAYBE[k] : 0;
        MC_CHECK(l.forms(c) == fl, "U+%04X has the normal-form flags %02x instead of %02x", c, l.forms(c), fl);
        for (int i = 0; i < 7; i++) {
            bool want = in && d.statuses[d.status[c]] == STATUS[i];
            if (!in && (i == 1 || i == 2 || i == 3)) continue;
            MC_CHECK(l.status[i](c) == want, "U+%04X is %s\"%s\" for IDNA", c, want ? "not " : "", STATUS[i]);
        }
        if (in) MC_CHECK(d.statuses[d.status[c]] == l.status_name(c), "charstr_idna_status(U+%04X) is \"%s\" instead of \"%s\"", c, l.status_name(c), d.statuses[d.status[c]].c_str());
        const char *m = l.mapping(c);
        auto it = in ? d.mapping.find(c) : d.mapping.end();
        if (it == d.mapping.end()) MC_CHECK(!m, "U+%04X has the IDNA mapping %s", c, quote(m ? m : "").c_str());
        else MC_CHECK(m && ref::utf8(it->second) == m, "U+%04X has the IDNA mapping %s instead of %s", c, quote(m ? m : "NULL").c_str(), ustr(it->second).c_str());
    };
    for (int c = -3; c <= LAST + 3; c++) { if (!(c & 0xffff)) { char b[16]; snprintf(b, sizeof b, "U+%04X", c); current(b, strlen(b)); } one(c); }
    for (int c : {INT_MIN, INT_MIN + 1, -65536, INT_MAX - 1, INT_MAX, 1 << 24}) one(c);
    ref::substitute() = &d;
    static char out[1000];
    auto text = [&](const U &u) {
        S in = ref::utf8(u);
        U n = ref::nfd(u);
        char *e = l.decompose(in.c_str(), nullptr, out, out + sizeof out);
        MC_CHECK(e && S(out, e - out) == ref::utf8(n), "%s decomposes to %s instead of %s", ustr(u).c_str(), e ? quote(S(out, e - out)).c_str() : "nothing", ustr(n).c_str());
        S dec = ref::utf8(n);
        U r = ref::nfc_of_nfd(n);
        e = l.recompose(dec.c_str(), nullptr, out, out + sizeof out);
        MC_CHECK(e && S(out, e - out) == ref::utf8(r), "%s recomposes to %s instead of %s", ustr(n).c_str(), e ? quote(S(out, e - out)).c_str() : "nothing", ustr(r).c_str());
    };
    for (int c = 1; c <= LAST; c += c < 0x3000 ? 1 : 7) if ((c < 0x1100 || c > 0x11ff) && (c < 0xac00 || c > 0xdfff)) text(U{c});
    for (auto &x : d.canon) if (x.first) text(U{x.first});
    for (auto &u : set.texts) text(u);
    ref::substitute() = nullptr;
    dlclose(l.so);
    outcome(d.canon.size() + 1000 * d.mapping.size());
    step(LAST + 1);
}
static void note(const S &s) { current(s.data(), std::min<size_t>(s.size(), 200)); }

// ------------------------------------------------------------------------ cases
// All words of three kinds of character, in a row from `base`, separated by `gap`.
enum { KINDS = 12 };
static void ucd_words(int base, int gap, bool at_end)
{
    int count = KINDS * KINDS * KINDS;
    std::vector<int> kinds;
    for (int w = 0; w < count; w++) {
        for (int x = w, i = 0; i < 3; i++, x /= KINDS) kinds.push_back(x % KINDS);
        for (int i = 0; i < gap; i++) kinds.push_back(0);
    }
    int size = 0;
    for (int k : kinds) size += k >= 10 ? k - 8 : 1;
    if (at_end) base = LAST + 1 - size;
    Set s;
    if (base > 'z') s.default_ucd();
    int c = base;
    for (int k : kinds) {
        Char x;
        int other = (c * 7LL + 3) % 0x10ffff;
        switch (k) {
            case 0: break;
            case 1: x.gc = "Lu"; x.low = other; break;
            case 2: x.gc = "Lu"; break;
            case 3: x.gc = "Ll"; x.up = other; break;
            case 4: x.gc = "Ll"; break;
            case 5: x.gc = "Lt"; x.up = other; x.low = c / 2; break;
            case 6: x.gc = "Mn"; x.ccc = 230; break;
            case 7: x.gc = "Mc"; x.ccc = 1 + c % 239; break;
            case 8: x.gc = "No"; x.tagged = true; x.dec = U{0x31, c / 3}; break;
            case 9: x.gc = c % 2 ? "Lu" : "Ll"; x.low = other; x.up = c / 2; break;
            default: x.gc = k == 10 ? "Lo" : "Co"; break;
        }
        if (k >= 10) { s.add(c, x, c + k - 9); c += k - 8; }
        else { if (k) s.add(c, x); c++; }
    }
    s.finish_norm(0);
    s.default_idna();
    compare(s);
}
// n runs of characters of the same category, in one of five layouts.
static void ucd_counts(int n, int layout)
{
    Set s;
    int c = layout == 1 ? 0 : 0x40;
    if (layout == 2) c = LAST + 1 - 3 * n;
    for (int i = 0; i < n; i++) {
        Char k;
        k.gc = CATS[1 + (i * 7 + n) % 29];
        if (layout == 0 || layout == 1) { s.add(c, k); c += 2; }                     // separate
        else if (layout == 2) { for (int j = 0; j < 3; j++) s.add(c++, k); }         // adjoining, to the end
        else if (layout == 3) { s.add(c, k, c + 99); c += 100 + (i % 3 == 0); }      // blocks
        else { s.add(c, k); s.add(c + 1, k, c + 5); c += 6 + i * i; }
    }
    s.finish_norm(1);
    s.default_idna();
    compare(s);
}
// Groups of two letters and two marks whose pairs are composed, excluded, only
// compatible or nothing; a composite of a composite, and a singleton.
static void decompositions(int base, int marks, bool before, int style)
{
    Set s;
    if (base > 'z') s.default_ucd();
    std::map<int, Char> chars;
    std::vector<int> excluded;
    for (int g = 0; g < 768; g++) {
        int b = base + g * 16;
        if (b + 16 > 0x1100 && b < 0x1200) continue;                // conjoining jamo
        int lo = before ? b + 8 : b, hi = before ? b : b + 8;
        int B[2] = {lo, lo + 1}, M[2] = {lo + 2, lo + 3};
        for (int x : B) chars[x].gc = "Lo";
        for (int i = 0; i < 2; i++) { chars[M[i]].gc = "Mn"; chars[M[i]].ccc = marks == 0 ? (i ? 220 : 230) : marks == 1 ? 230 : i ? 0 : 7; }
        for (int i = 0; i < 4; i++) {
            int how = g >> 2 * i & 3, c = hi + i;
            if (!how) continue;
            Char &k = chars[c];
            k.gc = "Lo";
            k.dec = U{B[i / 2], M[i % 2]};
            k.tagged = how == 3;
            if (how == 2) excluded.push_back(c);
        }
        int deep = g >> 8, first = hi;
        if (deep && chars.count(first) && !chars[first].tagged) {
            Char &k = chars[hi + 4];
            k.gc = "Ll"; k.dec = U{first, M[1]};
            if (deep == 2) excluded.push_back(hi + 4);
        }
        Char &one = chars[hi + 5];
        one.gc = "Lo"; one.dec = U{chars.count(first) ? first : B[0]};
        std::vector<int> all = B[0] < hi ? std::vector<int>{B[0], B[1], M[0], M[1], hi, hi + 3, hi + 4, hi + 5} : std::vector<int>{B[0], M[0], M[1], hi, hi + 1, hi + 4};
        for (int x : all) for (int y : all) { s.texts.push_back({x, y}); for (int z : M) s.texts.push_back({x, y, z}); }
    }
    for (auto &x : chars) s.add(x.first, x.second);
    s.excl = "# CompositionExclusions\n# (1) Script Specifics\n\n";
    for (int c : excluded) s.exclude(c, style);
    s.excl += fmt("\n# (3) Singleton Decompositions\n# %04X..%04X   [2] SOMETHING\n# %04X\n\n# EOF\n", base, base + 1, base + 8);
    s.finish_norm(style);
    s.default_idna();
    compare(s);
}
// All pairs of combinations of quick-check values.
static void quick_checks(int base, int style)
{
    if (base < 0) base = LAST + 1 - 2 * 1296;
    Set s;
    s.default_ucd();
    s.finish_norm(0);
    for (int w = 0; w < 1296; w++)
        for (int x = w, i = 0; i < 2; i++, x /= 36) {
            int c = base + 2 * w + i, v = x % 36;
            s.d.qc[0][c] = v % 3; s.d.qc[1][c] = v / 3 % 2; s.d.qc[2][c] = v / 6 % 3; s.d.qc[3][c] = v / 18;
        }
    s.write_norm(style);
    s.default_idna();
    compare(s);
}
static U map_to(int c, int kind)
{
    if (kind % 13 == 5) { U u(24, 0x10fff0); for (size_t i = 0; i < u.size(); i++) u[i] += i % 16; return u; }
    return kind % 4 == 0 ? U{'1'} : kind % 4 == 1 ? U{c % 0xd7ff + 1, '"', '\\'} : kind % 4 == 2 ? U{0x10ffff - c % 99, 'x'} : U{0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000};
}
static void idna_words(int base, int fill, int style)
{
    static const char *fills[5] = {"valid", "disallowed", "ignored", "disallowed_STD3_valid", "deviation"};
    if (base < 0) base = LAST + 1 - 3 * 343;
    Set s;
    s.default_ucd();
    s.finish_norm(0);
    for (int c = 0; c <= LAST; c++) s.set_idna(c, fills[fill]);
    int c = base, kind = 0;
    for (int w = 0; w < 343; w++)
        for (int x = w, i = 0; i < 3; i++, x /= 7, c++) {
            S st = STATUS[x % 7];
            bool m = st == "mapped" || st == "disallowed_STD3_mapped" || (st == "deviation" && kind % 3);
            s.set_idna(c, st, m ? map_to(c, kind / 2) : U());      // equal ones adjoin
            kind++;
        }
    s.write_idna(style);
    compare(s);
}
static void idna_counts(int n, int layout)
{
    Set s;
    s.default_ucd();
    s.finish_norm(0);
    for (int c = 0; c <= LAST; c++) s.set_idna(c, layout % 2 ? "disallowed" : "valid");
    int c = layout == 0 ? 0 : layout == 1 ? LAST + 1 - n : 0x30;
    for (int i = 0; i < n; i++) {
        s.set_idna(c, i % 3 ? "mapped" : "disallowed_STD3_mapped", map_to(c, i));
        c += layout < 2 ? 1 : 1 + i % 5 * 3;
    }
    if (layout == 3) s.set_idna(LAST, "mapped", U{'z'});
    s.write_idna(layout % 3);
    compare(s);
}

void mc::suites(std::vector<Suite> &out)
{
    auto add = [&](const char *name, const S &bound, uint64_t n, std::function<void(uint64_t)> f) {
        Suite s = numbered(name, bound, n, f);
        s.hang = 20;
        out.push_back(s);
    };
    static std::vector<int> ub = {1, 0x7e, 0x7fe, 0xd7f0, 0xfff0, -1}, gaps = {0, 1};
    if (thorough) { ub = {0, 1, 0x41, 0x7e, 0x7fe, 0x3000, 0xab00, 0xd000, 0xd7f0, 0xdff0, 0xfff0, 0x1fff0, 0xffff0, 0x100000, -1}; gaps = {0, 1, 2, 3}; }
    else ub.push_back(0);
    add("characters", "all words of 3 of 12 kinds of character (with and without case mappings, marks, compatibility decompositions, blocks, gaps) from " + std::to_string(ub.size()) + " starting points, " + std::to_string(gaps.size()) + " distances", ub.size() * gaps.size(), [](uint64_t i) {
        int b = ub[i % ub.size()], g = gaps[i / ub.size()];
        note(fmt("characters from U+%04X with gaps of %d", b, g));
        ucd_words(b, g, b < 0);
    });
    static std::vector<int> counts;
    counts.clear();
    for (int i = 1; i <= (thorough ? 140 : 12); i++) counts.push_back(i);
    if (!thorough) for (int i : {24, 25, 26, 27, 31, 32, 33, 64, 65, 126, 130}) counts.push_back(i);
    else for (int i : {255, 256, 257, 624, 625, 626, 1000, 3126, 5000}) counts.push_back(i);
    add("runs", "files of 1.." + std::to_string(counts.back()) + " runs of characters in 5 layouts", counts.size() * 5, [](uint64_t i) {
        note(fmt("%d runs in layout %d", counts[i / 5], (int)(i % 5)));
        ucd_counts(counts[i / 5], i % 5);
    });
    static std::vector<int> db = {1, 0x100, 0x2f00, 0xffff0};
    if (thorough) db = {1, 0x80, 0x100, 0x400, 0x1200, 0x2f00, 0x7000, 0xf000, 0x10000, 0x2f800, 0xffff0, LAST - 768 * 16};
    add("decompositions", "all 768 groups of composed, excluded and compatible pairs of 2 letters and 2 marks, a composite of a composite and singletons, for 3 kinds of combining classes from " + std::to_string(db.size()) + " starting points, composites before and after their parts", db.size() * 6, [](uint64_t i) {
        int b = db[i % db.size()], v = i / db.size();
        note(fmt("decompositions from U+%04X, variant %d", b, v));
        decompositions(b, v % 3, v / 3, (i + v) % 3);
    });
    static std::vector<int> qb = {0, 1, 0xfff0, -1};
    if (thorough) qb = {0, 1, 2, 0x7f, 0x7fe, 0xabf0, 0xd7fe, 0xfff0, 0x1ffff, 0xfffff, -1};
    add("quick-checks", "all pairs of combinations of quick-check values for adjacent characters from " + std::to_string(qb.size()) + " starting points, written in 3 styles", qb.size() * 3, [](uint64_t i) {
        note(fmt("quick checks from U+%04X, style %d", qb[i / 3], (int)(i % 3)));
        quick_checks(qb[i / 3], i % 3);
    });
    static std::vector<int> ib = {0, 1, 0x3f, 0xff00, -1};
    if (thorough) ib = {0, 1, 2, 0x3e, 0x3f, 0x40, 0x7f, 0x7ff, 0xd7ff, 0xff00, 0xfffff, -1};
    add("statuses", "all words of 3 of the 7 IDNA statuses, with mappings of several lengths, from " + std::to_string(ib.size()) + " starting points amid 5 other statuses", ib.size() * 5, [](uint64_t i) {
        note(fmt("statuses from U+%04X, fill %d", ib[i / 5], (int)(i % 5)));
        idna_words(ib[i / 5], i % 5, i % 3);
    });
    static std::vector<int> mc;
    mc.clear();
    for (int i = 1; i <= (thorough ? 200 : 12); i++) mc.push_back(i);
    if (!thorough) for (int i : {24, 25, 26, 27, 31, 32, 33, 63, 64, 65, 124, 125, 126, 127, 128}) mc.push_back(i);
    else for (int i : {624, 625, 626, 1023, 1024, 1025, 3125, 5000}) mc.push_back(i);
    add("mappings", "files of 1.." + std::to_string(mc.back()) + " IDNA mappings in 4 layouts", mc.size() * 4, [](uint64_t i) {
        note(fmt("%d mappings in layout %d", mc[i / 4], (int)(i % 4)));
        idna_counts(mc[i / 4], i % 4);
    });
}
