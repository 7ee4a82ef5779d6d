// Reference Unicode data, normalization (UAX #15), Punycode (RFC 3492) and
// IDNA (UTS #46, non-transitional, STD3 rules), written from the standards.
#pragma once
#include "ref_utf8.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
namespace ref {
enum { NCP = 0x110000 };
struct Data {
    std::vector<std::string> cats, bidis;
    std::vector<uint8_t> cat, bidi, ccc;         // per code point
    std::vector<int> upper, lower;
    std::unordered_map<int, U> canon, compat;     // raw decompositions
    std::vector<uint8_t> qc[4];                   // 0 yes, 1 no, 2 maybe: NFC NFD NFKC NFKD
    std::vector<bool> excluded;
    std::unordered_map<uint64_t, int> compose;
    std::vector<std::string> statuses;
    std::vector<uint8_t> status;
    std::unordered_map<int, U> mapping;
    static int intern(std::vector<std::string> &v, const std::string &s)
    {
        for (size_t i = 0; i < v.size(); i++) if (v[i] == s) return i;
        v.push_back(s);
        return v.size() - 1;
    }
    static int hexint(const std::string &s) { return strtol(s.c_str(), nullptr, 16); }
    std::ifstream file(const char *n)
    {
        const char *d = getenv("MC_DATA");
        std::ifstream f(std::string(d ? d : "data") + "/" + n);
        if (!f) { fprintf(stderr, "no reference data %s\n", n); exit(3); }
        return f;
    }
    // No code point assigned; the status of all is to be filled in.
    explicit Data(bool)
    {
        intern(cats, "Cn"); intern(bidis, "L");
        cat.assign(NCP, 0); bidi.assign(NCP, 0); ccc.assign(NCP, 0);
        upper.resize(NCP); lower.resize(NCP);
        for (int i = 0; i < NCP; i++) upper[i] = lower[i] = i;
        excluded.assign(NCP, false);
        status.assign(NCP, 255);
        for (auto &q : qc) q.assign(NCP, 0);
    }
    Data()
    {
        intern(cats, "Cn"); intern(bidis, "L");
        cat.assign(NCP, 0); bidi.assign(NCP, 0); ccc.assign(NCP, 0);
        upper.resize(NCP); lower.resize(NCP);
        for (int i = 0; i < NCP; i++) upper[i] = lower[i] = i;
        excluded.assign(NCP, false);
        status.assign(NCP, 255);
        for (auto &q : qc) q.assign(NCP, 0);
        std::string line;
        auto f = file("ucd.txt");
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string lo, hi, gc, cc, bc, up, low, w;
            is >> lo >> hi >> gc >> cc >> bc >> up >> low;
            U dec; bool tagged = false;
            while (is >> w) { if (w[0] == '<') tagged = true; else dec.push_back(hexint(w)); }
            for (int c = hexint(lo); c <= hexint(hi); c++) {
                cat[c] = intern(cats, gc); bidi[c] = intern(bidis, bc); ccc[c] = atoi(cc.c_str());
                if (up != "-") upper[c] = hexint(up);
                if (low != "-") lower[c] = hexint(low);
                if (!dec.empty()) { compat[c] = dec; if (!tagged) canon[c] = dec; }
            }
        }
        auto g = file("norm.txt");
        while (std::getline(g, line)) {
            std::istringstream is(line);
            std::string lo, hi, p, v;
            is >> lo >> hi >> p >> v;
            for (int c = hexint(lo); c <= hexint(hi); c++) {
                if (p == "Full_Composition_Exclusion") excluded[c] = true;
                else qc[p == "NFC_QC" ? 0 : p == "NFD_QC" ? 1 : p == "NFKC_QC" ? 2 : 3][c] = v == "N" ? 1 : v == "M" ? 2 : 0;
            }
        }
        for (auto &d : canon)
            if (d.second.size() == 2 && !excluded[d.first]) compose[(uint64_t)d.second[0] << 32 | d.second[1]] = d.first;
        auto h = file("idna.txt");
        while (std::getline(h, line)) {
            std::istringstream is(line);
            std::string lo, hi, st, w;
            is >> lo >> hi >> st;
            U m;
            while (is >> w) m.push_back(hexint(w));
            for (int c = hexint(lo); c <= hexint(hi); c++) { status[c] = intern(statuses, st); if (!m.empty()) mapping[c] = m; }
        }
        for (int i = 0; i < NCP; i++) if (status[i] == 255) { fprintf(stderr, "reference data incomplete\n"); exit(3); }
    }
    bool is_status(int c, const char *s) const { return statuses[status[c]] == s; }
    std::string category(int c) const { return c < 0 || c >= NCP ? "Cn" : cats[cat[c]]; }
};
inline const Data *&substitute() { static const Data *d; return d; }     // other data than the real
inline const Data &data() { if (substitute()) return *substitute(); static Data *d = new Data; return *d; }

// ------------------------------------------------------------ normalization
inline void decompose1(int c, U &out)
{
    if (c >= 0xac00 && c < 0xac00 + 11172) {
        int i = c - 0xac00;
        out.push_back(0x1100 + i / 588);
        out.push_back(0x1161 + i % 588 / 28);
        if (i % 28) out.push_back(0x11a7 + i % 28);
        return;
    }
    auto it = data().canon.find(c);
    if (it == data().canon.end()) { out.push_back(c); return; }
    for (int d : it->second) decompose1(d, out);
}
inline U nfd(const U &u)
{
    U r;
    for (int c : u) decompose1(c, r);
    const auto &ccc = data().ccc;
    for (size_t i = 0; i < r.size();) {
        if (!ccc[r[i]]) { i++; continue; }
        size_t j = i;
        while (j < r.size() && ccc[r[j]]) j++;
        std::stable_sort(r.begin() + i, r.begin() + j, [&](int a, int b) { return ccc[a] < ccc[b]; });
        i = j;
    }
    return r;
}
inline int compose2(int a, int b)
{
    if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xac00 + ((a - 0x1100) * 21 + b - 0x1161) * 28;
    if (a >= 0xac00 && a < 0xac00 + 11172 && (a - 0xac00) % 28 == 0 && b > 0x11a7 && b < 0x11c3) return a + b - 0x11a7;
    auto it = data().compose.find((uint64_t)a << 32 | b);
    return it == data().compose.end() ? -1 : it->second;
}
inline U nfc_of_nfd(const U &d)
{
    const auto &ccc = data().ccc;
    U r;
    int starter = -1;
    for (int c : d) {
        if (starter >= 0) {
            bool adjacent = (size_t)starter == r.size() - 1;
            // blocked if something between has class 0 or a class >= c's
            if (adjacent || (ccc[c] && ccc[r.back()] && ccc[r.back()] < ccc[c])) {
                int p = compose2(r[starter], c);
                if (p >= 0) { r[starter] = p; continue; }
            }
        }
        if (!ccc[c]) starter = r.size();
        r.push_back(c);
    }
    return r;
}
inline U nfc(const U &u) { return nfc_of_nfd(nfd(u)); }

// ------------------------------------------------------------------ Punycode
inline std::string punycode(const U &in)
{
    auto digit = [](long d) { return (char)(d < 26 ? 'a' + d : '0' + d - 26); };
    std::string out;
    for (int c : in) if (c < 128) out += (char)c;
    long b = out.size(), h = b, n = 128, delta = 0, bias = 72;
    if (b) out += '-';
    while (h < (long)in.size()) {
        long m = NCP;
        for (int c : in) if (c >= n && c < m) m = c;
        delta += (m - n) * (h + 1);
        n = m;
        for (int c : in) {
            if (c < n) delta++;
            if (c == n) {
                long q = delta;
                for (long k = 36;; k += 36) {
                    long t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
                    if (q < t) break;
                    out += digit(t + (q - t) % (36 - t));
                    q = (q - t) / (36 - t);
                }
                out += digit(q);
                // adapt
                long d = h == b ? delta / 700 : delta / 2;
                d += d / (h + 1);
                long k = 0;
                while (d > 455) { d /= 35; k += 36; }
                bias = k + 36 * d / (d + 38);
                delta = 0;
                h++;
            }
        }
        delta++; n++;
    }
    return out;
}

// ---------------------------------------------------------------------- IDNA
struct Idna {
    bool must_refuse = false;     // disallowed code points or labels, ill-formed, too long
    bool strict = false;          // a valid host name: must be encoded
    std::string encoding;         // if not must_refuse
};
inline bool bidi_ok(const std::vector<U> &labels)
{
    auto cls = [](int c) -> const std::string & { return data().bidis[data().bidi[c]]; };
    bool domain = false;
    for (auto &l : labels) for (int c : l) { auto &k = cls(c); if (k == "R" || k == "AL" || k == "AN") domain = true; }
    if (!domain) return true;
    for (auto &l : labels) {
        if (l.empty()) continue;
        auto &f = cls(l[0]);
        size_t e = l.size();
        while (e > 0 && cls(l[e - 1]) == "NSM") e--;
        if (!e) return false;
        auto &last = cls(l[e - 1]);
        if (f == "R" || f == "AL") {
            bool en = false, an = false;
            for (int c : l) {
                auto &k = cls(c);
                if (!(k == "R" || k == "AL" || k == "AN" || k == "EN" || k == "ES" || k == "CS" || k == "ET" || k == "ON" || k == "BN" || k == "NSM")) return false;
                en |= k == "EN"; an |= k == "AN";
            }
            if (!(last == "R" || last == "AL" || last == "EN" || last == "AN")) return false;
            if (en && an) return false;
        } else if (f == "L") {
            for (int c : l) {
                auto &k = cls(c);
                if (!(k == "L" || k == "EN" || k == "ES" || k == "CS" || k == "ET" || k == "ON" || k == "BN" || k == "NSM")) return false;
            }
            if (!(last == "L" || last == "EN")) return false;
        } else return false;
    }
    return true;
}
inline Idna idna(const std::string &name)
{
    const Data &d = data();
    Idna r;
    U u;
    bool ascii = true;
    for (unsigned char c : name) if (c >= 128) ascii = false;
    if (ascii) {
        r.strict = true;
        for (char c : name) r.encoding += c >= 'A' && c <= 'Z' ? c + 32 : c;
        return r;
    }
    if (!utf8_decode(name, u)) { r.must_refuse = true; return r; }
    U m;
    for (int c : u) {
        if (d.is_status(c, "valid") || d.is_status(c, "deviation")) m.push_back(c);
        else if (d.is_status(c, "ignored")) ;
        else if (d.is_status(c, "mapped")) { auto &x = d.mapping.at(c); m.insert(m.end(), x.begin(), x.end()); }
        else { r.must_refuse = true; return r; }
    }
    m = nfc(m);
    std::vector<U> labels(1);
    for (int c : m) if (c == '.') labels.push_back(U()); else labels.back().push_back(c);
    bool final_dot = labels.size() > 1 && labels.back().empty();
    if (final_dot) labels.pop_back();
    r.strict = true;
    size_t total = 0;
    for (auto &l : labels) {
        std::string e;
        bool na = false;
        for (int c : l) {
            if (c >= 128) na = true;
            else if (!(c == '-' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z'))) { r.must_refuse = true; return r; }
            if (!(d.is_status(c, "valid") || d.is_status(c, "deviation"))) { r.must_refuse = true; return r; }
        }
        if (na) e = "xn--" + punycode(l);
        else for (int c : l) e += (char)c;
        if (l.empty() || l[0] == '-' || l.back() == '-' || d.category(l[0])[0] == 'M') { r.must_refuse = true; return r; }
        if (l.size() >= 4 && l[2] == '-' && l[3] == '-') r.strict = false;   // incl. literal xn--
        for (size_t i = 0; i < l.size(); i++)
            if ((l[i] == 0x200c || l[i] == 0x200d) && !(i && d.ccc[l[i - 1]] == 9)) r.strict = false;
        if (e.size() > 63) { r.must_refuse = true; return r; }
        total += e.size() + 1;
        r.encoding += (r.encoding.empty() && &l == &labels[0] ? "" : ".") + e;
    }
    if (total - 1 > 253) { r.must_refuse = true; return r; }
    if (final_dot) r.encoding += '.';
    if (!bidi_ok(labels)) r.strict = false;
    return r;
}
}
