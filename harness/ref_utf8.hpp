// Reference UTF-8 (Unicode Table 3-7), written from the standard.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace ref {
// Length of the well-formed sequence at the start of s[0..n), 0 if none.
inline int utf8_len(const uint8_t *s, size_t n)
{
    if (!n) return 0;
    auto in = [&](size_t i, int lo, int hi) { return i < n && s[i] >= lo && s[i] <= hi; };
    int a = s[0];
    if (a <= 0x7f) return 1;
    if (a >= 0xc2 && a <= 0xdf) return in(1, 0x80, 0xbf) ? 2 : 0;
    if (a == 0xe0) return in(1, 0xa0, 0xbf) && in(2, 0x80, 0xbf) ? 3 : 0;
    if ((a >= 0xe1 && a <= 0xec) || a == 0xee || a == 0xef) return in(1, 0x80, 0xbf) && in(2, 0x80, 0xbf) ? 3 : 0;
    if (a == 0xed) return in(1, 0x80, 0x9f) && in(2, 0x80, 0xbf) ? 3 : 0;
    if (a == 0xf0) return in(1, 0x90, 0xbf) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) ? 4 : 0;
    if (a >= 0xf1 && a <= 0xf3) return in(1, 0x80, 0xbf) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) ? 4 : 0;
    if (a == 0xf4) return in(1, 0x80, 0x8f) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) ? 4 : 0;
    return 0;
}
inline int utf8_value(const uint8_t *s, int len)
{
    switch (len) {
        case 1: return s[0];
        case 2: return (s[0] & 0x1f) << 6 | (s[1] & 0x3f);
        case 3: return (s[0] & 0x0f) << 12 | (s[1] & 0x3f) << 6 | (s[2] & 0x3f);
        default: return (s[0] & 0x07) << 18 | (s[1] & 0x3f) << 12 | (s[2] & 0x3f) << 6 | (s[3] & 0x3f);
    }
}
inline std::string utf8(int cp)
{
    std::string r;
    if (cp < 0x80) r += (char)cp;
    else if (cp < 0x800) { r += (char)(0xc0 + cp / 64); r += (char)(0x80 + cp % 64); }
    else if (cp < 0x10000) { r += (char)(0xe0 + cp / 4096); r += (char)(0x80 + cp / 64 % 64); r += (char)(0x80 + cp % 64); }
    else { r += (char)(0xf0 + cp / 262144); r += (char)(0x80 + cp / 4096 % 64); r += (char)(0x80 + cp / 64 % 64); r += (char)(0x80 + cp % 64); }
    return r;
}
inline bool scalar(int cp) { return (cp >= 0 && cp < 0xd800) || (cp >= 0xe000 && cp <= 0x10ffff); }
typedef std::vector<int> U;
inline std::string utf8(const U &u) { std::string r; for (int c : u) r += utf8(c); return r; }
inline bool utf8_decode(const std::string &s, U &out)
{
    out.clear();
    for (size_t i = 0; i < s.size();) {
        int k = utf8_len((const uint8_t *)s.data() + i, s.size() - i);
        if (!k) return false;
        out.push_back(utf8_value((const uint8_t *)s.data() + i, k));
        i += k;
    }
    return true;
}
}
