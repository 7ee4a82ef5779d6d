// Helpers for the input-enumeration harnesses: all words over an alphabet,
// batched so that one case is a prefix and the suffixes are run inside it.
#pragma once
#include "mc.hpp"
#include <cerrno>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

namespace mc {
typedef std::vector<std::string> Alphabet;   // symbols may be multi-byte

inline Alphabet bytes_of(const std::string &s)
{
    Alphabet a;
    for (char c : s) a.push_back(std::string(1, c));
    return a;
}
inline Alphabet all_bytes(int from = 0)
{
    Alphabet a;
    for (int i = from; i < 256; i++) a.push_back(std::string(1, (char)i));
    return a;
}

// All words of min..max symbols; f is run on every one of them.
inline Suite words(const std::string &name, const std::string &bound, const Alphabet &alpha, int min, int max,
                   std::function<void(const std::string &)> f, bool reset_each = true, uint64_t batch = 20000)
{
    Suite su;
    su.name = name;
    su.bound = bound;
    auto inner = [=](int len) {
        int k = 0; uint64_t n = 1;
        while (k < len && n * alpha.size() <= batch) { n *= alpha.size(); k++; }
        return k;
    };
    su.enumerate = [=](Enum &e) {
        uint64_t no = 0;
        for (int len = min; len <= max; len++) {
            int pl = len - inner(len);
            std::vector<int> d(pl, 0);
            for (;;) {
                if (e.mine(no++)) {
                    std::vector<uint8_t> v;
                    v.push_back(len);
                    for (int x : d) put16(v, x);
                    e.run(v.data(), v.size());
                }
                int i = pl - 1;
                while (i >= 0 && ++d[i] == (int)alpha.size()) d[i--] = 0;
                if (i < 0) break;
            }
        }
    };
    su.exec = [=](const uint8_t *p, size_t n) {
        int len = p[0];
        std::vector<int> d(len, 0);
        int pl = (n - 1) / 2;
        for (int i = 0; i < pl; i++) d[i] = get16(p + 1 + 2 * i);
        std::string s;
        for (;;) {
            s.clear();
            for (int x : d) s += alpha[x];
            current(s.data(), s.size());
            if (reset_each) arena_reset();
            f(s);
            int i = len - 1;
            while (i >= pl && ++d[i] == (int)alpha.size()) d[i--] = 0;
            if (i < pl) break;
        }
    };
    su.describe = [=](const uint8_t *p, size_t n) {
        std::string s;
        for (size_t i = 0; i < (n - 1) / 2; i++) s += alpha[get16(p + 1 + 2 * i)];
        return "all words of " + std::to_string(p[0]) + " symbols starting with " + quote(s);
    };
    return su;
}

// A numbered list of cases [0,n).
inline Suite numbered(const std::string &name, const std::string &bound, uint64_t n, std::function<void(uint64_t)> f)
{
    Suite su;
    su.name = name;
    su.bound = bound;
    su.enumerate = [=](Enum &e) {
        for (uint64_t i = 0; i < n; i++)
            if (e.mine(i)) e.run(&i, sizeof i);
    };
    su.exec = [=](const uint8_t *p, size_t) { uint64_t i; memcpy(&i, p, 8); f(i); };
    su.describe = [=](const uint8_t *p, size_t) { uint64_t i; memcpy(&i, p, 8); return "part " + std::to_string(i); };
    return su;
}

// Sizes: 0..dense, then the neighbourhood of every power of two up to 2^top.
inline std::vector<size_t> ladder(size_t dense, int top)
{
    std::vector<size_t> v;
    for (size_t i = 0; i <= dense; i++) v.push_back(i);
    for (int b = 1; b <= top; b++)
        for (long d = -4; d <= 4; d++) {
            size_t n = ((size_t)1 << b) + d;
            if ((long)n > (long)v.back()) v.push_back(n);
        }
    return v;
}
}
