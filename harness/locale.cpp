// The C library's locale-dependent character functions as the library under
// test sees them (its references are renamed): a Latin-5 (Turkish) locale, so
// that any dependence on the locale becomes visible.  isdigit and isxdigit do
// not depend on the locale, by the C standard.
#include <cctype>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <strings.h>
static struct Tables {
    unsigned short b[384];
    int32_t lo[384], up[384];
    const unsigned short *pb = b + 128;
    const int32_t *plo = lo + 128, *pup = up + 128;
    Tables()
    {
        const unsigned short *cb = *__ctype_b_loc();
        for (int i = -128; i < 256; i++) {
            int c = i < -1 ? i + 256 : i;
            b[i + 128] = cb[c]; lo[i + 128] = tolower(c); up[i + 128] = toupper(c);
            if (c >= 0x80 && c < 0xa0) b[i + 128] = _IScntrl;
            if (c == 0xa0) b[i + 128] = _ISspace | _ISblank | _ISprint;
            if (c > 0xa0) b[i + 128] = _ISprint | _ISgraph | _ISpunct;
            if (c >= 0xc0) {
                bool upper = c < 0xdf;
                b[i + 128] = _ISprint | _ISgraph | _ISalpha | _ISalnum | (upper ? _ISupper : _ISlower);
                if (upper) lo[i + 128] = c + 32;
                else if (c != 0xdf && c != 0xff) up[i + 128] = c - 32;
            }
            if (c == 'I') lo[i + 128] = 0xfd;
            if (c == 'i') up[i + 128] = 0xdd;
            if (c == 0xdd) lo[i + 128] = 'i';
            if (c == 0xfd) up[i + 128] = 'I';
        }
    }
} T;
extern "C" {
const unsigned short **mcx___ctype_b_loc() { return &T.pb; }
const int32_t **mcx___ctype_tolower_loc() { return &T.plo; }
const int32_t **mcx___ctype_toupper_loc() { return &T.pup; }
int mcx_tolower(int c) { return c < -128 || c > 255 ? c : T.plo[c]; }
int mcx_toupper(int c) { return c < -128 || c > 255 ? c : T.pup[c]; }
#define IS(f, bit) int mcx_##f(int c) { return T.pb[c] & bit; }
IS(isalpha, _ISalpha) IS(isalnum, _ISalnum) IS(islower, _ISlower) IS(isupper, _ISupper) IS(isspace, _ISspace)
IS(isprint, _ISprint) IS(ispunct, _ISpunct) IS(iscntrl, _IScntrl) IS(isgraph, _ISgraph) IS(isblank, _ISblank)
IS(isdigit, _ISdigit) IS(isxdigit, _ISxdigit)
int mcx_strncasecmp(const char *a, const char *b, size_t n)
{
    for (; n; n--, a++, b++) {
        int x = T.plo[(uint8_t)*a], y = T.plo[(uint8_t)*b];
        if (x != y) return x - y;
        if (!*a) break;
    }
    return 0;
}
int mcx_strcasecmp(const char *a, const char *b) { return mcx_strncasecmp(a, b, -1); }
int mcx_strcoll(const char *a, const char *b)
{
    int r = mcx_strcasecmp(a, b);
    return r ? r : -strcmp(a, b);
}
}
