/*@unit
@title decode_entity_ref: the predefined entities and character references give their code point, anything else none; the name is not read beyond its end
@func decode_entity_ref
@trust strtol gives the value of the digits it is given in the base it is given, LONG_MAX on overflow (C standard)
@unwind 8
@end*/
#define VH_MINN 1
#define VH_TOKENS "#", "x", "0", "1", "9", "a", "F", "amp", "lt", "gt", "quot", "apos", "nbsp", "a", "p", "10ffff", "110000", "1114111", "1114112", "99999999999", "q", "l", "t"
#define VH_EXLEN 3
#define VH_RNDLEN 6
#define VH_NO_G
#include "vh.h"
#include <stdlib.h>
#include <string.h>
int decode_entity_ref(const char *name);
#ifdef VH_PROOF
long nondet_long(void);
static const char *in_; static long v_; static bool called_;
long strtol(const char *s, char **e, int base)
{
    VH_ASSERT("the digits behind the mark, in their base", in_[0] == '#' && (in_[1] == 'x' ? s == in_ + 2 && base == 16 : s == in_ + 1 && base == 10));
    called_ = true; v_ = nondet_long();
    return v_;
}
#define IS(s) (k[0] == s[0] && k[1] == s[1] && k[2] == s[2] && (s[2] == 0 || (k[3] == s[3] && (s[3] == 0 || k[4] == s[4]))))
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
#ifdef VH_PROOF
    VH_ASSUME(in[n-1] == 0);
    in_ = in; called_ = false; v_ = 0;
    char k[5] = { 0, 0, 0, 0, 0 };
    /* the first characters, 1 behind the end */
    k[0] = in[0]; k[1] = n > 1 && k[0] ? in[1] : 1; k[2] = n > 2 && k[1] ? in[2] : 1; k[3] = n > 3 && k[2] ? in[3] : 1; k[4] = n > 4 && k[3] ? in[4] : 1;
    int want = IS("amp\0") ? '&' : IS("apos") && n > 4 && k[3] == 's' ? '\'' : IS("gt\0\0") ? '>' : IS("lt\0\0") ? '<' : IS("quot") ? '"' : IS("nbsp") ? 160 : -1;
    int r = decode_entity_ref(in);
    if (want >= 0) { VH_ASSERT("a predefined entity", r == want); VH_COVER("predefined"); }
    else if (in[0] == '#') { VH_ASSERT("a character reference", called_ && r == (v_ >= 0 && v_ <= 0x10ffff ? v_ : 0)); VH_COVER("reference"); }
    else { VH_ASSERT("no character", r == 0); VH_COVER("other"); }
#else
    char *z = malloc(n + 1); memcpy(z, in, n); z[n] = 0;
    for (size_t i = 0; i < n; i++) VH_ASSUME(z[i] > ' ');
    int want = 0;
    static const struct { const char *n; int c; } pre[] = { {"amp",'&'},{"lt",'<'},{"gt",'>'},{"quot",'"'},{"apos",'\''},{"nbsp",160} };
    for (int i = 0; i < 6; i++) if (!strcmp(z, pre[i].n)) want = pre[i].c;
    bool num = *z == '#';
    if (num)
    {
        unsigned long c = 0; const char *d = z + 1; unsigned b = 10;
        if (*d == 'x') { b = 16; d++; }
        if (!*d) num = false;
        if (b == 16 && d[0] == '0' && d[1] == 'x') { free(z); return; }
        for (; *d; d++)
        {
            int x = *d >= '0' && *d <= '9' ? *d - '0' : b == 16 && *d >= 'a' && *d <= 'f' ? *d - 'a' + 10 : b == 16 && *d >= 'A' && *d <= 'F' ? *d - 'A' + 10 : -1;
            if (x < 0) { free(z); return; } /* no reference that the parser lets through */
            if (c <= 0x10ffff) c = c * b + x;
        }
        want = c > 0x10ffff ? 0 : c;
    }
    int r = decode_entity_ref(z);
    VH_ASSERT("the code point", r == want);
    VH_COVER("decoded");
    free(z);
#endif
}
