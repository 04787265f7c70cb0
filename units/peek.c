/*@unit
@title peek_utf8_char copies exactly the bytes of the next char, never reads behind stop and gives 0 for a truncated or invalid lead byte
@func peek_utf8_char
@func num_utf8_bytes
@unwind 6
@end*/
#define VH_MINN 0
#define VH_ALPHABET "a\x80\xbf\xc3\xe2\xf0\xed\xff"
#define VH_EXLEN 5
#define VH_RNDLEN 6
#define VH_NOISE 2
#define VH_P 2
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    UTF8Char uc;
    char z[6] = { 0 };
    if (p)
    {
        /* NUL terminated variant, any four bytes then NUL */
        for (int k = 0; k < 4; k++) z[k] = (size_t)k < n ? in[k] : 0;
        in = z; n = 0;
        while (z[n]) n++;
        VH_ASSUME(n > 0);
    }
    size_t l = peek_utf8_char(in, p ? NULL : in + n, &uc);
    size_t k = n ? num_utf8_bytes(in[0]) : 0;
    VH_ASSERT("length", l == (k <= n ? k : 0));
    if (l)
    {
        VH_ASSERT("bytes", uc.bytes[0] == in[0] && (l < 2 ? uc.bytes[1] == 0 : uc.bytes[1] == in[1]) && (l < 3 ? uc.bytes[2] == 0 : uc.bytes[2] == in[2])
                  && (l < 4 ? uc.bytes[3] == 0 : uc.bytes[3] == in[3]) && uc.bytes[4] == 0);
        VH_COVER("peeked");
    }
    else { VH_COVER("nothing to peek"); }
}
