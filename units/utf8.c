/*@unit
@title encode_utf8 and decode_utf8 are inverse on every code point; the encoding is the UTF-8 of the standard; malformed bytes are rejected
@func encode_utf8
@func decode_utf8
@func num_utf8_bytes
@func utf8_char_to_codepoint_string
@unwind 6
@end*/
#define VH_MINN 0
#define VH_ALPHABET "a\x80\xbf\xc3\xe2\xf0\xed\xff"
#define VH_EXLEN 5
#define VH_RNDLEN 6
#define VH_NOISE 2
#define VH_P 2
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
static int ref_enc(int uc, unsigned char *b)
{
    if (uc < 0 || uc > 0x10ffff) return 0;
    if (uc < 0x80) { b[0] = uc; return 1; }
    if (uc < 0x800) { b[0] = 0xc0 + uc / 64; b[1] = 0x80 + uc % 64; return 2; }
    if (uc < 0x10000) { b[0] = 0xe0 + uc / 4096; b[1] = 0x80 + uc / 64 % 64; b[2] = 0x80 + uc % 64; return 3; }
    b[0] = 0xf0 + uc / 262144; b[1] = 0x80 + uc / 4096 % 64; b[2] = 0x80 + uc / 64 % 64; b[3] = 0x80 + uc % 64; return 4;
}
static void enc(int uc)
{
    UTF8Char c; unsigned char r[4] = { 0, 0, 0, 0 };
    size_t l = encode_utf8(uc, &c);
    int rl = ref_enc(uc, r);
    VH_ASSERT("encoded length", l == (size_t)rl);
    if (l)
    {
        VH_ASSERT("encoded bytes", (unsigned char)c.bytes[0] == r[0] && (unsigned char)c.bytes[1] == r[1] && (unsigned char)c.bytes[2] == r[2] && (unsigned char)c.bytes[3] == r[3]);
        VH_ASSERT("the first byte tells the length", num_utf8_bytes(c.bytes[0]) == l);
        int back = -1; size_t bl = 0;
        bool ok = decode_utf8(c.bytes, c.bytes + l, &back, &bl);
        VH_ASSERT("decoding the encoding gives the code point back", ok && back == uc && bl == l);
        VH_COVER("a code point");
    }
    else { VH_COVER("not a code point"); }
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    if (p == 0)
    {
#ifdef VH_PROOF
        enc(nondet_int());
#else
        static bool done;
        if (!done) for (int uc = -3; uc < 0x110003; uc++) enc(uc);
        if (!done) { enc(-2147483647-1); enc(2147483647); }
        done = true;
#endif
    }
    else
    {
        VH_ASSUME(n > 0);
        int uc = -1; size_t l = 77;
        bool ok = decode_utf8(in, in + n, &uc, &l);
        unsigned char b0 = in[0];
        size_t k = num_utf8_bytes(in[0]);
        VH_ASSERT("length from the first byte", k == (b0 < 0x80 ? 1 : b0 >= 0xc0 && b0 < 0xe0 ? 2 : b0 >= 0xe0 && b0 < 0xf0 ? 3 : b0 >= 0xf0 && b0 < 0xf8 ? 4 : 0));
        VH_ASSERT("length within the text", l >= 1 && l <= n && l <= 4);
        bool want = k > 0 && n >= k && (k < 2 || (in[1] & 0xc0) == 0x80) && (k < 3 || (in[2] & 0xc0) == 0x80) && (k < 4 || (in[3] & 0xc0) == 0x80);
        VH_ASSERT("accepts exactly a lead byte with all its continuation bytes", ok == want);
        if (ok)
        {
            VH_ASSERT("decoded length", l == k);
            unsigned char b[4] = { 0, 0, 0, 0 };
            int v = k == 1 ? b0 : k == 2 ? b0 % 32 * 64 + (unsigned char)in[1] % 64 : k == 3 ? b0 % 16 * 4096 + (unsigned char)in[1] % 64 * 64 + (unsigned char)in[2] % 64
                    : b0 % 8 * 262144 + (unsigned char)in[1] % 64 * 4096 + (unsigned char)in[2] % 64 * 64 + (unsigned char)in[3] % 64;
            VH_ASSERT("decoded value", uc == v);
            VH_COVER("decoded");
        }
        else { VH_ASSERT("malformed byte is skipped alone", l == 1); VH_COVER("malformed"); }
    }
}
