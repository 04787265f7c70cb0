/*@unit
@title the character classes of XMQ names and whitespace, for every byte
@func is_xmq_text_name
@func is_xmq_element_start
@func is_xmq_token_whitespace
@func is_xml_whitespace
@func is_lowercase_hex
@func to_hex
@func is_hex
@end*/
#define VH_MINN 1
#define VH_MAXN 1
#define VH_ALPHABET "a"
#define VH_EXLEN 1
#define VH_RNDLEN 1
#define VH_NOISE 1
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "text.h"
bool is_hex(char c);
static void one(char c)
{
    bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9';
    VH_ASSERT("name char", is_xmq_text_name(c) == (up || lo || di || c == '-' || c == '_' || c == '.' || c == ':' || c == '#'));
    VH_ASSERT("name start", is_xmq_element_start(c) == (up || lo || c == '_'));
    VH_ASSERT("token whitespace", is_xmq_token_whitespace(c) == (c == ' ' || c == '\n' || c == '\r'));
    VH_ASSERT("xml whitespace", is_xml_whitespace(c) == (c == ' ' || c == '\n' || c == '\r' || c == '\t'));
    VH_ASSERT("lowercase hex", is_lowercase_hex(c) == (di || (c >= 'a' && c <= 'f')));
    VH_ASSERT("hex", is_hex(c) == (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')));
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
#ifdef VH_PROOF
    one(in[0]);
    int d = nondet_int();
    VH_ASSUME(d >= 0 && d < 16);
    VH_ASSERT("hex digit", to_hex(d) == (d < 10 ? '0' + d : 'A' + d - 10));
    VH_COVER("all bytes");
#else
    for (int c = -128; c < 128; c++) one((char)c);
    for (int d = 0; d < 16; d++) VH_ASSERT("hex digit", to_hex(d) == "0123456789ABCDEF"[d]);
#endif
}
