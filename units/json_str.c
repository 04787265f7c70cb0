/*@unit
@title reading a JSON string gives the characters it denotes or fails as an independent reader says; writing a text as JSON string gives a string that denotes the text
@noproof
@end*/
#define VH_TOKENS "a", "\"", "\\", "\\n", "\\\"", "\\u", "00e5", "d83d", "\\ude00", "dbff", "\\udfff", "0000", "001f", "\\t", "/", "\\/", "\xc3\xa5", "\xf0\x9f\x98\x80", "\n", "\x01", "\x7f", "b", "f", "\\r", "\\b", "\\f", "FFFF", "fffe", "dc00", "\\x", "\b", "\r", "\f", "\v", "\t"
#define VH_EXLEN 4
#define VH_RNDLEN 12
#define VH_NO_G
#define VH_P 2
#define VH_TAIL 1
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
#include "vjson.h"
void eat_json_quote(XMQParseState *state, char **content_start, char **content_stop);
char *xmq_quote_as_json(const char *start, const char *stop, bool add_quotes);
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    for (size_t i = 0; i < n; i++) VH_ASSUME(in[i] != 0);
    if (p == 0)
    {
        char *q = malloc(n + 1); q[0] = '"'; memcpy(q + 1, in, n);     /* the string may end anywhere: nothing behind it may be read */
        VJ j = { q, q + n + 1 }; j.lenient = 1;
        vj_str(&j);
        char *a = 0, *b = 0;
        v_state(q, 0, n + 1, 3, 5);
        bool ok = false;
        if (VTRY) { eat_json_quote(&vst, &a, &b); ok = true; }
        VH_ASSERT("a string is read exactly when it is one", ok == !j.bad);
        if (ok)
        {
            VH_ASSERT("the characters denoted", (size_t)(b - a) == j.n - 2 && !memcmp(a, j.o + 1, b - a) && *b == 0);
            VH_ASSERT("stops behind the quote", vst.i == j.i);
            free(a);
        }
        free(j.o); free(q);
    }
    else
    {
        for (int quotes = 0; quotes < 2; quotes++)
        {
            char *o = xmq_quote_as_json(in, in + n, quotes);
            char *t = malloc(strlen(o) + 3);
            sprintf(t, quotes ? "%s" : "\"%s\"", o);
            char *w = vj_canon(t, strlen(t));
            VH_ASSERT("a JSON string", w != NULL);
            VH_ASSERT("that denotes the text", w[0] == 1 && !strncmp(w + 1, in, n) && strlen(w) == n + 2);
            free(w); free(t); free(o);
        }
    }
    VH_COVER("string");
}
