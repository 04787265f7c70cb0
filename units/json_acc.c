/*@unit
@title a text is accepted as JSON exactly when an independent reader of the standard (with the three documented extensions) accepts it; a number, true, false or null is printed as it was spelled, a string with the characters it denotes
@noproof
@end*/
#define VH_TOKENS "{", "}", "[", "]", ",", ":", "\"a\"", "\"a\":", "1", "-", "0", ".5", "e3", "true", "false", "null", " ", "\n", "\"", "\\", "\xc2\xa0", "x", "{\"k\":", "[1,", "E+", "nul", "truex", "\"b\":{", "}}", "]]", "-0", "01", "\t", "\r", "\xe2\x80\x82", "/", "//"
#define VH_EXLEN 4
#define VH_RNDLEN 10
#define VH_NO_G
#define VH_P 1
#define VH_TAIL 0
#include "vh.h"
#include "vapi.h"
#include "vjson.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    for (size_t i = 0; i < n; i++) VH_ASSUME(in[i] != 0);
    /* single values other than strings and numbers, and texts that begin otherwise, are not taken for JSON */
    VH_ASSUME(xmqDetectContentType(in, in + n) == XMQ_CONTENT_JSON);
    XMQDoc *d = xmqNewDoc();
    bool ok = xmqParseBufferWithType(d, in, in + n, NULL, XMQ_CONTENT_JSON, 0);
    char *w = vj_canon2(in, n, 1);
    VH_ASSERT("accepted exactly when it is JSON", ok == (w != NULL));
    free(w);
    xmqFreeDoc(d);
    VH_COVER(ok ? "accepted" : "rejected");
}
