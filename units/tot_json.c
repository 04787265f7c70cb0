/*@unit
@title parsing any bytes as JSON terminates without memory error; failure carries an error with position; success gives a printable document
@noproof
@end*/
#define VH_TOKENS "\"\\u123", "\"\\u12", "\"\\ud83d\\u", "\"\\ud83d\\ude0", "\"\\", "fals", "tru", "nul", "1e", "1.", "1e+", "{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"a\":", "\"_\":", "\"//\":", "\"_//\":", "\"|\":", "\"!DOCTYPE\":", "\"!\":", "\"?\":", "\"?x\":", "\"_a\":", "\"b[1]\":", "\"a:b\":", "\"xmlns:a\":", "\"_xmlns\":", "\"\":", "\"x y\":", "1", "-", "2.5e3", "true", "false", "null", " ", "\n", "\\", "\\n", "\\u00e5", "\\ud83d", "\\ude00", "\\u0001", "\xc3\xa5", "\xff", "a", "\t", "e", ".", "0", "\"html\"", "\"A\":", "\"S\":", "\"&\":"
#define VH_EXLEN 3
#define VH_RNDLEN 24
#define VH_NO_G
#define VH_P 3
#define VH_TAIL 0
#include "vh.h"
#include "vapi.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    XMQDoc *d = xmqNewDoc();
    static const XMQContentType ct[] = { XMQ_CONTENT_JSON, XMQ_CONTENT_JSON, XMQ_CONTENT_DETECT };
    for (size_t i = 0; i < n; i++) VH_ASSUME(in[i] != 0);
    bool ok = xmqParseBufferWithType(d, in, in + n, p == 1 ? "root" : NULL, ct[p], p == 1 ? XMQ_FLAG_NOMERGE : 0);
    if (!ok)
    {
        const char *e = xmqDocError(d);
        VH_ASSERT("a failed parse reports an error", (e && *e) || xmqDocErrno(d) != 0);
    }
    else
    {
        for (int f = 0; f < 4; f++)
        {
            static const int fmt[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XML, XMQ_CONTENT_JSON, XMQ_CONTENT_CLINES };
            VPrint o = {0}; o.format = fmt[f]; o.compact = n & 1;
            size_t len; char *s = v_print(d, o, &len);
            free(s);
        }
    }
    xmqFreeDoc(d);
    VH_COVER("parsed");
}
