/*@unit
@title a JSON value survives JSON -> document -> JSON, and JSON -> document -> XMQ text -> document -> JSON; the output is always valid JSON
@noproof
@end*/
/* the input bytes are the choices of a generator of JSON values */
#define VH_TOKENS "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p"
#define VH_NOISE 8
#define VH_EXLEN 4
#define VH_RNDLEN 40
#define VH_NO_G
#define VH_P 4
#include "vh.h"
#include "vapi.h"
#include "vjson.h"
static const char *vin; static size_t vleft;
static char T[65536]; static size_t tn; static bool ctl;
static unsigned nx(void) { if (!vleft) return 0; vleft--; return (unsigned char)*vin++; }
static void put(const char *s) { size_t k = strlen(s); if (tn + k < sizeof T) { memcpy(T + tn, s, k); tn += k; } }
static void str(bool key)
{
    static const char *pool[] = { "a", "b", " ", "\\n", "\\u00e5", "\xc3\xa5", "\\\"", "\\\\", "/", "\\/", "'", "\\ud83d\\ude00", "\\u0007", "true", "1", "{", "}", "[", ":", ",",
        "\\t", "<", "&", "&amp;", "=", "\\r", "null", "-", "e5", "(", "//", "\xe2\x82\xac", "_", ".", "0", "\\u007f", "\\u00A0", "''", "\\u001f", "#", ";", "*" };
    unsigned n = nx() % 5;
    for (unsigned k = 0; k < n; k++)
    {
        unsigned c = nx() % (sizeof pool / sizeof *pool);
        if (key && k == 0 && strchr("_|/&!?", pool[c][0])) c = 0;
        if (key && (pool[c][0] == '[' || pool[c][0] == ':')) c = 0;
        if (!strcmp(pool[c], "\\u0007") || !strcmp(pool[c], "\\u001f")) ctl = true;
        put(pool[c]);
    }
}
static void val(int depth)
{
    static const char *num[] = { "0", "1", "-0", "12", "-1.5", "2e5", "1E+10", "0.0001", "-0e-3", "123456789012345678901234567890" };
    unsigned c = nx();
    switch (depth > 4 ? c % 6 : c % 10)
    {
    case 0: put("null"); break;
    case 1: put("true"); break;
    case 2: put("false"); break;
    case 3: put(num[nx() % 10]); break;
    case 4: case 5: put("\""); str(false); put("\""); break;
    case 6: case 7:
    {
        put("[");
        unsigned n = nx() % 4;
        for (unsigned k = 0; k < n; k++) { if (k) put(", "); val(depth + 1); }
        put("]");
        break;
    }
    default:
    {
        put("{");
        unsigned n = nx() % 4;
        for (unsigned k = 0; k < n; k++)
        {
            char buf[16];
            if (k) put(",\n ");
            put("\"");
            str(true);
            sprintf(buf, "%c", 'p' + k);      /* keys of an object are distinct */
            put(buf);
            put("\": ");
            val(depth + 1);
        }
        put("}");
    }
    }
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    vin = in; vleft = n; tn = 0; ctl = false;
    val(0);
    char *t = v_dup(T, tn);
    char *want = vj_canon(t, tn);
    VH_ASSERT("generator gives JSON", want != NULL);
    XMQDoc *d = xmqNewDoc();
    bool ok = xmqParseBufferWithType(d, t, t + tn, NULL, XMQ_CONTENT_JSON, 0);
    if (!ok && *want != '{' && *want != '[' && *want != '\1' && !(*want >= '0' && *want <= '9'))
    {
        /* other single values are not detected as JSON */
        xmqFreeDoc(d); free(t); free(want);
        VH_ASSUME(false);
    }
    if (!ok) fprintf(stderr, "json [%.*s]: %s\n", (int)tn, t, xmqDocError(d));
    VH_ASSERT("valid JSON is accepted", ok);
    size_t len;
    if (p >= 2)
    {
        bool r7 = false; /* spaces and tabs before a newline inside a multi line quote are not content (format rule) */
        for (const char *w = want; *w; w++) if ((*w == ' ' || *w == '\t') && strspn(w, " \t") < strlen(w) && w[strspn(w, " \t")] == '\n') r7 = true;
        if (ctl || (p == 2 && r7)) { xmqFreeDoc(d); free(t); free(want); VH_ASSUME(false); }
        VPrint o = {0}; o.indent = 4; o.compact = p == 3;
        char *x = v_print(d, o, &len);
        xmqFreeDoc(d);
        d = xmqNewDoc();
        ok = xmqParseBuffer(d, x, x + len, NULL, 0);
        if (!ok) fprintf(stderr, "json [%.*s] xmq [%.*s]: %s\n", (int)tn, t, (int)len, x, xmqDocError(d));
        VH_ASSERT("the XMQ form parses", ok);
        free(x);
    }
    VPrint o = {0}; o.format = XMQ_CONTENT_JSON; o.compact = p == 1;
    char *s = v_print(d, o, &len);
    char *got = vj_canon(s, len);
    if (!got || strcmp(got, want)) fprintf(stderr, "json [%.*s]\ngave [%.*s]\n", (int)tn, t, (int)len, s);
    VH_ASSERT("output is valid JSON", got != NULL);
    VH_ASSERT("output is the same JSON value", !strcmp(got, want));
    free(got); free(want); free(s); free(t);
    xmqFreeDoc(d);
    VH_COVER("round trip");
}
