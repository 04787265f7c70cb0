/*@unit
@title documents survive print + parse (names, nesting, attributes, prefixes, entities, comments, PIs, mixed content); printing is idempotent
@noproof
@end*/
#define VH_TOKENS "<e", "<g:f", "<h", ">", "a1", "bp:q", "c", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9", "&0", "&1", "#0", "#1", "#2", "#3", "?0", "?1", "n0", "n1"
#define VH_NOISE 4000
#define VH_EXLEN 4
#define VH_RNDLEN 30
#define VH_NO_G
#define VH_P 3
#include "vh.h"
#include "vapi.h"
static const char *TXT[10] = { "x", "x/", "=y", "two words", "''", "l1\nl2", "123;", "'q'", " ", "\xc3\xa5=" };
static const char *CMT[4] = { "note", "two\nlines", "a*/b", "/" };
#include "vtree.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    XMQDoc *d = v_build(in, n);
    xmlDocPtr x = v_xml(d);
    VPrint o = {0};
    o.compact = p == 1; o.indent = p == 2 ? 2 : 4; if (p == 2) o.esc_non7 = true;
    size_t len, len2;
    char *s = v_print(d, o, &len);
    XMQDoc *b = v_parse(s, len, 0);
    if (!b) fprintf(stderr, "printed: [%.*s]\n", (int)len, s);
    VH_ASSERT("printed document parses", b != NULL);
    const char *df = v_diff(x->children, v_xml(b)->children);
    if (df) { fprintf(stderr, "%s printed: [%.*s]\n", df, (int)len, s); }
    VH_ASSERT("document kept", !df);
    if (o.compact) { size_t k = len; while (k && s[k-1] == '\n') k--; VH_ASSERT("compact output is a single line", !memchr(s, '\n', k)); }
    char *s2 = v_print(b, o, &len2);
    XMQDoc *b2 = v_parse(s2, len2, 0);
    VH_ASSERT("reprinted document parses", b2 != NULL);
    size_t len3; char *s3 = v_print(b2, o, &len3);
    if (len3 != len2 || memcmp(s3, s2, len2)) fprintf(stderr, "second: [%.*s] third: [%.*s]\n", (int)len2, s2, (int)len3, s3);
    VH_ASSERT("formatting formatted text changes nothing", len3 == len2 && !memcmp(s3, s2, len2));
    free(s3); xmqFreeDoc(b2);
    free(s); free(s2);
    xmqFreeDoc(b); xmqFreeDoc(d);
    VH_COVER("round trip");
}
