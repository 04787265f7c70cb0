/*@unit
@title colouring the tokens of an input keeps the input: terminal, HTML and TeX token streams decode back to it
@noproof
@end*/
#define VH_TOKENS "a", "=", "{", "}", "(", ")", " ", "'x'", "'''a'b'''", "'\n  l1\n l2\n  '", "&#10;", "&amp;", "&nbsp;", "//c\n", "/*<&>*/", "b:c", "xmlns:b", "xmlns", "'http://x'", "'<&>\"'", "'\\{}_#$%^~'", "(&#9;'q')", "'\xc2\xa0z'", "'\xc3\xa5'", "x=y", "'\t'", "'  sp  '", "/*\ntwo\nlines*/", "xsl:t", "///* a */ ///", "'\\\\'", "\n", "'"
#define VH_NOISE 4000
#define VH_EXLEN 3
#define VH_RNDLEN 24
#define VH_NO_G
#define VH_P 3
#include "vh.h"
#include "vapi.h"
#include "vrend.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    VH_ASSUME(n > 0 && v_xmltext(in, n));
    XMQOutputSettings *os = xmqNewOutputSettings();
    char *start = NULL, *stop = NULL;
    int rf = p == 0 ? XMQ_RENDER_TERMINAL : p == 1 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX;
    xmqSetUseColor(os, true);
    xmqSetRenderFormat(os, rf);
    xmqSetRenderRaw(os, true);
    xmqSetupDefaultColors(os);
    xmqSetupPrintMemory(os, &start, &stop);
    XMQParseCallbacks *cb = xmqNewParseCallbacks();
    xmqSetupParseCallbacksColorizeTokens(cb, rf);
    XMQParseState *st = xmqNewParseState(cb, os);
    char *z = v_dup(in, n);
    bool ok = xmqTokenizeBuffer(st, z, z + n);
    free(z);
    VH_ASSUME(ok);
    size_t len = stop - start;
    while (len && start[len-1] == 0) len--;
    char *back = vr_plain(p, start, len, true, false, NULL, NULL);
    if (!back || strlen(back) != n || memcmp(back, in, n)) fprintf(stderr, "rendered: [%.*s]\nback: [%s]\n", (int)len, start, back);
    VH_ASSERT("only the renderer's own markup appears", back != NULL);
    VH_ASSERT("the tokens are the input", strlen(back) == n && !memcmp(back, in, n));
    free(back); free(start);
    xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os);
}
