/*@unit
@title a comment printed in XML is well formed and is read back with the same text
@noproof
@end*/
#define VH_TOKENS "-", "a", "\xe2\x90\x90", "\xe2\x90\x91", " ", "\n", ">", "<", "&"
#define VH_EXLEN 5
#define VH_RNDLEN 14
#define VH_NOISE 100000
#define VH_NO_G
#include "vh.h"
#include "vapi.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    VH_ASSUME(v_xmltext(in, n));
    char *t = v_dupz(in, n);
    xmlNodePtr r;
    XMQDoc *d = v_newdoc(&r);
    xmlAddChild(r, xmlNewComment((xmlChar*)t));
    VPrint o = {0}; o.format = XMQ_CONTENT_XML;
    size_t len;
    char *out = v_print(d, o, &len);
    char *z = v_dupz(out ? out : "", len);
    char *a = strstr(z, "<!--");
    VH_ASSERT("comment start", a);
    char *e = strstr(a + 4, "--");
    VH_ASSERT("the first double hyphen ends the comment", e && e[2] == '>' && !strcmp(e + 3, "</r>\n"));
    VH_ASSERT("no hyphen in front of the end", e == a + 4 || e[-1] != '-');
    XMQDoc *q = xmqNewDoc();
    bool ok = xmqParseBufferWithType(q, z, z + len, NULL, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE);
    VH_ASSERT("reads back", ok);
    xmlNodePtr c = xmlDocGetRootElement(v_xml(q))->children;
    VH_ASSERT("one comment", c && c->type == XML_COMMENT_NODE && !c->next);
    VH_ASSERT("same text", !strcmp((char*)c->content, t));
    xmqFreeDoc(q); xmqFreeDoc(d); free(z); free(out); free(t);
}
