/*@unit
@title xmqForeachRel calls the callback for every node found, in order and once, until it says stop, and counts the matches
@noexec
@func xmqForeachRel
@loop __CPROVER_assigns(i, VN1, VN2, VP1)
 __CPROVER_loop_invariant(0 <= i && i <= size && VN1 == (size_t)i && VN2 == 0)
 __CPROVER_decreases(size - i)
@trust libxml2 xpath evaluation gives any node set or none
@end*/
#define VH_MINN 8
#include "vh.h"
#include "vspec.h"
#include <libxml/tree.h>
#include <libxml/xpath.h>
#include "xmq.h"
struct XMQNode { xmlNodePtr node; };
static xmlNodeSet set_; static xmlXPathObject ob_; static xmlXPathContext cx_;
static xmlNodePtr *tab_; static int size_;
xmlXPathContextPtr xmlXPathNewContext(xmlDocPtr d) { return &cx_; }
xmlXPathObjectPtr xmlXPathEvalExpression(const xmlChar *s, xmlXPathContextPtr c) { ob_.nodesetval = &set_; return &ob_; }
int xmlXPathSetContextNode(xmlNodePtr n, xmlXPathContextPtr c) { return 0; }
void xmlXPathFreeObject(xmlXPathObjectPtr o) { }
void xmlXPathFreeContext(xmlXPathContextPtr c) { }
struct XMQDoc { union { xmlDocPtr xml; } docptr_; char rest[256]; };
static XMQDoc *doc_;
static XMQProceed cb(XMQDoc *d, XMQNode *n, void *ud)
{
    VH_ASSERT("the document and the user data are passed on", d == doc_ && ud == (void*)tab_);
    VH_ASSERT("not called after stop", VN2 == 0 && VN1 < (size_t)size_);
    VH_ASSERT("the next node", n->node == tab_[VN1]);
    VN1++;
    if (nondet_bool()) { VN2 = 1; return XMQ_STOP; }
    return XMQ_CONTINUE;
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    struct XMQDoc dd; memset(&dd, 0, sizeof(dd)); doc_ = (XMQDoc*)&dd;
    VH_ASSUME(n / 8 < 0x7fffffff);
    tab_ = (xmlNodePtr*)in; size_ = (int)(n / 8); VN1 = 0; VN2 = 0;
    set_.nodeTab = tab_; set_.nodeNr = size_;
    int r = xmqForeachRel(doc_, "x", cb, (void*)tab_, NULL);
    VH_ASSERT("the number of matches", r == size_);
    VH_ASSERT("called for each node unless stopped", VN1 == (size_t)size_ || VN2 == 1);
    if (VN2) VH_COVER("stopped"); else VH_COVER("all");
}
