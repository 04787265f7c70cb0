/*@unit
@title the number getters read the whole content of the first match as hexadecimal behind 0x, as octal behind 0, else as decimal; no match is zero
@noexec
@unwind 2
@trust libxml2 xpath evaluation gives any node set or none; strtol, atoi, atol and atof read numbers as the C standard says
@end*/
#define VH_MINN 3
#define VH_TAIL 1
#define VH_P 5
#include "vh.h"
#include "vspec.h"
#include <libxml/tree.h>
#include <libxml/xpath.h>
#include "xmq.h"
struct XMQNode { xmlNodePtr node; };
XMQProceed catch_single_content(XMQDoc *doc, XMQNode *node, void *user_data);
static int used_, base_; static const char *arg_; static long val_;
static struct _xmlNode nd_, ch_; static xmlNodePtr tab_[1]; static xmlNodeSet set_; static xmlXPathObject ob_; static xmlXPathContext cx_;
static int made_, freed_; static bool evaluates_, hasset_; static xmlNodePtr ctxnode_;
xmlXPathContextPtr xmlXPathNewContext(xmlDocPtr d) { made_++; return &cx_; }
xmlXPathObjectPtr xmlXPathEvalExpression(const xmlChar *s, xmlXPathContextPtr c) { VH_ASSERT("in the context made", c == &cx_); if (!evaluates_) return NULL; made_++; ob_.nodesetval = hasset_ ? &set_ : NULL; return &ob_; }
int xmlXPathSetContextNode(xmlNodePtr n, xmlXPathContextPtr c) { ctxnode_ = n; return 0; }
void xmlXPathFreeObject(xmlXPathObjectPtr o) { freed_++; }
void xmlXPathFreeContext(xmlXPathContextPtr c) { freed_++; }
void *xmqGetImplementationDoc(XMQDoc *doq);
long strtol(const char *s, char **e, int b) { VH_ASSERT("no end asked for", e == 0); used_++; base_ = b; arg_ = s; return val_; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { used_++; base_ = 10; arg_ = s; return (int)val_; }
long atol(const char *s) { used_++; base_ = 10; arg_ = s; return val_; }
double atof(const char *s) { used_++; base_ = 1; arg_ = s; return (double)val_; }
double strtod(const char *s, char **e) { return atof(s); }
long nondet_long(void);
struct XMQDoc { union { xmlDocPtr xml; } docptr_; char rest[256]; };
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    struct XMQDoc dd; XMQDoc *d = (XMQDoc*)&dd; memset(&dd, 0, sizeof(dd));
    used_ = base_ = made_ = freed_ = 0; arg_ = 0; ctxnode_ = 0; val_ = nondet_long();
    memset(&nd_, 0, sizeof(nd_)); memset(&ch_, 0, sizeof(ch_));
    bool has = nondet_bool(), ns = nondet_bool(), rel = nondet_bool();
    evaluates_ = nondet_bool(); hasset_ = nondet_bool();
    ch_.content = (xmlChar*)in;
    nd_.type = ns ? XML_NAMESPACE_DECL : XML_ELEMENT_NODE;
    nd_.children = has ? &ch_ : NULL;
    tab_[0] = &nd_; set_.nodeTab = tab_;
    int size = nondet_int(); VH_ASSUME(size >= 0);
    set_.nodeNr = size;
    bool found = evaluates_ && hasset_ && size > 0 && has && !ns;
    int want = in[0] != '0' ? 10 : in[1] == 'x' ? 16 : 8;
    struct _xmlNode rn; memset(&rn, 0, sizeof(rn)); XMQNode xn; xn.node = &rn;
    XMQNode *rp = rel ? &xn : NULL;
    if (p == 0)
    {
        int32_t r = xmqGetIntRel(d, "x", rp);
        VH_ASSERT("32 bit value", found ? used_ == 1 && arg_ == in && base_ == want && r == (int32_t)val_ : used_ == 0 && r == 0);
        if (found) VH_COVER("int");
    }
    else if (p == 1)
    {
        int64_t r = xmqGetLongRel(d, "x", rp);
        VH_ASSERT("64 bit value", found ? used_ == 1 && arg_ == in && base_ == want && r == val_ : used_ == 0 && r == 0);
        if (found) VH_COVER("long");
    }
    else if (p == 2)
    {
        double r = xmqGetDoubleRel(d, "x", rp);
        VH_ASSERT("double value", found ? used_ == 1 && arg_ == in && base_ == 1 && r == (double)val_ : used_ == 0 && r == 0);
        if (found) VH_COVER("double");
    }
    else if (p == 3)
    {
        VH_ASSERT("string", xmqGetStringRel(d, "x", rp) == (found ? in : NULL));
        if (found) VH_COVER("string");
    }
    else
    {
        xn.node = nondet_bool() ? &nd_ : NULL;
        VH_ASSERT("content of the first child", xmqGetContent(&xn) == (has && !ns && xn.node ? in : NULL));
        VH_COVER("content");
    }
    VH_ASSERT("relative to the node given", p == 4 || ctxnode_ == (rel ? &rn : NULL));
    VH_ASSERT("what was made is freed", made_ == freed_);
    VH_COVER("done");
}
