/*@unit
@title xmqDetectContentType reads only the given bytes and decides by the first char behind whitespace, and for markup by the words behind the comments
@noproof its five nested loops are instrumented twice each: undecided within the time of a check
@func xmqDetectContentType
@loop __CPROVER_assigns(i, VP1)
 __CPROVER_loop_invariant(VIN(i, start, stop) && VIN(VP1, start, i) && (OFF(i) == OFF(start) ? VP1 == start : OFF(VP1) + 1 == OFF(i)))
 __CPROVER_loop_invariant(!(VLE(start, VG) && VLT(VG, i)) || VWS(*VG))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start); VREBASE(VP1, start); VP1 = i;
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, start, stop) && VLE(VP1, i))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start);
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, start, stop) && VLE(VP1, i))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start);
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, start, stop) && VLE(VP1, i))
 __CPROVER_decreases(OFF(stop) - OFF(i))
 @body VREBASE(i, start);
 @after VREBASE(i, start);
@stub debug__ find_word_ignore_case
@unwind 7
@trust find_word_ignore_case as its own contract says (unit det_word)
@end*/
#define VH_TOKENS "<", "html", "HTML", "!doctype", "<!--", "-->", " ", "\n", "{", "[", "\"", "1", "true", "null", "false", "a", "-", ">", "?xml", "<html", "<!DOCTYPE", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xef\xbb", "t", "\r\n", "\t", "!", "/", "<!doctype html>"
#define VH_EXLEN 4
#define VH_RNDLEN 10
#define VH_P 4
#include "vh.h"
#include "vspec.h"
#ifndef VH_PROOF
#include "vapi.h"
#include <unistd.h>
#endif
#include <strings.h>
#include <ctype.h>
#include "xmq.h"
const char *find_word_ignore_case(const char *start, const char *stop, const char *word);
const char *skip_any_potential_bom(const char *start, const char *stop);
#ifdef VH_PROOF
void debug__(const char *fmt, ...) {}
static bool html_;
const char *find_word_ignore_case(const char *i, const char *e, const char *w)
{
    VH_ASSERT("looked for behind the first char and inside the input", e == VP2 && VP1 <= i && i <= e + 1);
    if (!nondet_bool()) return NULL;
    size_t n = w[0] == '<' ? 9 : 4;
    VH_ASSUME(i < e && (size_t)(e - i) >= n);
    size_t k = nondet_size_t(); VH_ASSUME(k >= n && k <= (size_t)(e - i));
    if (w[0] == 'h') html_ = true;
    return i + k;
}
#endif
static bool lit(const char *i, const char *e, const char *w, size_t n) { return (size_t)(e - i) >= n && (n < 1 || i[0] == w[0]) && (n < 2 || i[1] == w[1]) && (n < 3 || i[2] == w[2]) && (n < 4 || i[3] == w[3]) && (n < 5 || i[4] == w[4]); }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool word(const char *i, const char *e, const char *w, size_t n)
{
    if ((size_t)(e - i) < n) return false;
    for (size_t k = 0; k < n; k++) if (low(i[k]) != w[k]) return false;
    return (size_t)(e - i) == n || !(VALPHA(i[n]) || VDIGIT(i[n]));
}
static bool kw(const char *i, const char *e)
{
    size_t n = lit(i, e, "true", 4) || lit(i, e, "null", 4) ? 4 : lit(i, e, "false", 5) ? 5 : 0;
    return n && (i + n == e || (i + n + 1 == e && i[n] == '\n'));
}
#ifndef VH_PROOF
static const char *ws(const char *i, const char *e) { while (i < e && VWS(*i)) i++; return i; }
static XMQContentType want(const char *i, const char *e)
{
    i = ws(i, e);
    if (i == e) return XMQ_CONTENT_XMQ;
    if (*i == '{' || *i == '[' || *i == '"' || VDIGIT(*i) || kw(i, e)) return XMQ_CONTENT_JSON;
    if (*i != '<') return XMQ_CONTENT_XMQ;
    while (lit(i, e, "<!--", 4))
    {
        while (i < e && !lit(i, e, "-->", 3)) i++;
        if (i == e) return XMQ_CONTENT_XML;
        i = ws(i + 3, e);
    }
    if (i == e || *i != '<') return XMQ_CONTENT_XML;
    if (word(ws(i + 1, e), e, "html", 4)) return XMQ_CONTENT_HTML;
    if (word(i, e, "<!doctype", 9) && i + 9 < e && word(ws(i + 10, e), e, "html", 4)) return XMQ_CONTENT_HTML;
    return XMQ_CONTENT_XML;
}
#endif
#ifndef VH_PROOF
#include <libxml/xmlerror.h>
static void quiet(void *c, const char *m, ...) { }
/* the result of reading a buffer or a file of unknown type, as text */
static char *result(const char *s, size_t n, bool file, XMQContentType *t)
{
    XMQDoc *d = xmqNewDoc();
    bool ok;
    if (file)
    {
        char name[] = "/dev/shm/vh_det_XXXXXX";
        int fd = mkstemp(name);
        VH_ASSUME(fd >= 0);
        ssize_t w = write(fd, s, n); close(fd);
        VH_ASSUME(w == (ssize_t)n);
        ok = xmqParseFileWithType(d, name, NULL, XMQ_CONTENT_DETECT, XMQ_FLAG_TRIM_NONE);
        unlink(name);
    }
    else
    {
        char *b = v_dupz(s, n);
        ok = xmqParseBufferWithType(d, b, b + n, NULL, XMQ_CONTENT_DETECT, XMQ_FLAG_TRIM_NONE);
        free(b);
    }
    *t = xmqGetOriginalContentType(d);
    char *o;
    if (!ok) { o = malloc(40); snprintf(o, 40, "error %d", (int)xmqDocErrno(d)); }
    else { VPrint vp = { .compact = true }; size_t l; char *q = v_print(d, vp, &l); o = v_dupz(q ? q : "", q ? l : 0); free(q); }
    xmqFreeDoc(d);
    return o;
}
#endif
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g; VH_ASSUME(at <= n);
    const char *s = in + at, *e = in + n;
#ifdef VH_PROOF
    size_t w = nondet_size_t(); VH_ASSUME(w < n || n == 0);
    VG = in + (n ? w : 0); VP1 = s; VP2 = e; html_ = false;
#endif
    if (p == 0)
    {
        XMQContentType r = xmqDetectContentType(s, e);
#ifdef VH_PROOF
        const char *f = VP1;
        if (f == e || VWS(*f))
        {
            /* the loop ended: nothing but whitespace */
            VH_ASSERT("nothing but whitespace is XMQ", r == XMQ_CONTENT_XMQ);
        }
        else
        {
            VH_ASSERT("the first char behind whitespace decides", !(s <= VG && VG < f) || VWS(*VG));
            if (*f == '<') VH_ASSERT("markup is XML, or HTML when the word was found", r == (html_ ? XMQ_CONTENT_HTML : XMQ_CONTENT_XML));
            else if (*f == '{' || *f == '[' || *f == '"' || VDIGIT(*f) || kw(f, e)) VH_ASSERT("JSON begins like a JSON value", r == XMQ_CONTENT_JSON);
            else VH_ASSERT("all else is XMQ", r == XMQ_CONTENT_XMQ);
            if (r == XMQ_CONTENT_HTML) VH_COVER("html");
            if (r == XMQ_CONTENT_JSON) VH_COVER("json");
        }
#else
        VH_ASSERT("the type documented", r == want(s, e));
        VH_COVER("type");
#endif
    }
#ifndef VH_PROOF
    else if (p >= 2)
    {
        static int every; xmlSetGenericErrorFunc(NULL, quiet); if (p == 3 && every++ % 8) return;
        const unsigned char *u = (const unsigned char*)s; size_t l = e - s;
        for (size_t k = 0; k < l; k++) if (!s[k]) return;
        size_t skip = l >= 3 && u[0] == 0xef && u[1] == 0xbb && u[2] == 0xbf ? 3 : 0;
        bool utf16 = l >= 2 && ((u[0] == 0xff && u[1] == 0xfe) || (u[0] == 0xfe && u[1] == 0xff));
        XMQContentType t, t2;
        char *a = result(s, l, p == 3, &t);
        if (utf16)
        {
            char w[40]; snprintf(w, 40, "error %d", XMQ_ERROR_NOT_XMQ);
            VH_ASSERT("a UTF-16 mark is an error", !strcmp(a, w));
            VH_COVER("utf16");
        }
        else
        {
            VH_ASSERT("the type is that of the content behind the mark", t == want(s + skip, e));
            VH_COVER("read");
        }
        if (skip && skip_any_potential_bom(s + 3, e) == s + 3)
        {
            char *b = result(s + 3, l - 3, false, &t2);
            VH_ASSERT("the mark changes nothing", !strcmp(a, b) && t == t2);
            free(b);
            VH_COVER("skipped");
        }
        if (p == 3 && !skip)
        {
            char *b = result(s, l, false, &t2);
            VH_ASSERT("a file is read as a buffer is", !strcmp(a, b) && t == t2);
            free(b);
        }
        free(a);
    }
#endif
    else
    {
        const char *r = skip_any_potential_bom(s, e);
        const unsigned char *u = (const unsigned char*)s; size_t l = e - s;
        const char *x = l >= 3 && u[0] == 0xef && u[1] == 0xbb && u[2] == 0xbf ? s + 3 : l >= 2 && ((u[0] == 0xff && u[1] == 0xfe) || (u[0] == 0xfe && u[1] == 0xff)) ? NULL : s;
        VH_ASSERT("one mark is skipped, a UTF-16 mark refused", r == x);
        VH_COVER("mark");
    }
}
