/*@unit
@title the tokenizer reports tokens without gap or overlap from the first byte on, each well formed for its kind, with line and column of its first character, in the order of the grammar
@noproof
@end*/
#define VH_TOKENS "a", "=", "'", "(", ")", "{", "}", "/", "*", " ", "\n", "&", ";", "#", "//", "/*", "*/", "'''", "b:c", "!DOCTYPE", "?p", "\xc3\xa5", "&#10;", "&x;", "x=y", "xmlns", "a(", "a{", "b=1 ", "=(", "xmlns:b=", "'x\n y'", "///*", "*///", "''", "'\xe2\x82\xac'", "\t", "//c\n", "/*\n\xc3\xa5*/", "k(a=1 b)", "\xc2\xa0", "\r"
#define VH_EXLEN 3
#define VH_RNDLEN 24
#define VH_NO_G
#define VH_NOISE 200
#define VH_P 1
#include "vh.h"
#include "vspec.h"
#include "vapi.h"
#include "parts/xmq_internals.h"
#include "vpos.h"
#undef X
static const char *names_[] = {
#define X(T) #T,
LIST_OF_XMQ_TOKENS
#undef X
};
enum {
#define X(T) T_##T,
LIST_OF_XMQ_TOKENS
#undef X
T_N };
static const char *base_, *end_, *at_; static size_t line_, col_;
static int depth_; static char br_[4096]; static int last_; static size_t count_;
static bool ws(const char *a, const char *b) { for (; a < b; ) { size_t k = v_wslen(a, b); if (!k) return false; a += k; } return true; }
static bool nm(const char *a, const char *b) { for (; a < b; a++) if (!VNAME(*a)) return false; return true; }
static bool is(const char *a, const char *b, const char *s) { return (size_t)(b - a) == strlen(s) && !memcmp(a, s, b - a); }
static bool quote_ok(const char *a, const char *b)
{
    size_t k = 0, n = b - a;
    while (k < n && a[k] == '\'') k++;
    if (k == n) return k == 2;
    if (k == 0 || k == 2 || n < 2 * k + 1) return false;
    size_t run = 0;
    for (size_t i = k; i < n; i++)
    {
        run = a[i] == '\'' ? run + 1 : 0;
        if (run > k || (run == k && i + 1 != n)) return false;
    }
    return run == k;
}
static size_t last_slashes_;
static bool comment_ok(const char *a, const char *b, bool cont)
{
    size_t n = b - a, k = 0;
    if (!cont) { while (k < n && a[k] == '/') k++; last_slashes_ = k; if (k == 0) return false; }
    if (k == n || a[k] != '*') { if (cont || k < 2) return false; for (size_t i = 0; i < n; i++) if (a[i] == '\n' && i + 1 != n) return false; return a[n-1] == '\n' || b == end_; }
    size_t run = 0; bool star = false;
    for (size_t i = k + 1; i < n; i++)
    {
        if (star && a[i] == '/') { run++; if (run == last_slashes_) return i + 1 == n; }
        else { run = 0; star = a[i] == '*'; }
    }
    return false;
}
static void token(int t, XMQParseState *st, size_t line, size_t col, const char *a, const char *b, const char *suf)
{
    count_++;
    VH_ASSERT("token within the input", base_ <= a && a <= b && b <= end_);
    if (a != at_) fprintf(stderr, "%s at %d, end of the last was %d\n", names_[t], (int)(a - base_), (int)(at_ - base_));
    VH_ASSERT("no gap, no overlap", a == at_);
    if (line != line_ || col != col_) fprintf(stderr, "%s %zu:%zu want %zu:%zu\n", names_[t], line, col, line_, col_);
    VH_ASSERT("line and column of its first character", line == line_ && col == col_);
    at_ = b; v_pos(a, b, &line_, &col_);
    bool ok = true;
    size_t n = b - a;
    const char *nx = at_;
    switch (t)
    {
    case T_whitespace: ok = n > 0 && ws(a, b) && last_ != T_whitespace && !memchr(a, '\t', n); break;
    case T_equals: ok = is(a, b, "="); break;
    case T_brace_left: ok = is(a, b, "{"); br_[depth_++] = '{'; break;
    case T_brace_right: ok = is(a, b, "}") && depth_ && br_[--depth_] == '{'; break;
    case T_apar_left: ok = is(a, b, "("); br_[depth_++] = '('; break;
    case T_apar_right: ok = is(a, b, ")") && depth_ && br_[--depth_] == '('; break;
    case T_cpar_left: ok = is(a, b, "("); br_[depth_++] = 'c'; break;
    case T_cpar_right: ok = is(a, b, ")") && depth_ && br_[--depth_] == 'c'; break;
    case T_quote: case T_element_value_quote: case T_attr_value_quote: ok = quote_ok(a, b); break;
    case T_element_value_compound_quote: case T_attr_value_compound_quote: ok = quote_ok(a, b) && depth_ && br_[depth_-1] == 'c'; break;
    case T_entity: case T_element_value_entity: case T_attr_value_entity: ok = n > 0 && a[0] == '&'; break;
    case T_element_value_compound_entity: case T_attr_value_compound_entity: ok = n > 0 && a[0] == '&' && depth_ && br_[depth_-1] == 'c'; break;
    case T_comment: ok = comment_ok(a, b, false); break;
    case T_comment_continuation: ok = comment_ok(a, b, true) && (last_ == T_comment || last_ == T_comment_continuation); break;
    case T_element_ns: case T_attr_ns: ok = nm(a, b); break;
    case T_element_name: case T_element_key:
    {
        ok = n == 0 ? last_ == T_ns_colon : (nm(a, b) || ((a[0] == '!' || a[0] == '?') && nm(a + 1, b)));
        while (nx < end_ && VWS(*nx)) nx++;
        ok = ok && (t == T_element_key) == (nx < end_ && *nx == '=');
        break;
    }
    case T_attr_key: ok = nm(a, b) && depth_ && br_[depth_-1] == '('; break;
    case T_ns_declaration: ok = is(a, b, "xmlns"); break;
    case T_ns_colon: ok = is(a, b, ":") && (last_ == T_element_ns || last_ == T_attr_ns || last_ == T_ns_declaration); break;
    case T_element_value_text: case T_attr_value_text: for (const char *i = a; i < b; i++) ok = ok && v_safe(i, end_); ok = ok && (b == end_ || !v_safe(b, end_)); break;
    }
    if (!ok) fprintf(stderr, "%s [%.*s]\n", names_[t], (int)n, a);
    VH_ASSERT("token is well formed", ok);
    if (t == T_element_value_text || t == T_element_value_quote || t == T_element_value_entity || t == T_attr_value_text || t == T_attr_value_quote || t == T_attr_value_entity || t == T_cpar_left)
        VH_ASSERT("a value follows an equals sign", last_ == T_equals || last_ == T_whitespace);
    if (t == T_equals) VH_ASSERT("an equals sign follows a name or attributes", last_ == T_element_key || last_ == T_element_name || last_ == T_attr_key || last_ == T_ns_declaration || last_ == T_attr_ns || last_ == T_apar_right || last_ == T_whitespace);
    last_ = t;
}
#define X(T) static void cb_##T(XMQParseState *st, size_t l, size_t c, const char *a, const char *b, const char *s) { token(T_##T, st, l, c, a, b, s); }
LIST_OF_XMQ_TOKENS
#undef X
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    for (size_t i = 0; i < n; i++) VH_ASSUME(in[i] != 0);
    VH_ASSUME(xmqDetectContentType(in, in + n) == XMQ_CONTENT_XMQ);
    static XMQOutputSettings *os;
    if (!os) { os = xmqNewOutputSettings(); xmqSetupDefaultColors(os); }
    XMQParseCallbacks *cb = xmqNewParseCallbacks();
    xmqSetupParseCallbacksDebugTokens(cb);
    XMQParseState *st = xmqNewParseState(cb, os);
#define X(T) cb->handle_##T = cb_##T;
LIST_OF_XMQ_TOKENS
#undef X
    cb->init = 0; cb->done = 0;
    base_ = at_ = in; end_ = in + n; line_ = col_ = 1; depth_ = 0; last_ = -1; count_ = 0;
    bool ok = xmqTokenizeBuffer(st, in, in + n);
    if (ok)
    {
        VH_ASSERT("everything is reported", at_ == end_);
        VH_ASSERT("brackets are balanced", depth_ == 0);
        VH_COVER("tokenized");
    }
    else VH_ASSERT("an error is named", xmqStateErrno(st) != 0 && xmqStateErrorMsg(st) && *xmqStateErrorMsg(st));
    XMQDoc *d = xmqNewDoc();
    bool pk = xmqParseBufferWithType(d, in, in + n, NULL, XMQ_CONTENT_XMQ, 0);
    if (pk) VH_ASSERT("what parses can be tokenized", ok);
    xmqFreeDoc(d);
    xmqFreeParseState(st); xmqFreeParseCallbacks(cb);
}
