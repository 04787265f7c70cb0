/*@unit
@title parse_json looks at the next char behind whitespace and reads a string, true, false, null, a number, an object or an array exactly when that is what begins there, hands on the key, and fails on anything else; the literal eaters consume exactly their literal; the index suffix of a key is cut exactly when the key ends in [digits] behind something
@func trim_index_suffix
@loop __CPROVER_assigns(i)
 __CPROVER_loop_invariant(VIN(i, key_start, key_stop) && OFF(i) + 2 <= OFF(key_stop))
 __CPROVER_loop_invariant(!(VLT(i, VG) && OFF(VG) + 2 <= OFF(key_stop)) || VDIGIT(*VG))
 __CPROVER_decreases(OFF(i) - OFF(key_start))
 @body VREBASE(i, key_start);
 @after VREBASE(i, key_start); VP3 = i;
@stub parse_json_quote parse_json_number parse_json_object parse_json_array eat_xml_whitespace is_jnumber parse_json_boolean parse_json_null
@split 3
@noexec
@unwind 8
@trust the stubs behave as their own contracts say (units json_rd, json_num, json_gram, xml_ws)
@end*/
#define VH_MINN 0
#define VH_P 3
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
void parse_json(XMQParseState *state, const char *key_start, const char *key_stop);
void eat_json_boolean(XMQParseState *state); void eat_json_null(XMQParseState *state);
void trim_index_suffix(const char *key_start, const char **stop);
static int kind_, nws_; static const char *vend_; static char key_[3]; static bool num_;
static bool lit(const char *i, const char *e, const char *w, size_t n) { if ((size_t)(e - i) < n) return false; for (size_t k = 0; k < n; k++) if (i[k] != w[k]) return false; return true; }
void eat_xml_whitespace(XMQParseState *s, const char **a, const char **b)
{
    VH_ASSERT("whitespace before and behind the value", nws_ == (kind_ ? 1 : 0) && (!kind_ || s->i == vend_)); nws_++;
    size_t k = nondet_size_t(); VH_ASSUME(k <= (size_t)(s->buffer_stop - s->i));
    s->i += k; s->line = nondet_size_t(); s->col = nondet_size_t();
    vend_ = s->i;
}
static void value(XMQParseState *s, const char *a, const char *b, int kind)
{
    VH_ASSERT("one value, behind the whitespace, with its key", kind_ == 0 && nws_ == 1 && s->i == vend_ && a == key_ && b == key_ + 3);
    kind_ = kind;
    size_t k = nondet_size_t(); VH_ASSUME(k >= 1 && k <= (size_t)(s->buffer_stop - s->i));
    VP3 = s->i; s->i += k; vend_ = s->i;
}
void parse_json_quote(XMQParseState *s, const char *a, const char *b) { VH_ASSERT("a string", s->i < s->buffer_stop && *s->i == '"'); value(s, a, b, 1); }
void parse_json_boolean(XMQParseState *s, const char *a, const char *b) { VH_ASSERT("true or false", lit(s->i, s->buffer_stop, "true", 4) || lit(s->i, s->buffer_stop, "false", 5)); value(s, a, b, 2); }
void parse_json_null(XMQParseState *s, const char *a, const char *b) { VH_ASSERT("null", lit(s->i, s->buffer_stop, "null", 4)); value(s, a, b, 3); }
void parse_json_number(XMQParseState *s, const char *a, const char *b) { VH_ASSERT("a number", num_); value(s, a, b, 4); }
void parse_json_object(XMQParseState *s, const char *a, const char *b) { VH_ASSERT("an object", s->i < s->buffer_stop && *s->i == '{'); value(s, a, b, 5); }
void parse_json_array(XMQParseState *s, const char *a, const char *b) { VH_ASSERT("an array", s->i < s->buffer_stop && *s->i == '['); value(s, a, b, 6); }
/* a number begins with a digit or a minus (json_num) */
const char *is_jnumber(const char *a, const char *b)
{
    VH_ASSERT("asked of the place behind the whitespace", a == vend_);
    num_ = nondet_bool();
    if (num_) VH_ASSUME(a < b && (VDIGIT(*a) || *a == '-'));
    return num_ ? a + 1 : NULL;
}
static int verr(XMQParseState *s)
{
    const char *i = s->i, *e = s->buffer_stop;
    if (kind_ != 0 || nws_ != 1 || i != vend_ || s->error_nr != XMQ_ERROR_JSON_INVALID_CHAR) return 0;
    if (i == e) return 1;
    return *i != '"' && *i != '{' && *i != '[' && !num_ && !lit(i, e, "true", 4) && !lit(i, e, "false", 5) && !lit(i, e, "null", 4);
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    size_t at = g; VH_ASSUME(at <= n);
    const char *e = in + n;
    v_state(in, at, n, 3, 5);
    kind_ = nws_ = 0; num_ = false; vend_ = in + at;
    if (p == 0)
    {
        parse_json(&vst, key_, key_ + 3);
        VH_ASSERT("a value was read, and the whitespace behind it", kind_ >= 1 && nws_ == 2);
        VH_COVER("value");
        if (kind_ == 3) VH_COVER("null");
    }
    else if (p == 1)
    {
        if (lit(in + at, e, "null", 4) && nondet_bool()) { eat_json_null(&vst); VH_ASSERT("null is eaten", vst.i == in + at + 4 && vst.line == 3 && vst.col == 9); VH_COVER("null eaten"); }
        else if (lit(in + at, e, "true", 4)) { eat_json_boolean(&vst); VH_ASSERT("true is eaten", vst.i == in + at + 4 && vst.line == 3 && vst.col == 9); VH_COVER("true eaten"); }
        else if (lit(in + at, e, "false", 5)) { eat_json_boolean(&vst); VH_ASSERT("false is eaten", vst.i == in + at + 5 && vst.line == 3 && vst.col == 10); VH_COVER("false eaten"); }
    }
    else
    {
        size_t w = nondet_size_t(); VH_ASSUME(w < n || n == 0);
        VG = in + (n ? w : 0); VP3 = in;
        const char *t = e, *s = in + at;
        bool none = nondet_bool();
        trim_index_suffix(none ? NULL : s, &t);
        VH_ASSERT("no key, no change", !none || t == e);
        if (!none)
        {
            VH_ASSERT("a suffix is cut or not", t == e || (s < t && t < e && *t == '[' && e[-1] == ']'));
            VH_ASSERT("a suffix is digits", t == e || !(t < VG && VG < e - 1) || VDIGIT(*VG));
            if (e - s >= 2 && e[-1] == ']')
            {
                VH_ASSERT("scanned back over all digits", s <= VP3 && VP3 < e - 1 && (VP3 == s || !VDIGIT(*VP3)) && (!(VP3 < VG && VG < e - 1) || VDIGIT(*VG)));
                VH_ASSERT("cut exactly when a bracket is found there", (t != e) == (VP3 > s && *VP3 == '['));
            }
            if (t < e) VH_COVER("cut");
            if (t == e && e > s && e[-1] == ']') VH_COVER("not cut");
        }
    }
}
