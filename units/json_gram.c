/*@unit
@title JSON arrays and objects: parse_json_array and parse_json_object consume exactly '[' or '{', the values (behind their keys and ':') with commas between and at most one behind, and the closing bracket; they fail exactly when the next char is none of those expected; the element opened, its key and its closing are reported in order, and each key is freed
@split 2
@define VH_OWNFREE VH_CALLBACKS
@func parse_json_array
@loop __CPROVER_assigns(c, state->i, state->line, state->col, VI1, VP1)
 __CPROVER_loop_invariant(VIN(state->i, VP2, stop) && VIN(VP1, VP2, stop) && VLT(VP2, state->i) && VLT(VP2, VP1))
 __CPROVER_loop_invariant((VI1 == 0 && VP1 == state->i && c == ',') || (VI1 == 1 && (c == ',' ? OFF(VP1) + 1 == OFF(state->i) && *VP1 == ',' : VP1 == state->i && (VLT(VP1, stop) ? c == *VP1 : c == 0))))
 __CPROVER_decreases(OFF(stop) - OFF(VP1))
 @body VREBASE(state->i, VP2); VREBASE(VP1, VP2);
 @after VREBASE(state->i, VP2); VREBASE(VP1, VP2);
@func parse_json_object
@loop __CPROVER_assigns(c, state->i, state->line, state->col, state->error_nr, VI1, VP1, VN1, VN2)
 __CPROVER_loop_invariant(VIN(state->i, VP2, stop) && VIN(VP1, VP2, stop) && VLT(VP2, state->i) && VLT(VP2, VP1) && VN1 == VN2)
 __CPROVER_loop_invariant((VI1 == 0 && VP1 == state->i && c == ',') || (VI1 == 1 && (c == ',' ? OFF(VP1) + 1 == OFF(state->i) && *VP1 == ',' : VP1 == state->i && (VLT(VP1, stop) ? c == *VP1 : c == 0))))
 __CPROVER_decreases(OFF(stop) - OFF(VP1))
 @body VREBASE(state->i, VP2); VREBASE(VP1, VP2);
 @after VREBASE(state->i, VP2); VREBASE(VP1, VP2);
@stub parse_json eat_xml_whitespace eat_json_quote trim_index_suffix is_xmq_element_name
@noexec
@unwind 16
@groups 12
@timeout 250
@trust parse_json, eat_json_quote and eat_xml_whitespace behave as their own contracts say (units json_disp, json_rd, xml_ws)
@trust a handler called through its pointer is called with these arguments (the macros DO_CALLBACK and DO_CALLBACK_SIM are expanded to direct calls)
@end*/
#define VH_MINN 1
#define VH_P 2
#include "vh.h"
#include "vspec.h"
#include "vpos.h"
void parse_json_array(XMQParseState *state, const char *key_start, const char *key_stop);
void parse_json_object(XMQParseState *state, const char *key_start, const char *key_stop);
extern char underline[2], array[2];
static bool obj_; static char keybuf_[3], owner_[8]; static bool unsafe_, nokey_, hascolon_; static int cb_;
/* VI1: what was consumed last: 0 the opening bracket, 1 a value, 2 a comma, 3 a key, 4 a colon; VP1: its end; VN1, VN2 keys made and freed */
static void catch_up(XMQParseState *s)
{
    if (VP1 < s->i && VI1 == 1) { VH_ASSERT("a comma between values", *VP1 == ','); VI1 = 2; VP1 = VP1 + 1; }
    else if (VP1 < s->i && VI1 == 3) { VH_ASSERT("a colon behind the key", *VP1 == ':'); VI1 = 4; VP1 = VP1 + 1; }
    VH_ASSERT("nothing is skipped", VP1 == s->i);
}
void eat_xml_whitespace(XMQParseState *s, const char **a, const char **b)
{
    catch_up(s);
    size_t k = nondet_size_t(); VH_ASSUME(k <= (size_t)(s->buffer_stop - s->i));
    s->i += k; VP1 = s->i; s->line = nondet_size_t(); s->col = nondet_size_t();
}
void parse_json(XMQParseState *s, const char *ks, const char *kt)
{
    catch_up(s);
    if (obj_) { VH_ASSERT("a value behind its key", VI1 == 4); VH_ASSERT("under the key read", ks == owner_ && kt == owner_ + 4); }
    else { VH_ASSERT("a value at the beginning or behind a comma", VI1 == 0 || VI1 == 2); VH_ASSERT("without a key", ks == 0 && kt == 0); }
    VI1 = 1;
    size_t k = nondet_size_t(); VH_ASSUME(k >= 1 && k <= (size_t)(s->buffer_stop - s->i));
    s->i += k; VP1 = s->i; s->line = nondet_size_t(); s->col = nondet_size_t();
}
void eat_json_quote(XMQParseState *s, char **a, char **b)
{
    catch_up(s);
    VH_ASSERT("a key at the beginning or behind a comma", obj_ && (VI1 == 0 || VI1 == 2) && VP1 < s->buffer_stop && *VP1 == '"');
    VI1 = 3; VN1 = VN1 + 1;
    size_t k = nondet_size_t(); VH_ASSUME(k >= 2 && k <= (size_t)(s->buffer_stop - s->i));
    s->i += k; VP1 = s->i; s->line = nondet_size_t(); s->col = nondet_size_t();
    *a = owner_; *b = owner_ + 4;
}
void vh_free(void *p) { if (p) { VH_ASSERT("the key is freed once", p == owner_ && VN2 != VN1); VN2 = VN2 + 1; } }
void trim_index_suffix(const char *a, const char **b) {}
bool is_xmq_element_name(const char *a, const char *b, const char **colon)
{
    VH_ASSERT("the key is looked at", a == keybuf_ && b == keybuf_ + 3);
    *colon = hascolon_ && !unsafe_ ? keybuf_ + 1 : 0; return !unsafe_;
}
static int verr(XMQParseState *s)
{
    if (s->error_nr != XMQ_ERROR_JSON_INVALID_CHAR) return 0;
    const char *e = s->buffer_stop;
    if (s->i >= e) return 1;
    VH_ASSERT("nothing is skipped before an error", VP1 == s->i);
    char c = *s->i;
    if (VI1 == 1) return c != ',' && c != (obj_ ? '}' : ']');
    if (obj_ && (VI1 == 0 || VI1 == 2)) return c != '"' && c != '}';
    if (obj_ && VI1 == 3) return c != ':';
    return 0;
}
/* the element reported: [ns] key ( [_ = key] [A] ) { ... } */
static void cb_ns(const char *a, const char *b) { VH_ASSERT("namespace prefix", cb_ == 0 && hascolon_ && !unsafe_ && !nokey_ && a == keybuf_ && b == keybuf_ + 1); cb_ = 1; }
static void cb_key(const char *a, const char *b)
{
    VH_ASSERT("one key", cb_ == (hascolon_ && !unsafe_ && !nokey_ ? 1 : 0));
    VH_ASSERT("the name is the key, or _ when that is no name", nokey_ || unsafe_ ? b - a == 1 && a[0] == '_' : hascolon_ ? a == keybuf_ + 2 && b == keybuf_ + 3 : a == keybuf_ && b == keybuf_ + 3);
    cb_ = 2;
}
static void cb_al(const char *a, const char *b) { VH_ASSERT("(", cb_ == 2 && (!obj_ || (unsafe_ && !nokey_))); cb_ = 3; }
static void cb_ak(const char *a, const char *b)
{
    VH_ASSERT("attribute name", b - a == 1 && (a[0] == '_' || a[0] == 'A'));
    if (a[0] == '_') { VH_ASSERT("_ first", cb_ == 3 && unsafe_ && !nokey_); cb_ = 4; }
    else { VH_ASSERT("A of an array", !obj_ && cb_ == (unsafe_ && !nokey_ ? 5 : 3)); cb_ = 6; }
}
static void cb_av(const char *a, const char *b) { VH_ASSERT("the key is kept in _", cb_ == 4 && a == keybuf_ && b == keybuf_ + 3); cb_ = 5; }
static void cb_ar(const char *a, const char *b) { VH_ASSERT(")", cb_ == (obj_ ? 5 : 6)); cb_ = 7; }
static void cb_bl(const char *a, const char *b) { VH_ASSERT("{", cb_ == (obj_ && !(unsafe_ && !nokey_) ? 2 : 7) && VI1 == 0); cb_ = 8; }
static void cb_br(const char *a, const char *b) { VH_ASSERT("}", cb_ == 8); cb_ = 9; }
#define X(TYPE) VCB_##TYPE,
enum { LIST_OF_XMQ_TOKENS VCB_none };
#undef X
void vh_cb(int kind, XMQParseState *s, size_t line, size_t col, const char *a, const char *b, const char *x)
{
    VH_ASSERT("marked as not being a piece of the input", s->simulated);
    if (kind == VCB_element_ns) cb_ns(a, b); else if (kind == VCB_element_key) cb_key(a, b); else if (kind == VCB_apar_left) cb_al(a, b);
    else if (kind == VCB_attr_key) cb_ak(a, b); else if (kind == VCB_attr_value_quote) cb_av(a, b); else if (kind == VCB_apar_right) cb_ar(a, b);
    else if (kind == VCB_brace_left) cb_bl(a, b); else if (kind == VCB_brace_right) cb_br(a, b);
    else VH_ASSERT("no other token", 0);
}
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    underline[0] = '_'; array[0] = 'A';   /* as the module initialises them */
    size_t at = g; VH_ASSUME(at < n);
    obj_ = p; unsafe_ = nondet_bool(); nokey_ = nondet_bool(); hascolon_ = nondet_bool(); cb_ = 0;
    bool empty = nondet_bool();
    VH_ASSUME(in[at] == (obj_ ? '{' : '['));
    v_state(in, at, n, 3, 5);
    VP2 = in + at; VP1 = in + at + 1; VI1 = 0; VN1 = VN2 = 0;
    const char *ks = nokey_ ? (empty ? (const char*)keybuf_ : (const char*)0) : (const char*)keybuf_, *kt = nokey_ ? ks : keybuf_ + 3;
    if (obj_) parse_json_object(&vst, ks, kt); else parse_json_array(&vst, ks, kt);
    VH_ASSERT("closed by its bracket, behind the opening, a value or one comma", VI1 <= 2 && (VI1 == 1 || VI1 == 0 || VI1 == 2) && VP1 < in + n && *VP1 == (obj_ ? '}' : ']') && vst.i == VP1 + 1);
    VH_ASSERT("reported and closed", cb_ == 9 && VN1 == VN2);
    VH_COVER("closed");
    if (VI1 == 1) VH_COVER("behind a value");
    if (VI1 == 2) VH_COVER("behind a comma");
}
