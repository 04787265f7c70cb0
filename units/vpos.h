/* A parse state over the input buffer; positions; the error exit. */
#ifndef VPOS_H
#define VPOS_H
#include <libxml/tree.h>
#include "xmq.h"
#include "parts/text.h"
#include "parts/xmq_internals.h"
#define VB(p) ((unsigned char)*(p))
static size_t v_wslen(const char *i, const char *e)
{
    if (VWS(*i)) return 1;
    if (e - i >= 2 && VB(i) == 0xc2 && VB(i+1) == 0xa0) return 2;
    if (e - i >= 3 && VB(i) == 0xe2 && VB(i+1) == 0x80 && VB(i+2) >= 0x80 && VB(i+2) <= 0x83) return 3;
    return 0;
}
static bool v_safe(const char *i, const char *e)
{
    return v_wslen(i, e) == 0 && *i != '(' && *i != ')' && *i != '\'' && *i != '"' && *i != '{' && *i != '}';
}
#ifdef VH_PROOF
static XMQParseState vst;
static int verr(XMQParseState *s);      /* the harness says when an error exit is right */
void vh_longjmp(void *env, int v)
{
    VH_ASSERT("an error exit names an error", vst.error_nr != 0);
    VH_ASSERT("an error exit is right", verr(&vst));
    VH_COVER("error exit");
    VH_ASSUME(0);
}
#define VTRY 1
#else
static XMQParseState vst;
#define VTRY (setjmp(vst.error_handler) == 0)
#endif
static void v_state(const char *in, size_t at, size_t n, size_t line, size_t col)
{
    memset(&vst, 0, sizeof(vst));
    vst.buffer_start = in; vst.buffer_stop = in + n; vst.i = in + at; vst.line = line; vst.col = col;
#ifdef VH_PROOF
    VP1 = in + at; VN1 = line; VN2 = col;
#endif
}
/* position after reading [a, b) from (line, col), counted byte by byte */
static void v_pos(const char *a, const char *b, size_t *line, size_t *col)
{
    for (; a < b; a++) if ((*a & 0xc0) != 0x80) { if (*a == '\n') { (*line)++; *col = 1; } else (*col)++; }
}
#ifdef VH_PROOF
#define V_CHECK_POS(from) VH_ASSERT("line and column are those of the new position", VP1 == vst.i && vst.line == VN1 && vst.col == VN2)
#else
#define V_CHECK_POS(from) do { size_t l_ = 3, c_ = 5; v_pos(from, vst.i, &l_, &c_); \
    VH_ASSERT("line and column are those of the new position", vst.line == l_ && vst.col == c_); } while (0)
#endif
#endif
