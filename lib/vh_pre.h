/* Forced in front of the annotated sources in proof mode only. System headers first, so that nothing below can touch them. */
#include <setjmp.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <assert.h>
/* longjmp to the error handler = the call does not return normally: its effect is checked by the harness hook, then the path ends. */
void vh_longjmp(void *env, int v);
#undef longjmp
#define longjmp(e, v) vh_longjmp((void*)(e), (v))

/* the contract instrumentation passes its write set behind the last argument, which a variadic callee does not find: flatten */
#ifdef VH_FLATPRINTF
int vh_snprintf(char *s, size_t n, const char *f, size_t a0, size_t a1, size_t a2, size_t a3, size_t a4, size_t a5, size_t a6, size_t a7);
#define VH_SN(s, n, f, a, b, c, d, e, g, h, i, ...) vh_snprintf(s, n, f, (size_t)(a), (size_t)(b), (size_t)(c), (size_t)(d), (size_t)(e), (size_t)(g), (size_t)(h), (size_t)(i))
#undef snprintf
#define snprintf(s, n, ...) VH_SN(s, n, __VA_ARGS__, 0, 0, 0, 0, 0, 0, 0, 0, 0)
#endif
#ifdef VH_CTYPE
#include <ctype.h>
#undef isalnum
#define isalnum(c) (VALPHA(c) || VDIGIT(c))
#endif
#ifdef VH_OWNFREE
void vh_free(void *p);
#undef free
#define free vh_free
#endif
/* calls of the parse handlers through pointers: direct calls of the harness, with the kind of token */
#ifdef VH_CALLBACKS
#include <libxml/tree.h>
#include "xmq.h"
#include "parts/xmq_internals.h"
#define X(TYPE) VCB_##TYPE,
enum { LIST_OF_XMQ_TOKENS VCB_none };
#undef X
void vh_cb(int kind, XMQParseState *state, size_t line, size_t col, const char *start, const char *stop, const char *suffix);
#undef DO_CALLBACK
#define DO_CALLBACK(TYPE, state, line, col, start, stop, suffix) { vh_cb(VCB_##TYPE, state, line, col, start, stop, suffix); }
#undef DO_CALLBACK_SIM
#define DO_CALLBACK_SIM(TYPE, state, line, col, start, stop, suffix) { state->simulated=true; vh_cb(VCB_##TYPE, state, line, col, start, stop, suffix); state->simulated=false; }
#endif
/* ghost step over one byte: VN1 = line, VN2 = column (code points since the last newline), VP1 = end of the stepped bytes */
#define VSTEP(c) do { if (((c) & 0xc0) != 0x80) { if ((c) == '\n') { VN1 = VN1 + 1; VN2 = 1; } else VN2 = VN2 + 1; } VP1 = VP1 + 1; } while (0)
#define VPOS (VP1 == i && line == VN1 && col == VN2)
/* ghost state */
extern const char *VG, *VP1, *VP2, *VP3; extern size_t VN1, VN2, VN3, VN4, VN5, VN6; extern int VI1, VI2; extern _Bool VB1, VB2;
extern size_t *VA, *VA2;
size_t vh_len(char c); void vh_step(const char *i, const char *e);
/* VUSE: an instance of a fact that is asserted in the same unit for the arbitrary position VG (forall elimination), or of
   a consequence named by @trust. Loop contracts run the first iteration twice, so what is assumed must be true of the program. */
#define VUSE(c) __CPROVER_assume(c)
/* VCUT: a lemma: proved here, used behind */
#define VCUT(c) do { __CPROVER_assert(c, "lemma " #c); __CPROVER_assume(c); } while (0)
#define VAT (OFF(VG) - OFF(comment) + 3 * VN1)
#define VDLE(q) (VB(q) == 0xe2 && VB((q)+1) == 0x90 && VB((q)+2) == 0x90)
#define VESC(q) (*(q) == 0x2d && ((q)[1] == 0x2d || (q)[1] == 0 || VDLE((q) + 1)))
#define VUNE(q) (*(q) == 0x2d && VDLE((q) + 1))
#define VALPHA(c) (((c)>='a'&&(c)<='z')||((c)>='A'&&(c)<='Z'))
#define VDIGIT(c) ((c)>='0'&&(c)<='9')
#define VSTART(c) (VALPHA(c)||(c)=='_')
#define VNAME(c) (VALPHA(c)||VDIGIT(c)||(c)=='-'||(c)=='_'||(c)=='.'||(c)==':'||(c)=='#')
#define VLHEX(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'a' && (c) <= 'f'))
#define VHEX(c) (VDIGIT(c)||((c)>='a'&&(c)<='f')||((c)>='A'&&(c)<='F'))
#define SOFF(p) ((__CPROVER_ssize_t)__CPROVER_POINTER_OFFSET(p))
#define VWS(c) ((c)==' '||(c)=='\n'||(c)=='\t'||(c)=='\r')
/* pointer relations for invariants: written over offsets, because a havocked pointer may not be compared with <= */
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define VIN(x, a, b) (__CPROVER_same_object((x), (a)) && OFF(a) <= OFF(x) && OFF(x) <= OFF(b))
#define VLT(x, y) (OFF(x) < OFF(y))
#define VLE(x, y) (OFF(x) <= OFF(y))
#define VDIFF(x, y) (OFF(x) - OFF(y))
/* identity, checked: tells the checker which object p points into */
#define VREBASE(p, base) do { size_t o_ = OFF(p) - OFF(base); __CPROVER_assert((p) == (base) + o_, "rebase is the identity"); (p) = (base) + o_; } while (0)
#define VREBASE2(p, base) do { size_t o_ = (OFF(p) - OFF(base)) / sizeof(*(p)); __CPROVER_assert((p) == (base) + o_, "rebase is the identity"); (p) = (base) + o_; } while (0)
#define VSORTED(c) __CPROVER_assume(c)
/* start of the whitespace at i, as the language defines it: length in bytes (0: none) */
#define VB(p) ((unsigned char)*(p))
#define VWSLEN(i, e) (VWS(*(i)) ? 1 : \
   (OFF(e) - OFF(i) >= 2 && VB(i) == 0xc2 && VB((i)+1) == 0xa0) ? 2 : \
   (OFF(e) - OFF(i) >= 3 && VB(i) == 0xe2 && VB((i)+1) == 0x80 && VB((i)+2) >= 0x80 && VB((i)+2) <= 0x83) ? 3 : 0)
#define VSAFE(i, e) (VWSLEN(i, e) == 0 && *(i) != '(' && *(i) != ')' && *(i) != '\'' && *(i) != '"' && *(i) != '{' && *(i) != '}')
