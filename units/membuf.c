/*@unit
@title output buffer: every append keeps what was there, adds exactly the given bytes, and leaves used <= allocated
@func pick_buffer_new_size
@func membuffer_append_region
@func membuffer_append_char
@func membuffer_append_null
@func membuffer_append_int
@func membuffer_append_pointer
@func membuffer_drop_last_null
@func membuffer_back
@func membuffer_used
@split 7
@end*/
#define VH_MINN 0
#define VH_ALPHABET "ab\n\0"
#define VH_EXLEN 6
#define VH_RNDLEN 3000
#define VH_P 7
#define VH_NO_G
#include "vh.h"
#include "vspec.h"
#include "parts/membuffer.h"
static void vh_body(const char *in, size_t n, size_t g, unsigned p)
{
    MemBuffer mb;
    memset(&mb, 0, sizeof(mb));
#ifdef VH_PROOF
    mb.max_ = nondet_size_t(); mb.used_ = nondet_size_t();
    VH_LIM(mb.max_); VH_ASSUME(mb.used_ <= mb.max_);
    mb.buffer_ = NULL;
    if (mb.max_ > 0) { mb.buffer_ = malloc(mb.max_); VH_ASSUME(mb.buffer_ != 0); }
#else
    static const size_t sizes[] = { 0, 1, 2, 5, 1019, 1020, 1023, 1024, 1025, 3000 };
    mb.max_ = sizes[vh_rnd() % 10]; mb.used_ = vh_rnd() % 3 == 0 ? mb.max_ : mb.max_ ? vh_rnd() % mb.max_ : 0;
    mb.buffer_ = mb.max_ ? malloc(mb.max_) : NULL;
    for (size_t k = 0; k < mb.max_; k++) mb.buffer_[k] = (char)vh_rnd();
#endif
    size_t used = mb.used_, add = 0;
#ifdef VH_PROOF
    size_t w = nondet_size_t();
    char old = 0;
    if (used > 0) { VH_ASSUME(w < used); old = mb.buffer_[w]; }
    char last = used ? mb.buffer_[used-1] : 0;
    size_t v = nondet_size_t();
#else
    char *copy = malloc(used + 1);
    if (used) memcpy(copy, mb.buffer_, used);
    char last = used ? mb.buffer_[used-1] : 0;
#endif
    int num = 0; void *ptr = 0;
    const unsigned char *src = (const unsigned char*)in;
    switch (p)
    {
    case 0: membuffer_append_region(&mb, in, in + n); add = n; break;
    case 1:
        VH_ASSUME(n > 0);
        membuffer_append_char(&mb, in[0]); add = 1; break;
    case 2:
    { static const char z; src = (const unsigned char*)&z;
        membuffer_append_null(&mb); add = 1; break; }
    case 3:
#ifdef VH_PROOF
        num = nondet_int();
#else
        num = (int)vh_rnd();
#endif
        src = (unsigned char*)&num;
        membuffer_append_int(&mb, num); add = sizeof(int); break;
    case 4:
        ptr = (void*)in; src = (unsigned char*)&ptr;
        membuffer_append_pointer(&mb, ptr); add = sizeof(ptr); break;
    case 5: membuffer_drop_last_null(&mb); break;
    default:
        VH_ASSERT("last byte", membuffer_back(&mb) == last);
        VH_ASSERT("number of bytes", membuffer_used(&mb) == used);
    }
    size_t now = p == 5 && used > 0 && last == 0 ? used - 1 : used + add;
    VH_ASSERT("number of bytes afterwards", mb.used_ == now);
    VH_ASSERT("used fits in allocated", mb.used_ <= mb.max_);
#ifdef VH_PROOF
    VH_ASSERT("the memory is as big as recorded", mb.max_ == 0 || __CPROVER_w_ok(mb.buffer_, mb.max_));
    if (used > 0 && w < now) VH_ASSERT("what was there stays", mb.buffer_[w] == old);
    if (v < add) { VH_ASSERT("the added bytes are the given ones", (unsigned char)mb.buffer_[used + v] == src[v]); VH_COVER("added"); }
#else
    VH_ASSERT("what was there stays", memcmp(mb.buffer_ ? mb.buffer_ : copy, copy, now < used ? now : used) == 0);
    VH_ASSERT("the added bytes are the given ones", add == 0 || memcmp(mb.buffer_ + used, src, add) == 0);
    free(copy); free(mb.buffer_);
#endif
}
