/* the function-like macros of the public headers as functions */
#include <gutil_log.h>
#include <gutil_macros.h>
#include <gutil_misc.h>
#include <gutil_version.h>

guint w_version(guint a, guint b, guint c);
guint w_version(guint a, guint b, guint c) { return GUTIL_VERSION_(a, b, c); }
guint w_major(guint v);
guint w_major(guint v) { return GUTIL_VERSION_MAJOR_(v); }
guint w_minor(guint v);
guint w_minor(guint v) { return GUTIL_VERSION_MINOR_(v); }
guint w_micro(guint v);
guint w_micro(guint v) { return GUTIL_VERSION_MICRO_(v); }
guint w_runtime(void);
guint w_runtime(void) { return gutil_version(); }
guint w_compiletime(void);
guint w_compiletime(void) { return GUTIL_VERSION; }

#define A(n,t) t w_align##n##_##t(t v); t w_align##n##_##t(t v) { return G_ALIGN##n(v); }
#define AA(t) A(2,t) A(4,t) A(8,t)
AA(int) AA(guint) AA(gsize) AA(gint64)

struct witness_outer { void* first; int second; void* third; int field; int last; };
struct witness_outer* w_cast(int* p);
struct witness_outer* w_cast(int* p) { return G_CAST(p, struct witness_outer, field); }
struct witness_outer* w_cast0(void** p);
struct witness_outer* w_cast0(void** p) { return G_CAST(p, struct witness_outer, first); }
void w_slice(void);
void w_slice(void) { struct witness_outer* p = g_slice_new(struct witness_outer); gutil_slice_free(p); }

extern int w_value(void);
void w_verify(void); void w_verify(void) { GVERIFY(w_value()); }
void w_verify_false(void); void w_verify_false(void) { GVERIFY_FALSE(w_value()); }
void w_verify_eq(void); void w_verify_eq(void) { GVERIFY_EQ(w_value(), 7); }
void w_verify_ne(void); void w_verify_ne(void) { GVERIFY_NE(w_value(), 7); }
void w_verify_ge(void); void w_verify_ge(void) { GVERIFY_GE(w_value(), 7); }
void w_verify_gt(void); void w_verify_gt(void) { GVERIFY_GT(w_value(), 7); }
void w_verify_le(void); void w_verify_le(void) { GVERIFY_LE(w_value(), 7); }
void w_verify_lt(void); void w_verify_lt(void) { GVERIFY_LT(w_value(), 7); }
void w_assert(void); void w_assert(void) { GASSERT(w_value()); }
const char* w_errmsg(GError* e);
const char* w_errmsg(GError* e) { return GERRMSG(e); }
