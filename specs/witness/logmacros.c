/* uses every logging macro of the public header once */
#ifdef NO_GNU
#  include <glib.h>
#  undef __GNUC__
#endif
#include <gutil_log.h>
#ifdef GLOG_MODULE_NAME
GLOG_MODULE_DEFINE("witness");
#endif
#define W(n,M) \
    void w_##n(int v); void w_##n(int v) { M("value %d", v); } \
    void w_##n##_(int v); void w_##n##_(int v) { M##_("value %d", v); }
W(err, GERR)
W(warn, GWARN)
W(info, GINFO)
W(debug, GDEBUG)
W(verbose, GVERBOSE)
void w_dump(const void* p, gsize n);
void w_dump(const void* p, gsize n) { GDEBUG_DUMP(p, n); }
void w_dump_bytes(GBytes* b);
void w_dump_bytes(GBytes* b) { GDEBUG_DUMP_BYTES(b); }
gboolean w_enabled(int level);
gboolean w_enabled(int level) { return GLOG_ENABLED(level); }
