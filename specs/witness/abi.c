/* Written by tool/abi.py: what the public headers promise. */
#define GLOG_LEVEL_MAX 4
#define GLOG_LEVEL_ASSERT 1
#include <gutil_datapack.h>
#include <gutil_history.h>
#include <gutil_idlepool.h>
#include <gutil_idlequeue.h>
#include <gutil_inotify.h>
#include <gutil_intarray.h>
#include <gutil_ints.h>
#include <gutil_log.h>
#include <gutil_macros.h>
#include <gutil_misc.h>
#include <gutil_objv.h>
#include <gutil_ring.h>
#include <gutil_strv.h>
#include <gutil_timenotify.h>
#include <gutil_types.h>
#include <gutil_version.h>
#include <gutil_weakref.h>
#include <stddef.h>
#include <stdarg.h>
_Static_assert(__builtin_types_compatible_p(__typeof__(GLOG_TYPE_CUSTOM), const char[]), "type of GLOG_TYPE_CUSTOM");
_Static_assert(__builtin_types_compatible_p(__typeof__(GLOG_TYPE_GLIB), const char[]), "type of GLOG_TYPE_GLIB");
_Static_assert(__builtin_types_compatible_p(__typeof__(GLOG_TYPE_STDERR), const char[]), "type of GLOG_TYPE_STDERR");
_Static_assert(__builtin_types_compatible_p(__typeof__(GLOG_TYPE_STDOUT), const char[]), "type of GLOG_TYPE_STDOUT");
_Static_assert(__builtin_types_compatible_p(__typeof__(GLOG_TYPE_SYSLOG), const char[]), "type of GLOG_TYPE_SYSLOG");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_bin2hex), char *(const void *, gsize, gboolean)), "signature of gutil_bin2hex");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_bytes_concat), GBytes *(GBytes *, ...)), "signature of gutil_bytes_concat");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_bytes_equal), gboolean (GBytes *, const void *, gsize)), "signature of gutil_bytes_equal");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_bytes_equal_data), gboolean (GBytes *, const GUtilData *)), "signature of gutil_bytes_equal_data");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_bytes_has_prefix), gboolean (GBytes *, const void *, gsize)), "signature of gutil_bytes_has_prefix");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_bytes_has_suffix), gboolean (GBytes *, const void *, gsize)), "signature of gutil_bytes_has_suffix");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_bytes_xor), GBytes *(GBytes *, GBytes *)), "signature of gutil_bytes_xor");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data2hex), char *(const GUtilData *, gboolean)), "signature of gutil_data2hex");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data_copy), GUtilData *(const GUtilData *)), "signature of gutil_data_copy");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data_copy_as_variant), GVariant *(const GUtilData *)), "signature of gutil_data_copy_as_variant");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data_equal), gboolean (const GUtilData *, const GUtilData *)), "signature of gutil_data_equal");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data_from_bytes), const GUtilData *(GUtilData *, GBytes *)), "signature of gutil_data_from_bytes");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data_from_string), const GUtilData *(GUtilData *, const char *)), "signature of gutil_data_from_string");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data_has_prefix), gboolean (const GUtilData *, const GUtilData *)), "signature of gutil_data_has_prefix");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data_has_suffix), gboolean (const GUtilData *, const GUtilData *)), "signature of gutil_data_has_suffix");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_data_new), GUtilData *(const void *, guint)), "signature of gutil_data_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_disconnect_handlers), void (gpointer, gulong *, int)), "signature of gutil_disconnect_handlers");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_hex2bin), void *(const char *, gssize, void *)), "signature of gutil_hex2bin");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_hex2bytes), GBytes *(const char *, gssize)), "signature of gutil_hex2bytes");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_hexdump), guint (char *, const void *, guint)), "signature of gutil_hexdump");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add), gpointer (GUtilIdlePool *, gpointer, GDestroyNotify)), "signature of gutil_idle_pool_add");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_bytes), GBytes *(GUtilIdlePool *, GBytes *)), "signature of gutil_idle_pool_add_bytes");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_bytes_ref), GBytes *(GUtilIdlePool *, GBytes *)), "signature of gutil_idle_pool_add_bytes_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_object), gpointer (GUtilIdlePool *, gpointer)), "signature of gutil_idle_pool_add_object");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_object_ref), gpointer (GUtilIdlePool *, gpointer)), "signature of gutil_idle_pool_add_object_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_ptr_array), GPtrArray *(GUtilIdlePool *, GPtrArray *)), "signature of gutil_idle_pool_add_ptr_array");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_ptr_array_ref), GPtrArray *(GUtilIdlePool *, GPtrArray *)), "signature of gutil_idle_pool_add_ptr_array_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_strv), char **(GUtilIdlePool *, char **)), "signature of gutil_idle_pool_add_strv");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_variant), GVariant *(GUtilIdlePool *, GVariant *)), "signature of gutil_idle_pool_add_variant");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_add_variant_ref), GVariant *(GUtilIdlePool *, GVariant *)), "signature of gutil_idle_pool_add_variant_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_destroy), void (GUtilIdlePool *)), "signature of gutil_idle_pool_destroy");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_drain), void (GUtilIdlePool *)), "signature of gutil_idle_pool_drain");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_get), GUtilIdlePool *(GUtilIdlePool **)), "signature of gutil_idle_pool_get");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_get_default), GUtilIdlePool *(void)), "signature of gutil_idle_pool_get_default");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_new), GUtilIdlePool *(void)), "signature of gutil_idle_pool_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_ref), GUtilIdlePool *(GUtilIdlePool *)), "signature of gutil_idle_pool_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_pool_unref), void (GUtilIdlePool *)), "signature of gutil_idle_pool_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_add), void (GUtilIdleQueue *, GUtilIdleFunc, gpointer)), "signature of gutil_idle_queue_add");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_add_full), void (GUtilIdleQueue *, GUtilIdleFunc, gpointer, GFreeFunc)), "signature of gutil_idle_queue_add_full");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_add_tag), void (GUtilIdleQueue *, GUtilIdleQueueTag, GUtilIdleFunc, gpointer)), "signature of gutil_idle_queue_add_tag");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_add_tag_full), void (GUtilIdleQueue *, GUtilIdleQueueTag, GUtilIdleFunc, gpointer, GFreeFunc)), "signature of gutil_idle_queue_add_tag_full");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_cancel_all), void (GUtilIdleQueue *)), "signature of gutil_idle_queue_cancel_all");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_cancel_tag), gboolean (GUtilIdleQueue *, GUtilIdleQueueTag)), "signature of gutil_idle_queue_cancel_tag");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_contains_tag), gboolean (GUtilIdleQueue *, GUtilIdleQueueTag)), "signature of gutil_idle_queue_contains_tag");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_free), void (GUtilIdleQueue *)), "signature of gutil_idle_queue_free");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_new), GUtilIdleQueue *(void)), "signature of gutil_idle_queue_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_ref), GUtilIdleQueue *(GUtilIdleQueue *)), "signature of gutil_idle_queue_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_idle_queue_unref), void (GUtilIdleQueue *)), "signature of gutil_idle_queue_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_inotify_watch_add_handler), gulong (GUtilInotifyWatch *, GUtilInotifyWatchFunc, void *)), "signature of gutil_inotify_watch_add_handler");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_inotify_watch_callback_free), void (GUtilInotifyWatchCallback *)), "signature of gutil_inotify_watch_callback_free");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_inotify_watch_callback_new), GUtilInotifyWatchCallback *(const char *, guint32, GUtilInotifyWatchFunc, void *)), "signature of gutil_inotify_watch_callback_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_inotify_watch_destroy), void (GUtilInotifyWatch *)), "signature of gutil_inotify_watch_destroy");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_inotify_watch_new), GUtilInotifyWatch *(const char *, guint32)), "signature of gutil_inotify_watch_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_inotify_watch_ref), GUtilInotifyWatch *(GUtilInotifyWatch *)), "signature of gutil_inotify_watch_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_inotify_watch_remove_handler), void (GUtilInotifyWatch *, gulong)), "signature of gutil_inotify_watch_remove_handler");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_inotify_watch_unref), void (GUtilInotifyWatch *)), "signature of gutil_inotify_watch_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_append), GUtilIntArray *(GUtilIntArray *, int)), "signature of gutil_int_array_append");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_append_vals), GUtilIntArray *(GUtilIntArray *, const int *, guint)), "signature of gutil_int_array_append_vals");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_contains), gboolean (GUtilIntArray *, int)), "signature of gutil_int_array_contains");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_find), int (GUtilIntArray *, int)), "signature of gutil_int_array_find");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_free), int *(GUtilIntArray *, gboolean)), "signature of gutil_int_array_free");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_free_to_ints), GUtilInts *(GUtilIntArray *)), "signature of gutil_int_array_free_to_ints");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_insert), GUtilIntArray *(GUtilIntArray *, guint, int)), "signature of gutil_int_array_insert");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_insert_vals), GUtilIntArray *(GUtilIntArray *, guint, const int *, guint)), "signature of gutil_int_array_insert_vals");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_new), GUtilIntArray *(void)), "signature of gutil_int_array_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_new_from_vals), GUtilIntArray *(const int *, guint)), "signature of gutil_int_array_new_from_vals");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_new_from_value), GUtilIntArray *(int)), "signature of gutil_int_array_new_from_value");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_prepend), GUtilIntArray *(GUtilIntArray *, int)), "signature of gutil_int_array_prepend");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_prepend_vals), GUtilIntArray *(GUtilIntArray *, const int *, guint)), "signature of gutil_int_array_prepend_vals");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_ref), GUtilIntArray *(GUtilIntArray *)), "signature of gutil_int_array_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_remove), gboolean (GUtilIntArray *, int)), "signature of gutil_int_array_remove");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_remove_all), guint (GUtilIntArray *, int)), "signature of gutil_int_array_remove_all");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_remove_all_fast), guint (GUtilIntArray *, int)), "signature of gutil_int_array_remove_all_fast");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_remove_fast), gboolean (GUtilIntArray *, int)), "signature of gutil_int_array_remove_fast");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_remove_index), GUtilIntArray *(GUtilIntArray *, guint)), "signature of gutil_int_array_remove_index");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_remove_index_fast), GUtilIntArray *(GUtilIntArray *, guint)), "signature of gutil_int_array_remove_index_fast");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_remove_range), GUtilIntArray *(GUtilIntArray *, guint, guint)), "signature of gutil_int_array_remove_range");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_set_count), GUtilIntArray *(GUtilIntArray *, guint)), "signature of gutil_int_array_set_count");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_sized_new), GUtilIntArray *(guint)), "signature of gutil_int_array_sized_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_sort_ascending), void (GUtilIntArray *)), "signature of gutil_int_array_sort_ascending");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_sort_descending), void (GUtilIntArray *)), "signature of gutil_int_array_sort_descending");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_array_unref), void (GUtilIntArray *)), "signature of gutil_int_array_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_add), int (GUtilIntHistory *, int)), "signature of gutil_int_history_add");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_clear), void (GUtilIntHistory *)), "signature of gutil_int_history_clear");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_interval), gint64 (GUtilIntHistory *)), "signature of gutil_int_history_interval");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_median), int (GUtilIntHistory *, int)), "signature of gutil_int_history_median");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_new), GUtilIntHistory *(int, gint64)), "signature of gutil_int_history_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_new_full), GUtilIntHistory *(int, gint64, GUtilHistoryTimeFunc)), "signature of gutil_int_history_new_full");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_ref), GUtilIntHistory *(GUtilIntHistory *)), "signature of gutil_int_history_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_size), guint (GUtilIntHistory *)), "signature of gutil_int_history_size");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_int_history_unref), void (GUtilIntHistory *)), "signature of gutil_int_history_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_compare), gint (gconstpointer, gconstpointer)), "signature of gutil_ints_compare");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_contains), gboolean (GUtilInts *, int)), "signature of gutil_ints_contains");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_equal), gboolean (gconstpointer, gconstpointer)), "signature of gutil_ints_equal");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_find), int (GUtilInts *, int)), "signature of gutil_ints_find");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_get_count), guint (GUtilInts *)), "signature of gutil_ints_get_count");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_get_data), const int *(GUtilInts *, guint *)), "signature of gutil_ints_get_data");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_hash), guint (gconstpointer)), "signature of gutil_ints_hash");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_new), GUtilInts *(const int *, guint)), "signature of gutil_ints_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_new_from_ints), GUtilInts *(GUtilInts *, guint, guint)), "signature of gutil_ints_new_from_ints");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_new_static), GUtilInts *(const int *, guint)), "signature of gutil_ints_new_static");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_new_take), GUtilInts *(int *, guint)), "signature of gutil_ints_new_take");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_new_with_free_func), GUtilInts *(const int *, guint, GDestroyNotify, gpointer)), "signature of gutil_ints_new_with_free_func");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_ref), GUtilInts *(GUtilInts *)), "signature of gutil_ints_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_unref), void (GUtilInts *)), "signature of gutil_ints_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ints_unref_to_data), int *(GUtilInts *, guint *)), "signature of gutil_ints_unref_to_data");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log), void (const GLogModule *, int, const char *, ...)), "signature of gutil_log");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_assert), void (const GLogModule *, int, const char *, const char *, int)), "signature of gutil_log_assert");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_default), GLogModule), "type of gutil_log_default");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_description), char *(GLogModule **, int)), "signature of gutil_log_description");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_dump), void (const GLogModule *, int, const char *, const void *, gsize)), "signature of gutil_log_dump");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_dump_bytes), void (const GLogModule *, int, const char *, GBytes *)), "signature of gutil_log_dump_bytes");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_enabled), gboolean (const GLogModule *, int)), "signature of gutil_log_enabled");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_func), GLogProc), "type of gutil_log_func");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_func2), GLogProc2), "type of gutil_log_func2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_get_type), const char *(void)), "signature of gutil_log_get_type");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_glib), void (const char *, int, const char *, va_list)), "signature of gutil_log_glib");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_glib2), void (const GLogModule *, int, const char *, va_list)), "signature of gutil_log_glib2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_parse_option), gboolean (const char *, GLogModule **, int, GError **)), "signature of gutil_log_parse_option");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_set_timestamp_format), void (const char *)), "signature of gutil_log_set_timestamp_format");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_set_type), gboolean (const char *, const char *)), "signature of gutil_log_set_type");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_stderr), void (const char *, int, const char *, va_list)), "signature of gutil_log_stderr");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_stderr2), void (const GLogModule *, int, const char *, va_list)), "signature of gutil_log_stderr2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_stdout), void (const char *, int, const char *, va_list)), "signature of gutil_log_stdout");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_stdout2), void (const GLogModule *, int, const char *, va_list)), "signature of gutil_log_stdout2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_syslog), void (const char *, int, const char *, va_list)), "signature of gutil_log_syslog");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_syslog2), void (const GLogModule *, int, const char *, va_list)), "signature of gutil_log_syslog2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_tid), gboolean), "type of gutil_log_tid");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_log_timestamp), gboolean), "type of gutil_log_timestamp");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_logv), void (const GLogModule *, int, const char *, va_list)), "signature of gutil_logv");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_memdup), void *(const void *, gsize)), "signature of gutil_memdup");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_object_ref), void *(void *)), "signature of gutil_object_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_object_unref), void (void *)), "signature of gutil_object_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_add), GObject **(GObject **, GObject *)), "signature of gutil_objv_add");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_append), GObject **(GObject **, GObject *const *)), "signature of gutil_objv_append");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_at), GObject *(GObject *const *, gsize)), "signature of gutil_objv_at");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_contains), gboolean (GObject *const *, GObject *)), "signature of gutil_objv_contains");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_copy), GObject **(GObject *const *)), "signature of gutil_objv_copy");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_equal), gboolean (GObject *const *, GObject *const *)), "signature of gutil_objv_equal");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_find), gssize (GObject *const *, GObject *)), "signature of gutil_objv_find");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_find_last), gssize (GObject *const *, GObject *)), "signature of gutil_objv_find_last");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_first), GObject *(GObject *const *)), "signature of gutil_objv_first");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_free), void (GObject **)), "signature of gutil_objv_free");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_insert), GObject **(GObject **, GObject *, gsize)), "signature of gutil_objv_insert");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_last), GObject *(GObject *const *)), "signature of gutil_objv_last");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_new), GObject **(GObject *, ...)), "signature of gutil_objv_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_remove), GObject **(GObject **, GObject *, gboolean)), "signature of gutil_objv_remove");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_objv_remove_at), GObject **(GObject **, gsize)), "signature of gutil_objv_remove_at");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_parse_int), gboolean (const char *, int, int *)), "signature of gutil_parse_int");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_parse_int64), gboolean (const char *, int, gint64 *)), "signature of gutil_parse_int64");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_parse_uint), gboolean (const char *, int, unsigned int *)), "signature of gutil_parse_uint");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_parse_uint64), gboolean (const char *, int, guint64 *)), "signature of gutil_parse_uint64");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ptrv_free), void (void **)), "signature of gutil_ptrv_free");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ptrv_is_empty), gboolean (const void *)), "signature of gutil_ptrv_is_empty");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ptrv_length), gsize (const void *)), "signature of gutil_ptrv_length");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_range_has_prefix), gboolean (const GUtilRange *, const GUtilData *)), "signature of gutil_range_has_prefix");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_range_init_with_bytes), gsize (GUtilRange *, GBytes *)), "signature of gutil_range_init_with_bytes");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_range_skip_prefix), gboolean (GUtilRange *, const GUtilData *)), "signature of gutil_range_skip_prefix");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_can_put), gboolean (GUtilRing *, gint)), "signature of gutil_ring_can_put");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_clear), void (GUtilRing *)), "signature of gutil_ring_clear");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_compact), void (GUtilRing *)), "signature of gutil_ring_compact");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_data_at), gpointer (GUtilRing *, gint)), "signature of gutil_ring_data_at");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_drop), gint (GUtilRing *, gint)), "signature of gutil_ring_drop");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_drop_last), gint (GUtilRing *, gint)), "signature of gutil_ring_drop_last");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_flatten), gpointer *(GUtilRing *, gint *)), "signature of gutil_ring_flatten");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_get), gpointer (GUtilRing *)), "signature of gutil_ring_get");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_get_last), gpointer (GUtilRing *)), "signature of gutil_ring_get_last");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_max_size), gint (GUtilRing *)), "signature of gutil_ring_max_size");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_new), GUtilRing *(void)), "signature of gutil_ring_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_new_full), GUtilRing *(gint, gint, GDestroyNotify)), "signature of gutil_ring_new_full");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_put), gboolean (GUtilRing *, gpointer)), "signature of gutil_ring_put");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_put_front), gboolean (GUtilRing *, gpointer)), "signature of gutil_ring_put_front");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_ref), GUtilRing *(GUtilRing *)), "signature of gutil_ring_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_reserve), gboolean (GUtilRing *, gint)), "signature of gutil_ring_reserve");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_set_free_func), void (GUtilRing *, GDestroyNotify)), "signature of gutil_ring_set_free_func");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_set_max_size), void (GUtilRing *, gint)), "signature of gutil_ring_set_max_size");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_size), gint (GUtilRing *)), "signature of gutil_ring_size");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_sized_new), GUtilRing *(gint, gint)), "signature of gutil_ring_sized_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_ring_unref), void (GUtilRing *)), "signature of gutil_ring_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_signed_mbn_decode), gboolean (GUtilRange *, gint64 *)), "signature of gutil_signed_mbn_decode");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_signed_mbn_decode2), gboolean (const GUtilData *, gint64 *)), "signature of gutil_signed_mbn_decode2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_signed_mbn_encode), guint (gpointer, gint64)), "signature of gutil_signed_mbn_encode");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_signed_mbn_encode2), guint (gpointer, gint64, guint)), "signature of gutil_signed_mbn_encode2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_signed_mbn_size), guint (gint64)), "signature of gutil_signed_mbn_size");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_source_clear), gboolean (guint *)), "signature of gutil_source_clear");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_source_remove), gboolean (guint)), "signature of gutil_source_remove");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strlen0), gsize (const char *)), "signature of gutil_strlen0");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_add), GStrV *(GStrV *, const char *)), "signature of gutil_strv_add");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_addv), GStrV *(GStrV *, const char *, ...)), "signature of gutil_strv_addv");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_at), const char *(const GStrV *, guint)), "signature of gutil_strv_at");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_bsearch), int (GStrV *, const char *, gboolean)), "signature of gutil_strv_bsearch");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_contains), gboolean (const GStrV *, const char *)), "signature of gutil_strv_contains");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_equal), gboolean (const GStrV *, const GStrV *)), "signature of gutil_strv_equal");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_find), int (const GStrV *, const char *)), "signature of gutil_strv_find");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_find_last), int (const GStrV *, const char *)), "signature of gutil_strv_find_last");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_last), const char *(const GStrV *)), "signature of gutil_strv_last");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_length), guint (const GStrV *)), "signature of gutil_strv_length");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_remove), GStrV *(GStrV *, const char *, gboolean)), "signature of gutil_strv_remove");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_remove_at), GStrV *(GStrV *, int, gboolean)), "signature of gutil_strv_remove_at");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_remove_dups), GStrV *(GStrV *)), "signature of gutil_strv_remove_dups");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_sort), GStrV *(GStrV *, gboolean)), "signature of gutil_strv_sort");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_strv_strip), GStrV *(GStrV *)), "signature of gutil_strv_strip");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_time_notify_add_handler), gulong (GUtilTimeNotify *, GUtilTimeNotifyFunc, void *)), "signature of gutil_time_notify_add_handler");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_time_notify_new), GUtilTimeNotify *(void)), "signature of gutil_time_notify_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_time_notify_ref), GUtilTimeNotify *(GUtilTimeNotify *)), "signature of gutil_time_notify_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_time_notify_remove_handler), void (GUtilTimeNotify *, gulong)), "signature of gutil_time_notify_remove_handler");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_time_notify_unref), void (GUtilTimeNotify *)), "signature of gutil_time_notify_unref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_tlv_decode), guint (GUtilRange *, GUtilData *)), "signature of gutil_tlv_decode");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_tlv_encode), gsize (gpointer, guint, const GUtilData *)), "signature of gutil_tlv_encode");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_tlv_size), guint (guint, gsize)), "signature of gutil_tlv_size");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_tlvs_decode), int (const GUtilData *, const guint *, GUtilData *, GUTIL_TLVS_DECODE_FLAGS)), "signature of gutil_tlvs_decode");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_unsigned_mbn_decode), gboolean (GUtilRange *, guint64 *)), "signature of gutil_unsigned_mbn_decode");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_unsigned_mbn_decode2), gboolean (const GUtilData *, guint64 *)), "signature of gutil_unsigned_mbn_decode2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_unsigned_mbn_encode), guint (gpointer, guint64)), "signature of gutil_unsigned_mbn_encode");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_unsigned_mbn_encode2), guint (gpointer, guint64, guint)), "signature of gutil_unsigned_mbn_encode2");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_unsigned_mbn_size), guint (guint64)), "signature of gutil_unsigned_mbn_size");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_version_major), const guint), "type of gutil_version_major");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_version_micro), const guint), "type of gutil_version_micro");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_version_minor), const guint), "type of gutil_version_minor");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_weakref_get), gpointer (GUtilWeakRef *)), "signature of gutil_weakref_get");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_weakref_new), GUtilWeakRef *(gpointer)), "signature of gutil_weakref_new");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_weakref_ref), GUtilWeakRef *(GUtilWeakRef *)), "signature of gutil_weakref_ref");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_weakref_set), void (GUtilWeakRef *, gpointer)), "signature of gutil_weakref_set");
_Static_assert(__builtin_types_compatible_p(__typeof__(gutil_weakref_unref), void (GUtilWeakRef *)), "signature of gutil_weakref_unref");
_Static_assert(__builtin_types_compatible_p(GLogModule, struct glog_module), "type GLogModule");
_Static_assert(__builtin_types_compatible_p(GLogProc, void (*)(const char *, int, const char *, va_list)), "type GLogProc");
_Static_assert(__builtin_types_compatible_p(GLogProc2, void (*)(const GLogModule *, int, const char *, va_list)), "type GLogProc2");
_Static_assert(__builtin_types_compatible_p(GStrV, char *), "type GStrV");
_Static_assert(__builtin_types_compatible_p(GUTIL_TLVS_DECODE_FLAGS, enum gutil_tlvs_decode_flags), "type GUTIL_TLVS_DECODE_FLAGS");
_Static_assert(__builtin_types_compatible_p(GUtilData, struct gutil_data), "type GUtilData");
_Static_assert(__builtin_types_compatible_p(GUtilHistoryTimeFunc, gint64 (*)(void)), "type GUtilHistoryTimeFunc");
_Static_assert(__builtin_types_compatible_p(GUtilIdleFunc, void (*)(gpointer)), "type GUtilIdleFunc");
_Static_assert(__builtin_types_compatible_p(GUtilIdlePool, struct gutil_idle_pool), "type GUtilIdlePool");
_Static_assert(__builtin_types_compatible_p(GUtilIdleQueue, struct gutil_idle_queue), "type GUtilIdleQueue");
_Static_assert(__builtin_types_compatible_p(GUtilIdleQueueTag, gsize), "type GUtilIdleQueueTag");
_Static_assert(__builtin_types_compatible_p(GUtilInotifyWatch, struct gutil_inotify_watch), "type GUtilInotifyWatch");
_Static_assert(__builtin_types_compatible_p(GUtilInotifyWatchCallback, struct gutil_inotify_watch_callback), "type GUtilInotifyWatchCallback");
_Static_assert(__builtin_types_compatible_p(GUtilInotifyWatchFunc, void (*)(GUtilInotifyWatch *, guint, guint, const char *, void *)), "type GUtilInotifyWatchFunc");
_Static_assert(__builtin_types_compatible_p(GUtilIntArray, struct gutil_int_array), "type GUtilIntArray");
_Static_assert(__builtin_types_compatible_p(GUtilIntHistory, struct gutil_int_history), "type GUtilIntHistory");
_Static_assert(__builtin_types_compatible_p(GUtilInts, struct gutil_ints), "type GUtilInts");
_Static_assert(__builtin_types_compatible_p(GUtilRange, struct gutil_range), "type GUtilRange");
_Static_assert(__builtin_types_compatible_p(GUtilRing, struct gutil_ring), "type GUtilRing");
_Static_assert(__builtin_types_compatible_p(GUtilTimeNotify, struct gutil_time_notify), "type GUtilTimeNotify");
_Static_assert(__builtin_types_compatible_p(GUtilTimeNotifyFunc, void (*)(GUtilTimeNotify *, void *)), "type GUtilTimeNotifyFunc");
_Static_assert(__builtin_types_compatible_p(GUtilWeakRef, struct gutil_weakref), "type GUtilWeakRef");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct glog_module*)0)->name), const char *), "type of name in struct glog_module");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct glog_module*)0)->parent), const GLogModule *), "type of parent in struct glog_module");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct glog_module*)0)->log_proc), GLogProc2), "type of log_proc in struct glog_module");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct glog_module*)0)->max_level), int), "type of max_level in struct glog_module");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct glog_module*)0)->level), int), "type of level in struct glog_module");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct glog_module*)0)->flags), int), "type of flags in struct glog_module");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct glog_module*)0)->reserved2), int), "type of reserved2 in struct glog_module");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct gutil_data*)0)->bytes), const guint8 *), "type of bytes in struct gutil_data");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct gutil_data*)0)->size), gsize), "type of size in struct gutil_data");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct gutil_int_array*)0)->data), int *), "type of data in struct gutil_int_array");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct gutil_int_array*)0)->count), guint), "type of count in struct gutil_int_array");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct gutil_range*)0)->ptr), const guint8 *), "type of ptr in struct gutil_range");
_Static_assert(__builtin_types_compatible_p(__typeof__(((struct gutil_range*)0)->end), const guint8 *), "type of end in struct gutil_range");
_Static_assert(sizeof(struct glog_module) == 40, "size of struct glog_module");
_Static_assert(offsetof(struct glog_module, name) == 0, "place of name in struct glog_module");
_Static_assert(offsetof(struct glog_module, parent) == 8, "place of parent in struct glog_module");
_Static_assert(offsetof(struct glog_module, log_proc) == 16, "place of log_proc in struct glog_module");
_Static_assert(offsetof(struct glog_module, max_level) == 24, "place of max_level in struct glog_module");
_Static_assert(offsetof(struct glog_module, level) == 28, "place of level in struct glog_module");
_Static_assert(offsetof(struct glog_module, flags) == 32, "place of flags in struct glog_module");
_Static_assert(offsetof(struct glog_module, reserved2) == 36, "place of reserved2 in struct glog_module");
_Static_assert(sizeof(struct gutil_data) == 16, "size of struct gutil_data");
_Static_assert(offsetof(struct gutil_data, bytes) == 0, "place of bytes in struct gutil_data");
_Static_assert(offsetof(struct gutil_data, size) == 8, "place of size in struct gutil_data");
_Static_assert(sizeof(struct gutil_int_array) == 16, "size of struct gutil_int_array");
_Static_assert(offsetof(struct gutil_int_array, data) == 0, "place of data in struct gutil_int_array");
_Static_assert(offsetof(struct gutil_int_array, count) == 8, "place of count in struct gutil_int_array");
_Static_assert(sizeof(struct gutil_range) == 16, "size of struct gutil_range");
_Static_assert(offsetof(struct gutil_range, ptr) == 0, "place of ptr in struct gutil_range");
_Static_assert(offsetof(struct gutil_range, end) == 8, "place of end in struct gutil_range");
_Static_assert(GUTIL_TLVS_DECODE_NO_FLAGS == 0, "value of GUTIL_TLVS_DECODE_NO_FLAGS");
_Static_assert(GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS == 1, "value of GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS");
_Static_assert(GLOG_FLAG_DISABLE == 2, "value of GLOG_FLAG_DISABLE");
_Static_assert(GLOG_FLAG_HIDE_NAME == 1, "value of GLOG_FLAG_HIDE_NAME");
_Static_assert(GLOG_LEVEL_ALWAYS == -2, "value of GLOG_LEVEL_ALWAYS");
_Static_assert(GLOG_LEVEL_DEBUG == 4, "value of GLOG_LEVEL_DEBUG");
_Static_assert(GLOG_LEVEL_ERR == 1, "value of GLOG_LEVEL_ERR");
_Static_assert(GLOG_LEVEL_INFO == 3, "value of GLOG_LEVEL_INFO");
_Static_assert(GLOG_LEVEL_INHERIT == -1, "value of GLOG_LEVEL_INHERIT");
_Static_assert(GLOG_LEVEL_NONE == 0, "value of GLOG_LEVEL_NONE");
_Static_assert(GLOG_LEVEL_VERBOSE == 5, "value of GLOG_LEVEL_VERBOSE");
_Static_assert(GLOG_LEVEL_WARN == 2, "value of GLOG_LEVEL_WARN");
_Static_assert(GUTIL_HEXDUMP_BUFSIZE == 70, "value of GUTIL_HEXDUMP_BUFSIZE");
_Static_assert(GUTIL_HEXDUMP_MAXBYTES == 16, "value of GUTIL_HEXDUMP_MAXBYTES");
_Static_assert(GUTIL_RING_UNLIMITED_SIZE == -1, "value of GUTIL_RING_UNLIMITED_SIZE");
_Static_assert(GUTIL_TLVS_DECODE_DUPLICATE_TAG == -2, "value of GUTIL_TLVS_DECODE_DUPLICATE_TAG");
_Static_assert(GUTIL_TLVS_DECODE_ERROR == -1, "value of GUTIL_TLVS_DECODE_ERROR");
_Static_assert(GUTIL_TLVS_DECODE_UNKNOWN_TAG == -3, "value of GUTIL_TLVS_DECODE_UNKNOWN_TAG");
_Static_assert(GUTIL_HISTORY_SEC == 1000000, "value of GUTIL_HISTORY_SEC");
