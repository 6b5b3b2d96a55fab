#ifndef LIBSWIFTNAV_LOGGING_H
#define LIBSWIFTNAV_LOGGING_H
#include <swiftnav/macros.h>
#ifdef __cplusplus
extern "C" {
#endif
#define LOG_EMERG 0
#define LOG_ALERT 1
#define LOG_CRIT 2
#define LOG_ERROR 3
#define LOG_WARN 4
#define LOG_NOTICE 5
#define LOG_INFO 6
#define LOG_DEBUG 7
#define SWIFT_ATTR_FORMAT_STRING
typedef void (*pfn_log)(int level, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
typedef void (*pfn_detailed_log)(int level, const char *file_path, int line_number, const char *fmt, ...);
void shim_log(int level, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* The installed sink; NULL selects the default one (counts by level). */
extern pfn_log shim_log_sink;
void logging_set_implementation(pfn_log log, pfn_detailed_log detailed_log);
#define log_emerg(...) (shim_log_sink ? shim_log_sink : shim_log)(LOG_EMERG, __VA_ARGS__)
#define log_alert(...) (shim_log_sink ? shim_log_sink : shim_log)(LOG_ALERT, __VA_ARGS__)
#define log_crit(...) (shim_log_sink ? shim_log_sink : shim_log)(LOG_CRIT, __VA_ARGS__)
#define log_error(...) (shim_log_sink ? shim_log_sink : shim_log)(LOG_ERROR, __VA_ARGS__)
#define log_warn(...) (shim_log_sink ? shim_log_sink : shim_log)(LOG_WARN, __VA_ARGS__)
#define log_notice(...) (shim_log_sink ? shim_log_sink : shim_log)(LOG_NOTICE, __VA_ARGS__)
#define log_info(...) (shim_log_sink ? shim_log_sink : shim_log)(LOG_INFO, __VA_ARGS__)
#define log_debug(...) (shim_log_sink ? shim_log_sink : shim_log)(LOG_DEBUG, __VA_ARGS__)
#ifdef __cplusplus
}
#endif
#endif
