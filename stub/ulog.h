/* Stand-in for libulog's <ulog.h>: the logging macros type-check their
 * arguments but produce nothing.  Everything else follows libulog. */
#ifndef VERIF_ULOG_H
#define VERIF_ULOG_H
#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define ULOG_DECLARE_TAG(_t)
#define VERIF_LOG(...) do { } while (0)
#define ULOGC(...) VERIF_LOG(__VA_ARGS__)
#define ULOGE(...) VERIF_LOG(__VA_ARGS__)
#define ULOGW(...) VERIF_LOG(__VA_ARGS__)
#define ULOGN(...) VERIF_LOG(__VA_ARGS__)
#define ULOGI(...) VERIF_LOG(__VA_ARGS__)
#define ULOGD(...) VERIF_LOG(__VA_ARGS__)
#define ULOG_ERRNO(_fmt, _err, ...) VERIF_LOG(_fmt)
#define ULOGE_ERRNO(_err, _fmt, ...) VERIF_LOG(_fmt)
#define ULOGW_ERRNO(_err, _fmt, ...) VERIF_LOG(_fmt)
#define ULOG_ERRNO_RETURN_IF(_cond, _err) \
	do { if (_cond) return; } while (0)
#define ULOG_ERRNO_RETURN_ERR_IF(_cond, _err) \
	do { if (_cond) return -(_err); } while (0)
#define ULOG_ERRNO_RETURN_VAL_IF(_cond, _err, _val) \
	do { if (_cond) return (_val); } while (0)
#endif
