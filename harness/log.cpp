// Replaces the log sink: a FATAL record (failed SCHECK) aborts the process in production, so it is a violation here;
// every other record is discarded (its arguments are not formatted).
#include "sx.h"
#include <sofa/pbrpc/common.h>
namespace sofa { namespace pbrpc {
namespace internal {
static LogLevel g_level = LOG_LEVEL_FATAL;
LogLevel get_log_level() { return g_level; }
void set_log_level(LogLevel) {}
void log_handler(LogLevel level, const char* file, int line, const char* fmt, ...) { if (level == LOG_LEVEL_FATAL) { sx_dbg(fmt, line); sx_fail("process abort: fatal check failed in the library"); } }
}
LogHandler* set_log_handler(LogHandler*) { return 0; }
const char* compile_info() { return ""; }
}}
