// Logging is switched off in the model: get_logger() returns NULL, so every basiclog_* macro is a no-op; using the NULL logger is a memory error.
#include "basiclog.h"
namespace basiclog {
void log_logger::init_logger(log_logger*) {}
log_logger* log_logger::get_logger() { return NULL; }
void log_logger::release() {}
bool log_logger::is_enable_debug() const { return m_enable_debug; }
bool log_logger::is_enable_info() const { return m_enable_info; }
bool log_logger::is_enable_warning() const { return m_enable_warning; }
bool log_logger::is_enable_error() const { return m_enable_error; }
void log_logger::print(const std::string&, const std::string&, const std::string&, const std::string&, int) {}
}
