#pragma once
#include <string>
#include <memory>
#include "fmt/fmt.h"
namespace spdlog { namespace level { enum level_enum { trace, debug, info, warn, err, critical, off, n_levels }; }
struct source_loc { const char* f = nullptr; int l = 0; const char* fn = nullptr; source_loc() {} source_loc(const char* a, int b, const char* c) : f(a), l(b), fn(c) {} };
template <class... A> inline void log(A&&...) {} template <class... A> inline void info(A&&...) {} template <class... A> inline void warn(A&&...) {} template <class... A> inline void error(A&&...) {} template <class... A> inline void debug(A&&...) {} template <class... A> inline void trace(A&&...) {} template <class... A> inline void critical(A&&...) {}
inline void set_pattern(std::string) {} inline void set_level(level::level_enum) {} inline bool should_log(level::level_enum) { return false; } inline level::level_enum get_level() { return level::off; }
struct logger { template <class... A> void log(A&&...) {} template <class... A> void info(A&&...) {} template <class... A> void warn(A&&...) {} template <class... A> void error(A&&...) {} void set_level(level::level_enum) {} level::level_enum level() const { return level::off; } void flush() {} };
inline logger* default_logger_raw() { static logger l; return &l; } inline std::shared_ptr<logger> default_logger() { return std::make_shared<logger>(); }
}
#define SPDLOG_INFO(...) (void)0
#define SPDLOG_WARN(...) (void)0
#define SPDLOG_ERROR(...) (void)0
#define SPDLOG_DEBUG(...) (void)0
