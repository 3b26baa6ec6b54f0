// Stand-in for rosconsole: arguments are evaluated only when fakeros::g_log is set, output goes nowhere.
#ifndef FAKE_ROS_CONSOLE_H
#define FAKE_ROS_CONSOLE_H
#include <sstream>
#include <iostream>
#include <iomanip>
#include <cstdio>
#include <cstdlib>
namespace fakeros { inline bool g_log = false; inline bool g_echo = false; inline unsigned long g_logcount = 0; }
#define FAKEROS_LOG(x) do { ++fakeros::g_logcount; if (fakeros::g_log) { std::ostringstream fakeros_ss_; fakeros_ss_ << x; \
  if (fakeros::g_echo) fprintf(stderr, "%s\n", fakeros_ss_.str().c_str()); } } while (0)
#define FAKEROS_LOGF(...) do { ++fakeros::g_logcount; if (fakeros::g_log) { char fakeros_b_[512]; snprintf(fakeros_b_, sizeof fakeros_b_, __VA_ARGS__); } } while (0)
#define FAKEROS_COND(c, x) do { if (c) FAKEROS_LOG(x); } while (0)
#define FAKEROS_ONCE(x) do { static bool fakeros_h_ = false; if (!fakeros_h_) { fakeros_h_ = true; FAKEROS_LOG(x); } } while (0)
#define ROS_DEBUG_STREAM(x) FAKEROS_LOG(x)
#define ROS_INFO_STREAM(x) FAKEROS_LOG(x)
#define ROS_WARN_STREAM(x) FAKEROS_LOG(x)
#define ROS_ERROR_STREAM(x) FAKEROS_LOG(x)
#define ROS_FATAL_STREAM(x) FAKEROS_LOG(x)
#define ROS_INFO_STREAM_ONCE(x) FAKEROS_ONCE(x)
#define ROS_WARN_STREAM_ONCE(x) FAKEROS_ONCE(x)
#define ROS_ERROR_STREAM_ONCE(x) FAKEROS_ONCE(x)
#define ROS_INFO_STREAM_COND(c, x) FAKEROS_COND(c, x)
#define ROS_WARN_STREAM_COND(c, x) FAKEROS_COND(c, x)
#define ROS_ERROR_STREAM_COND(c, x) FAKEROS_COND(c, x)
#define ROS_LOG_STREAM_THROTTLE(r, x) FAKEROS_LOG(x)
#define ROS_INFO_STREAM_THROTTLE(r, x) FAKEROS_LOG(x)
#define ROS_WARN_STREAM_THROTTLE(r, x) FAKEROS_LOG(x)
#define ROS_ERROR_STREAM_THROTTLE(r, x) FAKEROS_LOG(x)
#define ROS_DEBUG(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_INFO(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_WARN(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_ERROR(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_FATAL(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_INFO_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_INFO_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_WARN_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_INFO_THROTTLE(r, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_DEBUG_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_DEBUG_STREAM_ONCE(x) FAKEROS_ONCE(x)
#define ROS_DEBUG_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_COND(c, x) FAKEROS_COND(c, x)
#define ROS_DEBUG_THROTTLE(r, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_DEBUG_STREAM_THROTTLE(r, x) FAKEROS_LOG(x)
#define ROS_DEBUG_NAMED(n, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_DEBUG_STREAM_NAMED(n, x) FAKEROS_LOG(x)
#define ROS_INFO_NAMED(n, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_INFO_STREAM_NAMED(n, x) FAKEROS_LOG(x)
#define ROS_WARN_NAMED(n, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_WARN_STREAM_NAMED(n, x) FAKEROS_LOG(x)
#define ROS_ERROR_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_ERROR_STREAM_NAMED(n, x) FAKEROS_LOG(x)
#define ROS_FATAL_ONCE(...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_FATAL_STREAM_ONCE(x) FAKEROS_ONCE(x)
#define ROS_FATAL_COND(c, ...) do { if (c) FAKEROS_LOGF(__VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_COND(c, x) FAKEROS_COND(c, x)
#define ROS_FATAL_THROTTLE(r, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_FATAL_STREAM_THROTTLE(r, x) FAKEROS_LOG(x)
#define ROS_FATAL_NAMED(n, ...) FAKEROS_LOGF(__VA_ARGS__)
#define ROS_FATAL_STREAM_NAMED(n, x) FAKEROS_LOG(x)
#define ROS_ASSERT(c) do { if (!(c)) abort(); } while (0)
#define ROS_BREAK() abort()
#endif
