// Stand-in for the few names the logger uses; messages are dropped.
#pragma once
#include <cstdarg>
namespace google {
using LogSeverity = int;
enum { GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3 };
inline void RawLog__(LogSeverity, const char*, int, const char*, ...) {}
inline bool IsGoogleLoggingInitialized() { return true; }
inline void InitGoogleLogging(const char*) {}
inline void ShutdownGoogleLogging() {}
}  // namespace google
