// Stand-in for the logging library, which takes two minutes to compile: the planners only hand it ready-made strings.
#pragma once
#include <string>
namespace spdlog {
    namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
    inline void set_level(level::level_enum) {}
    template <typename... T> inline void trace(const T&...) {}
    template <typename... T> inline void debug(const T&...) {}
    template <typename... T> inline void info(const T&...) {}
    template <typename... T> inline void warn(const T&...) {}
    template <typename... T> inline void error(const T&...) {}
    template <typename... T> inline void critical(const T&...) {}
}
