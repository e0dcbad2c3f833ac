// Verification stand-in for spdlog: log calls do nothing.  fmt::format substitutes strings, characters and whole numbers in
// order and throws when an argument is missing; numbers that are symbolic read "?" (their texts go to logs only).
#ifndef SHIM_SPDLOG_
#define SHIM_SPDLOG_
#include <memory>
#include <string>
#include <string_view>
#include <stdexcept>
#include <type_traits>
#include <vector>
#include <atomic>
#include <thread>
#include <mutex>
#include <functional>
#include <chrono>
#include <unordered_map>
extern "C" int sy_known(uint64_t v);
namespace spdlog
{
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
struct logger {
    template <class... A> void trace(A &&...) {}
    template <class... A> void debug(A &&...) {}
    template <class... A> void info(A &&...) {}
    template <class... A> void warn(A &&...) {}
    template <class... A> void error(A &&...) {}
    template <class... A> void critical(A &&...) {}
    void flush_on(level::level_enum) {}
    void flush() {}
    void set_level(level::level_enum) {}
    template <class... A> void set_pattern(A &&...) {}
};
namespace sinks
{
struct sink {
    void set_level(level::level_enum) {}
    template <class... A> void set_pattern(A &&...) {}
};
struct stdout_color_sink_mt : sink {};
struct stderr_color_sink_mt : sink {};
struct stdout_sink_mt : sink {};
struct basic_file_sink_mt : sink {
    template <class... A> basic_file_sink_mt(A &&...) {}
};
} // namespace sinks
typedef std::shared_ptr<sinks::sink> sink_ptr;
enum class async_overflow_policy { block, overrun_oldest };
struct async_logger : logger {
    template <class... A> async_logger(A &&...) {}
};
inline std::shared_ptr<logger> &theLogger()
{
    static std::shared_ptr<logger> l;
    return l;
}
inline void register_logger(std::shared_ptr<logger> l) { theLogger() = l; }
inline std::shared_ptr<logger> get(const std::string &) { return theLogger(); }
inline void init_thread_pool(size_t, size_t) {}
inline int thread_pool() { return 0; }
inline void shutdown() {}
inline void drop_all() {}
template <class... A> void set_level(A &&...) {}
template <class... A> void set_pattern(A &&...) {}
} // namespace spdlog
namespace fmt
{
struct format_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
namespace shim
{
template <class T> inline std::string show(const T &v)
{
    typedef std::decay_t<T> D;
    if constexpr (std::is_same_v<D, char>) return std::string(1, v);
    else if constexpr (std::is_same_v<D, bool>) return sy_known(v) ? (v ? "true" : "false") : "?";
    else if constexpr (std::is_integral_v<D>) return sy_known((uint64_t)v) ? std::to_string(v) : "?";
    else if constexpr (std::is_convertible_v<const T &, std::string_view>) return std::string(std::string_view(v));
    else return "?";
}
inline std::string put(std::string_view f, const std::string *a, size_t n)
{
    std::string o;
    size_t k = 0;
    for (size_t i = 0; i < f.size(); i++) {
        char c = f[i];
        if (c != '{' && c != '}') { o += c; continue; }
        if (i + 1 < f.size() && f[i + 1] == c) { o += c; i++; continue; }
        if (c == '}') throw format_error("unmatched '}' in format string");
        size_t e = i;
        while (e < f.size() && f[e] != '}') e++;
        if (e == f.size()) throw format_error("invalid format string");
        size_t w = k;
        if (i + 1 < e && f[i + 1] >= '0' && f[i + 1] <= '9') w = f[i + 1] - '0';
        else k++;
        if (w >= n) throw format_error("argument not found");
        o += a[w];
        i = e;
    }
    return o;
}
} // namespace shim
template <class S, class... A> inline std::string format(const S &f, A &&...a)
{
    std::string v[sizeof...(A) + 1] = {shim::show(a)...};
    return shim::put(std::string_view(f), v, sizeof...(A));
}
template <class T> inline std::string to_string(const T &v) { return shim::show(v); }
} // namespace fmt
#endif
