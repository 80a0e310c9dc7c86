// Stand-in for spdlog: diagnostics are dropped, the access logger hands its lines to the harness.
#pragma once
#include <cassert>
#include <cstring>
#include <ctime>
#include <exception>
#include <format>
#include <functional>
#include <algorithm>
#include <memory>
#include <optional>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <atomic>
#include <mutex>
extern "C" void ion_env_log_line(const char* data, unsigned long len);
extern "C" int ion_env_log_enabled();
namespace spdlog {
namespace level { enum level_enum : int { trace = 0, debug, info, warn, err, critical, off, n_levels }; }
using string_view_t = std::string_view;
class spdlog_ex : public std::exception {
    std::string m_;
public:
    explicit spdlog_ex(std::string m) : m_(std::move(m)) {}
    const char* what() const noexcept override { return m_.c_str(); }
};
class logger {
public:
    explicit logger(std::string name) : name_(std::move(name)) {}
    template <class... A> void log(level::level_enum l, std::format_string<A...> f, A&&... a) { emit(l, std::format(f, std::forward<A>(a)...)); }
    void log(level::level_enum l, std::string_view s) { emit(l, s); }
#define ION_LVL(n, l) \
    void n(std::string_view s) { emit(level::l, s); } \
    template <class A0, class... A> void n(std::format_string<A0, A...> f, A0&& a0, A&&... a) { emit(level::l, std::format(f, std::forward<A0>(a0), std::forward<A>(a)...)); }
    ION_LVL(trace, trace) ION_LVL(debug, debug) ION_LVL(info, info) ION_LVL(warn, warn) ION_LVL(error, err) ION_LVL(critical, critical)
#undef ION_LVL
    void set_pattern(std::string) {}
    void flush_on(level::level_enum) {}
    void flush() {}
    void set_level(level::level_enum l) { level_ = l; }
    bool should_log(level::level_enum l) const { return l >= level_; }
    const std::string& name() const { return name_; }
private:
    void emit(level::level_enum l, std::string_view s) { if (should_log(l)) ion_env_log_line(s.data(), s.size()); }
    std::string name_;
    level::level_enum level_ = level::info;
};
inline std::string& logFile();
inline std::shared_ptr<logger> get(const std::string& name) {
    if (!ion_env_log_enabled() && logFile().empty()) return nullptr;
    static std::shared_ptr<logger> l = std::make_shared<logger>(name);
    return l;
}
inline void (*onLog)(level::level_enum) = nullptr;      // told of every diagnostic message
#define ION_LVL(n, l) template <class F, class... A> inline void n(const F&, const A&...) { if (onLog) onLog(level::l); }
ION_LVL(trace, trace) ION_LVL(debug, debug) ION_LVL(info, info) ION_LVL(warn, warn) ION_LVL(error, err) ION_LVL(critical, critical)
#undef ION_LVL
template <class... A> inline void log(level::level_enum, const A&...) {}
inline level::level_enum& level_set() { static level::level_enum l = level::info; return l; }
inline void set_level(level::level_enum l) { level_set() = l; }
inline level::level_enum get_level() { return level_set(); }
inline bool should_log(level::level_enum) { return false; }
struct memory_buf_t { std::string s; void push_back(char c) { s.push_back(c); } void append(const char* a, const char* b) { s.append(a, b); } };
namespace details { struct log_msg {}; }
class formatter { public: virtual ~formatter() = default; };
class custom_flag_formatter { public: virtual ~custom_flag_formatter() = default; virtual void format(const details::log_msg&, const std::tm&, memory_buf_t&) = 0; virtual std::unique_ptr<custom_flag_formatter> clone() const = 0; };
class pattern_formatter : public formatter {
public:
    template <class T, class... A> pattern_formatter& add_flag(char c, A&&... a) { flags[c] = std::make_unique<T>(std::forward<A>(a)...); return *this; }
    void set_pattern(std::string p) { pattern = std::move(p); }
    std::map<char, std::unique_ptr<custom_flag_formatter>> flags;
    std::string pattern;
};
inline std::unique_ptr<formatter>& theFormatter() { static std::unique_ptr<formatter> f; return f; }
inline void set_formatter(std::unique_ptr<formatter> f) { theFormatter() = std::move(f); }
inline void set_pattern(std::string) {}
inline std::string& logFile() { static std::string f; return f; }          // where the access logger writes
inline bool& logFileFails() { static bool f = false; return f; }
inline std::shared_ptr<logger> basic_logger_mt(const std::string& n, const std::string& f) { if (logFileFails()) throw spdlog_ex("cannot open"); logFile() = f; return std::make_shared<logger>(n); }
}  // namespace spdlog
