// Stand-in for CLI11 (2.x): the options, flags, defaults, validators and environment fallbacks of one flat command.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <filesystem>
#include <functional>
#include <initializer_list>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <limits>
namespace CLI {
class Error : public std::runtime_error {
    int code_; std::string name_;
public:
    Error(std::string name, std::string msg, int code = 127) : std::runtime_error(msg), code_(code), name_(std::move(name)) {}
    int get_exit_code() const { return code_; }
    std::string get_name() const { return name_; }
};
#define CLI_ERR(n, base, code) struct n : base { explicit n(std::string m = #n) : base(#n, m, code) {} n(std::string a, std::string m, int c = code) : base(a, m, c) {} }
CLI_ERR(ConstructionError, Error, 100);
CLI_ERR(ParseError, Error, 127);
CLI_ERR(Success, ParseError, 0);
CLI_ERR(CallForHelp, Success, 0);
CLI_ERR(CallForVersion, Success, 0);
CLI_ERR(ConversionError, ParseError, 104);
struct ValidationError : ParseError { explicit ValidationError(std::string m) : ParseError("ValidationError", m, 105) {} ValidationError(std::string n, std::string m) : ParseError("ValidationError", n + ": " + m, 105) {} };
CLI_ERR(RequiredError, ParseError, 106);
CLI_ERR(RequiresError, ParseError, 107);
CLI_ERR(ExcludesError, ParseError, 108);
CLI_ERR(ExtrasError, ParseError, 109);
CLI_ERR(ArgumentMismatch, ParseError, 114);
#undef CLI_ERR
namespace detail {
inline bool number(const std::string& s, bool neg_ok, bool& neg, unsigned long long& v) {
    size_t i = 0; neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; }
    if (neg && !neg_ok) return false;
    unsigned base = 10;
    if (s.size() > i + 1 && s[i] == '0') { if (s[i + 1] == 'x' || s[i + 1] == 'X') { base = 16; i += 2; } else { base = 8; ++i; } }
    if (i >= s.size()) return false;
    v = 0;
    for (; i < s.size(); ++i) {
        unsigned char c = (unsigned char)s[i]; unsigned d;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10u; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10u; else return false;
        if (d >= base || v > (~0ull - d) / base) return false;
        v = v * base + d;
    }
    return true;
}
template <class T> concept Num = std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>;
template <class T> inline bool cast(const std::string& s, T& out) {
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::filesystem::path>) { out = s; return true; }
    else if constexpr (std::is_same_v<T, bool>) {
        if (s == "true" || s == "1" || s == "on" || s == "yes" || s == "enable" || s == "y" || s == "t" || s == "+") { out = true; return true; }
        if (s == "false" || s == "0" || s == "off" || s == "no" || s == "disable" || s == "n" || s == "f" || s == "-") { out = false; return true; }
        return false;
    }
    else if constexpr (Num<T>) {
        bool neg; unsigned long long v;
        if (!number(s, std::is_signed_v<T>, neg, v)) return false;
        if (neg ? v > (unsigned long long)std::numeric_limits<T>::max() + 1 : v > (unsigned long long)std::numeric_limits<T>::max()) return false;
        out = neg ? (T)(0 - v) : (T)v;
        return true;
    }
    else if constexpr (requires { typename T::value_type; out.has_value(); }) { typename T::value_type x{}; if (!cast(s, x)) return false; out = x; return true; }
    else static_assert(!sizeof(T), "unknown option type");
}
inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
template <class X> inline std::string text(const X& x) {
    if constexpr (std::is_convertible_v<const X&, std::string_view>) return std::string(std::string_view(x));
    else if constexpr (std::is_same_v<X, bool>) return x ? "true" : "false";
    else if constexpr (std::is_integral_v<X>) return std::to_string(x);
    else if constexpr (std::is_same_v<X, std::filesystem::path>) return x.string();
    else return "";
}
}  // namespace detail
inline std::string ignore_case(std::string s) { return detail::lower(s); }
inline std::string ignore_space(std::string s) { std::string r; for (char c : s) if (c != ' ') r += c; return r; }
// returns an empty string, or what is wrong; may change the text when used as a transformation
struct Validator {
    std::function<std::string(std::string&)> f;
    Validator& description(std::string) { return *this; }
    Validator operator|(const Validator& o) const { auto a = f, b = o.f; return {[a, b](std::string& s) { std::string r = a(s); return r.empty() ? r : b(s); }}; }
    Validator operator&(const Validator& o) const { auto a = f, b = o.f; return {[a, b](std::string& s) { std::string r = a(s); return r.empty() ? b(s) : r; }}; }
};
struct Range : Validator {
    template <class T> Range(T lo, T hi, std::string = "") { f = [lo, hi](std::string& s) { T v{}; if (!detail::cast(s, v) || v < lo || v > hi) return std::string("out of range"); return std::string(); }; }
    template <class T> explicit Range(T hi) : Range((T)0, hi) {}
};
struct IsMember : Validator {
    using Filter = std::function<std::string(std::string)>;
    static std::string find(const std::vector<std::string>& set, std::vector<Filter>& fl, std::string& s) {
        auto norm = [&](std::string x) { for (auto& g : fl) x = g(x); return x; };
        for (auto& x : set) if (x == s) return "";
        std::string k = norm(s);
        for (auto& x : set) if (norm(x) == k) { s = x; return ""; }
        return "not a member";
    }
    template <class... F> IsMember(std::initializer_list<const char*> l, F... fl) { std::vector<std::string> set(l.begin(), l.end()); std::vector<Filter> v{Filter(fl)...}; f = [set, v](std::string& s) mutable { return find(set, v, s); }; }
    template <class C, class... F> requires requires(C c) { c.begin(); } IsMember(const C& l, F... fl) { std::vector<std::string> set; for (auto& x : l) set.push_back(detail::text(x)); std::vector<Filter> v{Filter(fl)...}; f = [set, v](std::string& s) mutable { return find(set, v, s); }; }
};
struct PositiveNumberT : Validator { PositiveNumberT() { f = [](std::string& s) { long v = 0; return detail::cast(s, v) && v > 0 ? std::string() : std::string("not positive"); }; } };
inline const PositiveNumberT PositiveNumber{};
struct PathKind : Validator { explicit PathKind(int k) { f = [k](std::string& s) { std::error_code ec; bool e = std::filesystem::exists(s, ec), d = std::filesystem::is_directory(s, ec); return (k == 0 ? e : k == 1 ? e && !d : d) ? std::string() : std::string("no such path"); }; } };
inline const PathKind ExistingPath{0}, ExistingFile{1}, ExistingDirectory{2};
enum class MultiOptionPolicy { Throw, TakeLast, TakeFirst, TakeAll };
class App;
class Option {
public:
    std::vector<std::string> longs, shorts;
    int minItems = 1, maxItems = 1;
    bool flag = false, version = false, vec = false, req = false;
    std::string versionText, env;
    std::vector<std::pair<Validator, bool>> checks;       // second: may change the text
    std::vector<std::string> got;
    std::function<bool(const std::vector<std::string>&)> store;
    std::vector<Option*> need, exclude;
    MultiOptionPolicy policy = MultiOptionPolicy::Throw;
    std::string name() const { return longs.empty() ? "-" + shorts[0] : "--" + longs[0]; }
    size_t count() const { return got.size(); }
    explicit operator bool() const { return !got.empty(); }
    template <class X> Option* default_val(const X& x) {
        std::string t = detail::text(x);
        auto old = got;
        got = {t};
        finish();
        got = old;
        return this;
    }
    Option* default_str(std::string) { return this; }
    Option* default_function(std::function<std::string()>) { return this; }
    Option* capture_default_str() { return this; }
    Option* check(Validator v, std::string = "") { checks.push_back({v, false}); return this; }
    Option* check(std::function<std::string(const std::string&)> v, std::string = "", std::string = "") { checks.push_back({Validator{[v](std::string& s) { return v(s); }}, false}); return this; }
    Option* transform(Validator v, std::string = "") { checks.insert(checks.begin(), {v, true}); return this; }
    Option* expected(int n) { if (n >= 0) minItems = maxItems = n; else { minItems = -n; maxItems = 1 << 29; } return this; }
    Option* expected(int lo, int hi) { minItems = lo; maxItems = hi; return this; }
    Option* envname(std::string n) { env = std::move(n); return this; }
    Option* required(bool r = true) { req = r; return this; }
    Option* needs(Option* o) { need.push_back(o); return this; }
    Option* excludes(Option* o) { exclude.push_back(o); return this; }
    Option* group(std::string) { return this; }
    Option* description(std::string) { return this; }
    Option* type_name(std::string) { return this; }
    Option* option_text(std::string) { return this; }
    Option* configurable(bool = true) { return this; }
    Option* ignore_case(bool = true) { return this; }
    Option* allow_extra_args(bool = true) { return this; }
    Option* multi_option_policy(MultiOptionPolicy p) { policy = p; return this; }
    Option* take_last() { policy = MultiOptionPolicy::TakeLast; return this; }
    Option* take_first() { policy = MultiOptionPolicy::TakeFirst; return this; }
    void finish() {
        std::vector<std::string> v = got;
        if (!vec) {
            if (v.size() > 1 && policy == MultiOptionPolicy::Throw) throw ArgumentMismatch(name() + ": given more than once");
            if (v.size() > 1) v = {policy == MultiOptionPolicy::TakeFirst ? v.front() : v.back()};
        } else if (!flag && ((int)v.size() < minItems || (int)v.size() > maxItems)) throw ArgumentMismatch(name() + ": wrong number of values");
        for (auto& s : v) for (auto& [c, change] : checks) { std::string t = s; std::string e = c.f(t); if (!e.empty()) throw ValidationError(name(), e); if (change) s = t; }
        if (store && !store(v)) throw ConversionError(name() + ": cannot be converted");
    }
};
class App {
    std::vector<std::unique_ptr<Option>> opts_;
    static bool isLong(const std::string& s) { return s.size() > 2 && s[0] == '-' && s[1] == '-' && s[2] != '-'; }
    static bool isShort(const std::string& s) { return s.size() > 1 && s[0] == '-' && s[1] != '-'; }
    Option* make(const std::string& names) {
        auto o = std::make_unique<Option>();
        size_t i = 0;
        while (i <= names.size()) {
            size_t j = names.find(',', i);
            if (j == std::string::npos) j = names.size();
            std::string n = names.substr(i, j - i);
            while (!n.empty() && n[0] == ' ') n.erase(0, 1);
            if (isLong(n)) o->longs.push_back(n.substr(2)); else if (isShort(n)) o->shorts.push_back(n.substr(1)); else throw ConstructionError("positional options are not modelled");
            i = j + 1;
        }
        opts_.push_back(std::move(o));
        return opts_.back().get();
    }
    Option* find(const std::string& n, bool lng) { for (auto& o : opts_) for (auto& x : lng ? o->longs : o->shorts) if (x == n) return o.get(); return nullptr; }
    bool known(const std::string& s) { return (isLong(s) && find(s.substr(2, s.find('=') == std::string::npos ? std::string::npos : s.find('=') - 2), true)) || (isShort(s) && find(s.substr(1, 1), false)) || s == "--"; }
public:
    explicit App(std::string = "", std::string = "") {
        auto* h = make("-h,--help"); h->flag = true; h->store = nullptr; h->minItems = h->maxItems = 0;
    }
    template <class T> Option* add_option(std::string names, T& var, std::string = "") {
        auto* o = make(names);
        T* v = &var;
        if constexpr (requires { var.push_back(var.front()); } && !std::is_same_v<T, std::string>) {
            o->vec = true; o->maxItems = 1 << 29;
            o->store = [v](const std::vector<std::string>& a) { v->clear(); for (auto& s : a) { typename T::value_type x{}; if (!detail::cast(s, x)) return false; v->push_back(x); } return true; };
        } else o->store = [v](const std::vector<std::string>& a) { if (a[0].empty() && detail::Num<T>) { if constexpr (detail::Num<T>) *v = 0; return true; } return detail::cast(a[0], *v); };
        return o;
    }
    template <class F> requires std::is_invocable_v<F, const std::string&> Option* add_option_function(std::string names, F f, std::string = "") { auto* o = make(names); o->store = [f](const std::vector<std::string>& a) { f(a[0]); return true; }; return o; }
    template <class T> Option* add_flag(std::string names, T& var, std::string = "") {
        auto* o = make(names);
        T* v = &var;
        o->flag = true; o->minItems = o->maxItems = 0;
        o->policy = MultiOptionPolicy::TakeLast;
        o->store = [v](const std::vector<std::string>& a) { return detail::cast(a[0], *v); };
        return o;
    }
    Option* set_version_flag(std::string names, const std::string& text, std::string = "") { auto* o = make(names); o->flag = o->version = true; o->minItems = o->maxItems = 0; o->versionText = text; return o; }
    Option* set_help_flag(std::string = "", std::string = "") { return opts_[0].get(); }
    void description(std::string) {}
    App* footer(std::string) { return this; }
    App* allow_extras(bool = true) { return this; }
    void parse(int argc, const char* const* argv) {
        std::vector<std::string> a;
        for (int i = 1; i < argc; ++i) a.emplace_back(argv[i]);
        parse(a);
    }
    void parse(const std::vector<std::string>& a) {
        bool extra = false;
        for (auto& o : opts_) o->got.clear();
        for (size_t i = 0; i < a.size();) {
            const std::string& s = a[i++];
            Option* o = nullptr;
            std::string value; bool has = false;
            if (isLong(s)) {
                size_t e = s.find('=');
                o = find(s.substr(2, e == std::string::npos ? e : e - 2), true);
                if (e != std::string::npos) { value = s.substr(e + 1); has = !value.empty(); }
            } else if (isShort(s)) {
                o = find(s.substr(1, 1), false);
                if (s.size() > 2) { value = s.substr(2); has = true; if (o && o->flag) throw ExtrasError("combined flags are not modelled"); }
            }
            if (!o) { extra = true; continue; }
            if (o->flag) { o->got.push_back(has ? value : "true"); continue; }
            int n = 0;
            if (has) { o->got.push_back(value); ++n; }
            while (n < 1 && i < a.size()) { o->got.push_back(a[i++]); ++n; }
            if (n < 1) throw ArgumentMismatch(o->name() + ": value missing");
            while (o->vec && n < o->maxItems && i < a.size() && !known(a[i])) { o->got.push_back(a[i++]); ++n; }
        }
        for (auto& o : opts_) if (o->got.empty() && !o->env.empty()) if (const char* e = std::getenv(o->env.c_str()); e && *e) o->got.push_back(e);
        if (!opts_[0]->got.empty()) throw CallForHelp();
        for (auto& o : opts_) if (o->version && !o->got.empty()) throw CallForVersion(o->versionText);
        for (auto& o : opts_) if (!o->got.empty() && o.get() != opts_[0].get()) o->finish();
        for (auto& o : opts_) {
            if (o->req && o->got.empty()) throw RequiredError(o->name());
            if (!o->got.empty()) { for (auto* n : o->need) if (n->got.empty()) throw RequiresError(o->name()); for (auto* n : o->exclude) if (!n->got.empty()) throw ExcludesError(o->name()); }
        }
        if (extra) throw ExtrasError("The following argument was not expected");
    }
    int exit(const Error& e) const { return e.get_exit_code(); }
    std::string help() const { return ""; }
};
}  // namespace CLI
#define CLI11_PARSE(app, ...) try { (app).parse(__VA_ARGS__); } catch (const CLI::ParseError& e) { return (app).exit(e); }
