// Runtime support linked into the bitcode for the engine: the parts of libstdc++/libc that exist only as
// compiled libraries.  The native replay uses the real libraries instead.
#include <ionsym.h>
#include <ion_decimal.h>
#include <cerrno>
#include <charconv>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>

extern "C" {
char __libc_single_threaded = 1;
void* __dso_handle = nullptr;
int strcmp(const char* a, const char* b) {
    for (;; ++a, ++b) {
        unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int strncmp(const char* a, const char* b, size_t n) {
    for (; n; ++a, ++b, --n) {
        unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
char* ion_strchr(const char* s, int c) __asm__("strchr");
char* ion_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
char* ion_strstr(const char* h, const char* n) __asm__("strstr");
char* ion_strstr(const char* h, const char* n) {
    for (;; ++h) {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) ++i;
        if (!n[i]) return (char*)h;
        if (!*h) return nullptr;
    }
}
char* ion_strrchr(const char* s, int c) __asm__("strrchr");
char* ion_strrchr(const char* s, int c) { char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
void ion_printf_conversion_outside_the_model();
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
    size_t n = 0;
    auto put = [&](char c) { if (n + 1 < cap) out[n] = c; ++n; };
    for (; *f; ++f) {
        if (*f != '%') { put(*f); continue; }
        ++f;
        if (*f == '%') { put('%'); continue; }
        bool left = false, zero = false, plus = false, alt = false;
        for (;; ++f) {
            if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else break;
        }
        long width = 0, prec = -1;
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } ++f; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        int size = 4;
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { size = *f == 'h' ? (size == 2 ? 1 : 2) : 8; ++f; }
        char t[80]; size_t i = sizeof t, len; const char* p; char sign = 0; bool hex0 = false;
        switch (*f) {
            case 's': { p = va_arg(ap, const char*); len = 0; while ((prec < 0 || len < (size_t)prec) && p[len]) ++len; zero = false; break; }
            case 'c': { t[--i] = (char)va_arg(ap, int); p = t + i; len = 1; zero = false; break; }
            case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
                bool sgn = *f == 'd' || *f == 'i';
                if (*f == 'p') { size = 8; alt = true; }
                unsigned long v = size == 8 ? va_arg(ap, unsigned long) : sgn ? (unsigned long)(long)va_arg(ap, int) : (unsigned long)va_arg(ap, unsigned);
                if (size == 2) v = sgn ? (unsigned long)(long)(short)v : (unsigned short)v;
                if (size == 1) v = sgn ? (unsigned long)(long)(signed char)v : (unsigned char)v;
                if (sgn) { if ((long)v < 0) { sign = '-'; v = 0ul - v; } else if (plus) sign = '+'; }
                unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
                hex0 = alt && base == 16 && v;
                if (base == 16) for (; v; v >>= 4) { unsigned d = (unsigned)(v & 15); t[--i] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + (d - 10)); }
                else if (v <= 0xffffffffu) for (unsigned w = (unsigned)v; w; w /= base) t[--i] = (char)('0' + w % base);
                else for (; v; v /= base) t[--i] = (char)('0' + v % base);
                long want = prec < 0 ? 1 : prec;
                while ((long)(sizeof t - i) < want && i > 4) t[--i] = '0';
                if (prec >= 0) zero = false;
                p = t + i; len = sizeof t - i;
                break;
            }
            case 'f': {
                double d = va_arg(ap, double);
                if (d < 0) sign = '-';
                if (prec < 0) prec = 6;
                if (prec > 15) { ion_printf_conversion_outside_the_model(); prec = 15; }
                char ft[80]; size_t fl = ion_fixed_decimal(d, (int)prec, ft);
                i -= fl; memcpy(t + i, ft, fl);
                p = t + i; len = sizeof t - i;
                break;
            }
            default: ion_printf_conversion_outside_the_model(); p = t; len = 0;
        }
        size_t full = len + (sign ? 1 : 0) + (hex0 ? 2 : 0), pad = (size_t)width > full ? (size_t)width - full : 0;
        if (!left && !zero) for (; pad; --pad) put(' ');
        if (sign) put(sign);
        if (hex0) { put('0'); put(*f == 'X' ? 'X' : 'x'); }
        if (!left && zero) for (; pad; --pad) put('0');
        for (size_t k = 0; k < len; ++k) put(p[k]);
        if (left) for (; pad; --pad) put(' ');
    }
    if (cap) out[n < cap ? n : cap - 1] = 0;
    return (int)n;
}
int snprintf(char* out, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, cap, f, ap); va_end(ap); return r; }
int sprintf(char* out, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, (size_t)1 << 30, f, ap); va_end(ap); return r; }
// what the library prints goes nowhere
FILE* stdin = nullptr; FILE* stdout = nullptr; FILE* stderr = nullptr;
int printf(const char*, ...) { return 1; }
int fprintf(FILE*, const char*, ...) { return 1; }
int vfprintf(FILE*, const char*, va_list) { return 1; }
int puts(const char*) { return 1; }
int fputs(const char*, FILE*) { return 1; }
int fputc(int c, FILE*) { return c; }
int fflush(FILE*) { return 0; }
char* strerror(int) { static char t[] = "error"; return t; }
unsigned long strtoul(const char* s, char** e, int base) {
    unsigned long r = 0; const char* p = s;
    if (base != 10 && base != 0) { if (e) *e = (char*)s; return 0; }
    while (isspace((unsigned char)*p)) ++p;
    bool neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
    const char* d = p;
    while (isdigit((unsigned char)*p)) { r = r * 10 + (unsigned long)(*p - '0'); ++p; }
    if (e) *e = (char*)(p == d ? s : p);
    return neg ? 0 - r : r;
}
long strtol(const char* s, char** e, int base) { return (long)strtoul(s, e, base); }
unsigned long long strtoull(const char* s, char** e, int base) { return strtoul(s, e, base); }
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
}

namespace std {
// any hash is a conforming hash; the constant keeps look-ups symbolic-friendly (all keys in one bucket)
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 0; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}  // namespace __detail

// red-black tree without the rebalancing: the ordering contract is all the callers rely on
static _Rb_tree_node_base* rbmin(_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base* rbmax(_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) return rbmin(x->_M_right);
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;   // header
    if (x->_M_left) return rbmax(x->_M_left);
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o) h._M_parent = n;
        else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
        else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = rbmin(z->_M_right);
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    else {
        if (h._M_left == z) h._M_left = rbmin(h._M_parent);
        if (h._M_right == z) h._M_right = rbmax(h._M_parent);
    }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    auto fix = [](_List_node_base& a, _List_node_base& old) {
        if (a._M_next == &old) a._M_next = a._M_prev = &a; else a._M_next->_M_prev = a._M_prev->_M_next = &a;
    };
    auto t = x._M_next; x._M_next = y._M_next; y._M_next = t;
    t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
    fix(x, y); fix(y, x);
}
void _List_node_base::_M_reverse() noexcept { auto* p = this; do { auto* n = p->_M_next; p->_M_next = p->_M_prev; p->_M_prev = n; p = n; } while (p != this); }
}  // namespace __detail

// exceptions
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

// the message of an exception: a plain C string owned by the object
static const char* dupz(const char* s, size_t n) { char* p = (char*)__builtin_malloc(n + 1); __builtin_memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupz("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupz(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupz(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupz(o._M_p, __builtin_strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
    if (this != &o) { __builtin_free((void*)_M_p); _M_p = dupz(o._M_p, __builtin_strlen(o._M_p)); }
    return *this;
}
__cow_string::~__cow_string() { __builtin_free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupz("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define STR(x) (*(const char* const*)&(x))
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return STR(_M_msg); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return STR(_M_msg); }
#define DERIVED(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
DERIVED(domain_error, logic_error)
DERIVED(invalid_argument, logic_error)
DERIVED(length_error, logic_error)
DERIVED(out_of_range, logic_error)
DERIVED(range_error, runtime_error)
DERIVED(overflow_error, runtime_error)
DERIVED(underflow_error, runtime_error)

inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition& c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code& c, int v) const noexcept { return c.category() == *this && c.value() == v; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
namespace {
struct Cat final : error_category {
    const char* n;
    constexpr explicit Cat(const char* x) : n(x) {}
    const char* name() const noexcept override { return n; }
    string message(int) const override { return "error"; }
};
const Cat gc{"generic"}, sc{"system"};
}
const error_category& generic_category() noexcept { return gc; }
const error_category& system_category() noexcept { return sc; }
}  // namespace _V2
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

to_chars_result to_chars(char* first, char* last, double v, chars_format f, int prec) noexcept {
    if (f != chars_format::fixed || prec > 15) ion_printf_conversion_outside_the_model();
    char t[80]; size_t n = 0;
    if (__builtin_signbit(v)) t[n++] = '-';
    n += ion_fixed_decimal(v, prec < 0 ? 6 : prec, t + n);
    if ((size_t)(last - first) < n) return {last, errc::value_too_large};
    memcpy(first, t, n);
    return {first + n, errc{}};
}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_bad_function_call() { throw bad_function_call(); }
}  // namespace std

// sized and array forms the engine has no entry for resolve to the engine's own operators
