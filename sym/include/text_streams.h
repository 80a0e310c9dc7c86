// Text streams without locales.  Included before everything else: the real headers come first; after them std::stringstream, std::ostringstream and
// std::ostream mean the classes below.
#pragma once
#include <istream>
#include <ostream>
#include <iomanip>
#include <sstream>
#include <random>
#include <chrono>
#include <format>
#include <thread>
#include <functional>
#include <regex>
#include <map>
#include <memory>
#include <iterator>
#include <fstream>
#include <filesystem>
#include <cstdint>
#include <string>
#include <string_view>
#include <ion_decimal.h>
namespace std {
class ion_ostream {
protected:
    std::string b_;
    int base_ = 10, prec_ = 6; size_t width_ = 0; char fill_ = ' ';
    bool upper_ = false, fixed_ = false, left_ = false, boolalpha_ = false, showbase_ = false, showpos_ = false;
    void put_(const char* p, size_t n) {
        size_t pad = width_ > n ? width_ - n : 0;
        width_ = 0;
        if (!left_) b_.append(pad, fill_);
        b_.append(p, n);
        if (left_) b_.append(pad, fill_);
    }
    void num_(unsigned long long v, bool neg) {
        char t[72]; size_t i = sizeof t;
        do { unsigned d = (unsigned)(v % (unsigned)base_); t[--i] = (char)(d < 10 ? '0' + d : (upper_ ? 'A' : 'a') + (d - 10)); v /= (unsigned)base_; } while (v);
        if (showbase_ && base_ == 16) { t[--i] = upper_ ? 'X' : 'x'; t[--i] = '0'; }
        if (neg) t[--i] = '-'; else if (showpos_ && base_ == 10) t[--i] = '+';
        put_(t + i, sizeof t - i);
    }
public:
    virtual ~ion_ostream() = default;
    template <class I> requires(std::is_integral_v<I>) ion_ostream& operator<<(I v) {
        if constexpr (std::is_same_v<I, bool>) { if (boolalpha_) return *this << (v ? "true" : "false"); num_(v, false); }
        else if constexpr (sizeof(I) == 1) { char c = (char)v; put_(&c, 1); }
        else if constexpr (std::is_signed_v<I>) { if (base_ == 10) num_(v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0); else num_((std::make_unsigned_t<I>)v, false); }
        else num_(v, false);
        return *this;
    }
    ion_ostream& operator<<(const char* s) { put_(s, __builtin_strlen(s)); return *this; }
    ion_ostream& operator<<(std::string_view s) { put_(s.data(), s.size()); return *this; }
    ion_ostream& operator<<(const std::string& s) { put_(s.data(), s.size()); return *this; }
    ion_ostream& operator<<(double v) {          // fixed notation only
        std::string t;
        if (v < 0) t += '-';
        char f[80]; t.append(f, ion_fixed_decimal(v, prec_, f));
        put_(t.data(), t.size());
        return *this;
    }
    ion_ostream& operator<<(float v) { return *this << (double)v; }
    ion_ostream& operator<<(std::ios_base& (*m)(std::ios_base&)) {
        if (m == &std::hex) base_ = 16; else if (m == &std::dec) base_ = 10; else if (m == &std::oct) base_ = 8;
        else if (m == &std::fixed) fixed_ = true; else if (m == &std::defaultfloat || m == &std::scientific) fixed_ = false;
        else if (m == &std::left) left_ = true; else if (m == &std::right) left_ = false;
        else if (m == &std::uppercase) upper_ = true; else if (m == &std::nouppercase) upper_ = false;
        else if (m == &std::boolalpha) boolalpha_ = true; else if (m == &std::noboolalpha) boolalpha_ = false;
        else if (m == &std::showbase) showbase_ = true; else if (m == &std::noshowbase) showbase_ = false;
        else if (m == &std::showpos) showpos_ = true; else if (m == &std::noshowpos) showpos_ = false;
        return *this;
    }
    ion_ostream& operator<<(std::_Setprecision p) { prec_ = p._M_n; return *this; }
    ion_ostream& operator<<(std::_Setw w) { width_ = (size_t)w._M_n; return *this; }
    ion_ostream& operator<<(std::_Setfill<char> f) { fill_ = f._M_c; return *this; }
    ion_ostream& operator<<(ion_ostream& (*m)(ion_ostream&)) { return m(*this); }
    ion_ostream& operator<<(ion_file* f) { char c; while (f && f->get_(c)) b_ += c; return *this; }
    ion_ostream& operator<<(std::basic_ostream<char>& (*m)(std::basic_ostream<char>&)) { if (m == &std::endl<char, std::char_traits<char>>) b_ += '\n'; return *this; }
    ion_ostream& put(char c) { b_ += c; return *this; }
    ion_ostream& write(const char* p, long n) { b_.append(p, (size_t)n); return *this; }
    ion_ostream& flush() { return *this; }
    int precision(int p) { int o = prec_; prec_ = p; return o; }
    char fill(char c) { char o = fill_; fill_ = c; return o; }
    int width(int w) { int o = (int)width_; width_ = (size_t)w; return o; }
};
class ion_ostringstream : public ion_ostream {
public:
    ion_ostringstream() = default;
    explicit ion_ostringstream(const std::string& s) { b_ = s; }
    std::string str() const { return b_; }
    void str(const std::string& s) { b_ = s; }
    std::string_view view() const { return b_; }
    void clear() {}
    explicit operator bool() const { return true; }
    bool good() const { return true; }
    bool fail() const { return false; }
};
using ion_stringstream = ion_ostringstream;
}  // namespace std
#define stringstream ion_stringstream
#define ostringstream ion_ostringstream
#define ostream ion_ostream
