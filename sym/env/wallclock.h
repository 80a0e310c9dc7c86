// The wall clock, the local time zone and strftime.
#pragma once
#include <ionsym.h>
#include <cstring>
#include <ctime>
#include <string>
namespace wall {
inline long long now_ns = 1'700'000'000'000'000'000;
inline struct tm local{};            // what the library says the local time is
inline time_t asked = 0;
inline size_t calls = 0;
inline void two(char*& p, int v) { *p++ = (char)('0' + v / 10); *p++ = (char)('0' + v % 10); }
inline const char* kMonth[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
inline const char* kDay[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
inline size_t format(char* out, size_t max, const char* f, const struct tm* t) {
    char b[512]; char* p = b;
    for (; *f; ++f) {
        if (*f != '%') { *p++ = *f; continue; }
        ++f;
        switch (*f) {
            case 'd': two(p, t->tm_mday); break;
            case 'e': if (t->tm_mday < 10) { *p++ = ' '; *p++ = (char)('0' + t->tm_mday); } else two(p, t->tm_mday); break;
            case 'm': two(p, t->tm_mon + 1); break;
            case 'b': case 'h': memcpy(p, kMonth[sym_concretize((uint64_t)t->tm_mon) % 12], 3); p += 3; break;
            case 'a': memcpy(p, kDay[sym_concretize((uint64_t)t->tm_wday) % 7], 3); p += 3; break;
            case 'Y': two(p, (t->tm_year + 1900) / 100); two(p, (t->tm_year + 1900) % 100); break;
            case 'y': two(p, t->tm_year % 100); break;
            case 'H': two(p, t->tm_hour); break;
            case 'I': two(p, (t->tm_hour + 11) % 12 + 1); break;
            case 'M': two(p, t->tm_min); break;
            case 'S': two(p, t->tm_sec); break;
            case 'T': two(p, t->tm_hour); *p++ = ':'; two(p, t->tm_min); *p++ = ':'; two(p, t->tm_sec); break;
            case 'R': two(p, t->tm_hour); *p++ = ':'; two(p, t->tm_min); break;
            case 'F': two(p, (t->tm_year + 1900) / 100); two(p, (t->tm_year + 1900) % 100); *p++ = '-'; two(p, t->tm_mon + 1); *p++ = '-'; two(p, t->tm_mday); break;
            case 'z': { long o = t->tm_gmtoff; *p++ = o < 0 ? '-' : '+'; if (o < 0) o = -o; two(p, (int)(o / 3600)); two(p, (int)(o / 60 % 60)); break; }
            case 'Z': { const char* z = t->tm_zone ? t->tm_zone : "UTC"; while (*z) *p++ = *z++; break; }
            case 'n': *p++ = '\n'; break;
            case 't': *p++ = '\t'; break;
            case '%': *p++ = '%'; break;
            default: sym_fail("the time is formatted in an unknown way");
        }
    }
    size_t n = (size_t)(p - b);
    if (n + 1 > max) return 0;
    memcpy(out, b, n); out[n] = 0;
    return n;
}
inline std::string clf() { char b[64]; format(b, sizeof b, "[%d/%b/%Y:%H:%M:%S %z]", &local); return b; }
}  // namespace wall
extern "C" {
long long ion_model__ZNSt6chrono3_V212system_clock3nowEv() { return wall::now_ns; }
time_t ion_model_time(time_t* t) { time_t v = (time_t)(wall::now_ns / 1'000'000'000); if (t) *t = v; return v; }
struct tm* ion_model_localtime_r(const time_t* t, struct tm* o) { wall::asked = *t; ++wall::calls; *o = wall::local; return o; }
struct tm* ion_model_localtime(const time_t* t) { static struct tm s; return ion_model_localtime_r(t, &s); }
size_t ion_model_strftime(char* b, size_t n, const char* f, const struct tm* t) { return wall::format(b, n, f, t); }
}
