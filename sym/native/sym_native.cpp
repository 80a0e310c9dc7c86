// Native side of the harness primitives: replays recorded inputs against the real code.
//   replay <inputs-file>      file: "P <params...>" then one "I <name> <hex>" per input, in order
// Output: "OBS tag hex", "ASSERT-FAIL msg", "REACH what".  Exit: 0 finished, 96 assertion failed, 97 assumption false, 98 diverged.
#include <ionsym.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/resource.h>
#include <signal.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p);

static std::vector<long long> g_params;
static std::vector<std::pair<std::string, std::vector<unsigned char>>> g_in;
static size_t g_pos = 0;
static std::map<std::string, int> g_names;
static uint64_t g_live = 0, g_count = 0;
static bool g_lenient = false;
static void onMalloc(const volatile void*, size_t n) { g_live += n; ++g_count; }
static void onFree(const volatile void* p) { if (p) { g_live -= __sanitizer_get_allocated_size(p); --g_count; } }

static void leave(int code) { fflush(stdout); fflush(stderr); _exit(code); }
static std::vector<unsigned char> take(const char* name, size_t n) {
    std::string nm = name;
    int k = g_names[nm]++;
    if (k) nm += "#" + std::to_string(k);
    if (g_pos >= g_in.size()) { if (g_lenient) return std::vector<unsigned char>(n); printf("DIVERGED no more inputs, wanted %s\n", nm.c_str()); leave(98); }
    auto& r = g_in[g_pos++];
    if (r.first != nm || r.second.size() != n) { printf("DIVERGED wanted %s (%zu bytes), recorded %s (%zu bytes)\n", nm.c_str(), n, r.first.c_str(), r.second.size()); leave(98); }
    return r.second;
}
extern "C" {
void sym_make(void* p, size_t n, const char* name) { auto b = take(name, n); if (n) memcpy(p, b.data(), n); }
uint64_t sym_choose(uint64_t n, const char* name) {
    auto b = take(name, n > 256 ? 2 : 1);
    uint64_t v = b[0]; if (n > 256) v |= (uint64_t)b[1] << 8;
    if (v >= n) { printf("DIVERGED choice %s out of range\n", name); leave(98); }
    return v;
}
void sym_assume(int c) { if (!c) { printf("ASSUME-FALSE\n"); leave(97); } }
void sym_assert(int c, const char* m) { if (!c) { printf("ASSERT-FAIL %s\n", m); leave(96); } }
void sym_observe(const char* tag, const void* p, size_t n) {
    printf("OBS %s ", tag);
    for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char*)p)[i]);
    printf("\n");
}
void sym_reach(const char* w) { printf("REACH %s\n", w); }
int64_t sym_param(uint64_t i) { return i < g_params.size() ? g_params[i] : 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_step_limit(uint64_t) {}
uint64_t sym_heap_live() { return g_live; }
uint64_t sym_heap_count() { return g_count; }
int sym_is_engine() { return 0; }
void sym_end() { printf("END\n"); leave(0); }
void sym_note(const char* m, uint64_t v) { if (getenv("SYM_NOTES")) { printf("NOTE %s %llu\n", m, (unsigned long long)v); fflush(stdout); } }
void sym_fail(const char* m) { printf("ASSERT-FAIL %s\n", m); leave(96); __builtin_unreachable(); }
uint64_t sym_objsize(const void*) { return ~0ull; }
int sym_is_symbolic(uint64_t) { return 0; }
}
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    g_lenient = getenv("SYM_LENIENT");
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    FILE* f = fopen(argv[1], "r");
    char* lp = nullptr;
    size_t lcap = 0;
    for (ssize_t ln; f && (ln = getline(&lp, &lcap, f)) >= 0;) {
        std::string l(lp, (size_t)ln);
        if (!l.empty() && l.back() == '\n') l.pop_back();
        if (l.size() < 2) continue;
        if (l[0] == 'P') { const char* q = l.c_str() + 1; char* e; for (;;) { long long v = strtoll(q, &e, 10); if (e == q) break; g_params.push_back(v); q = e; } }
        if (l[0] == 'I') {
            size_t sp = l.rfind(' ');
            std::string nm = l.substr(2, sp - 2), hx = l.substr(sp + 1);
            std::vector<unsigned char> b;
            for (size_t i = 0; i + 1 < hx.size(); i += 2) b.push_back((unsigned char)strtoul(hx.substr(i, 2).c_str(), nullptr, 16));
            g_in.push_back({nm, b});
        }
    }
    free(lp);
    if (f) fclose(f);
    signal(SIGPIPE, SIG_IGN);
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    g_live = g_count = 0;
    harness_main();
    printf("END\n");
    leave(0);
}
