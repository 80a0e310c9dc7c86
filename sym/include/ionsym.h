// Harness primitives. Under the engine they are interpreted; in the native replay they read the recorded values.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_make(void* p, size_t n, const char* name);          // n arbitrary bytes
uint64_t sym_choose(uint64_t n, const char* name);           // arbitrary value below n, explored case by case
void sym_assume(int cond);
void sym_assert(int cond, const char* msg);
void sym_observe(const char* tag, const void* p, size_t n);  // recorded for the comparison with the native run
void sym_reach(const char* what);                            // reachability witness
int64_t sym_param(uint64_t i);                               // parameter of the case
uint64_t sym_concretize(uint64_t v);
void sym_step_limit(uint64_t n);                             // the code must finish within n further instructions (0: no limit)
uint64_t sym_heap_live();
uint64_t sym_heap_count();
int sym_is_engine();
[[noreturn]] void sym_end();
void sym_note(const char* m, uint64_t v);
[[noreturn]] void sym_fail(const char* m);
uint64_t sym_objsize(const void* p);                         // bytes from p to the end of its object (0: none); native: ~0
int sym_is_symbolic(uint64_t v);
int harness_main();
}
template <class T> inline T sym_val(const char* name) { T t; sym_make(&t, sizeof t, name); return t; }
inline bool sym_bool(const char* name) { return sym_choose(2, name) != 0; }
