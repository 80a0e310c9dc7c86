// The random device: a fixed value.
#pragma once
#include <string>
extern "C" {
void ion_model__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const std::string&) {}
unsigned ion_model__ZNSt13random_device9_M_getvalEv(void*) { return 12345u; }
void ion_model__ZNSt13random_device7_M_finiEv(void*) {}
}
