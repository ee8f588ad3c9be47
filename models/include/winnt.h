// MinGW's operators for enums used as flags access any enum as an int; the SDK's use the enum's own size, and so do these.
#pragma once
#include_next <winnt.h>
#ifdef __cplusplus
#undef DEFINE_ENUM_FLAG_OPERATORS
#define DEFINE_ENUM_FLAG_OPERATORS(E) extern "C++" { \
inline E operator | (E a, E b) { return E(((int)a) | ((int)b)); } inline E& operator |= (E& a, E b) { return a = a | b; } \
inline E operator & (E a, E b) { return E(((int)a) & ((int)b)); } inline E& operator &= (E& a, E b) { return a = a & b; } \
inline E operator ~ (E a) { return E(~((int)a)); } \
inline E operator ^ (E a, E b) { return E(((int)a) ^ ((int)b)); } inline E& operator ^= (E& a, E b) { return a = a ^ b; } }
#endif
