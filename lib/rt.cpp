// libc++ string templates executed symbolically along with the code under test (otherwise only available as machine code).
#include <string>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cctype>
#ifndef VP_NO_LIBCXX
namespace std { inline namespace __1 {
template class basic_string<char>;
template class basic_string<wchar_t>;
template string operator+<char, char_traits<char>, allocator<char>>(const char*, const string&);
template wstring operator+<wchar_t, char_traits<wchar_t>, allocator<wchar_t>>(const wchar_t*, const wstring&);
} }
namespace std { inline namespace __1 {
static string u2s(unsigned long long v, bool neg) { char b[32]; int k = 32; do { b[--k] = (char)('0' + v % 10); v /= 10; } while (v); if (neg) b[--k] = '-'; return string(b + k, 32 - k); }
string to_string(int v) { return u2s(v < 0 ? 0ull - (long long)v : v, v < 0); }
string to_string(long v) { return u2s(v < 0 ? 0ull - v : v, v < 0); }
string to_string(long long v) { return u2s(v < 0 ? 0ull - v : v, v < 0); }
string to_string(unsigned v) { return u2s(v, false); }
string to_string(unsigned long v) { return u2s(v, false); }
string to_string(unsigned long long v) { return u2s(v, false); }
} }
#endif

// std::sort of built-in types in ascending order: machine code in libc++, modelled by an insertion sort
template <class T> static void vp_sort(T* b, T* e) { for (T* i = b; i != e; ++i) for (T* j = i; j != b && *j < j[-1]; --j) { T t = *j; *j = j[-1]; j[-1] = t; } }
#define SORT(T, C) extern "C" void vp_sort_##C(T* b, T* e, void*) __asm__("_ZNSt3__16__sortIRNS_6__lessI" #C #C "EEP" #C "EEvT0_S5_T_"); extern "C" void vp_sort_##C(T* b, T* e, void*) { vp_sort(b, e); }
SORT(int, i) SORT(unsigned, j) SORT(long, l) SORT(unsigned long, m) SORT(long long, x) SORT(unsigned long long, y) SORT(unsigned char, h) SORT(signed char, a) SORT(char, c) SORT(short, s) SORT(unsigned short, t) SORT(float, f) SORT(double, d)
