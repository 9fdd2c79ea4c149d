// Forced include for the bitcode build: keep stream output out of line (the engine does not model streams).
#include <iosfwd>
namespace std {
template <class C, class T> __attribute__((noinline)) basic_ostream<C, T>& endl(basic_ostream<C, T>&);
template <class C, class T> __attribute__((noinline)) basic_ostream<C, T>& ends(basic_ostream<C, T>&);
template <class C, class T> __attribute__((noinline)) basic_ostream<C, T>& flush(basic_ostream<C, T>&);
template <class C, class T> __attribute__((noinline)) basic_ostream<C, T>& operator<<(basic_ostream<C, T>&, C);
template <class T> __attribute__((noinline)) basic_ostream<char, T>& operator<<(basic_ostream<char, T>&, char);
template <class T> __attribute__((noinline)) basic_ostream<char, T>& operator<<(basic_ostream<char, T>&, const char*);
}
