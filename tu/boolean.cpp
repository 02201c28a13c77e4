// Explicit instantiations of the conversions of npy::boolean.
#include "npy/npy.h"

#define BOOL(T)                                                                \
  template npy::boolean::boolean(const T &);                                   \
  template npy::boolean &npy::boolean::operator=(const T &);
BOOL(char)
BOOL(signed char)
BOOL(unsigned char)
BOOL(short)
BOOL(unsigned short)
BOOL(int)
BOOL(unsigned int)
BOOL(long)
BOOL(unsigned long)
BOOL(long long)
BOOL(unsigned long long)
BOOL(wchar_t)
BOOL(char16_t)
BOOL(char32_t)
BOOL(float)
BOOL(double)
BOOL(long double)
template npy::boolean &npy::boolean::operator=(const bool &);

// the conversions that have no template of their own
namespace npy_inst {
npy::boolean from_bool(bool b) { return npy::boolean(b); }
npy::boolean from_nothing() { return npy::boolean(); }
bool to_bool(const npy::boolean &b) { return b; }
npy::boolean copy(const npy::boolean &b) { return b; }
void assign(npy::boolean &a, const npy::boolean &b) { a = b; }
} // namespace npy_inst
