// Explicit instantiations of the header templates of /repo/include/npy/npy.h,
// so that the verifier sees their code.  No code of its own.
#include <complex>
#include <cstdint>
#include <sstream>
#include "npy/npy.h"

#define ALL_TYPES(X)                                                           \
  X(std::int8_t) X(std::uint8_t) X(std::int16_t) X(std::uint16_t)              \
  X(std::int32_t) X(std::uint32_t) X(std::int64_t) X(std::uint64_t)            \
  X(float) X(double) X(std::complex<float>) X(std::complex<double>)            \
  X(npy::boolean) X(std::wstring)

#define INST(T)                                                                \
  template class npy::tensor<T>;                                               \
  template void npy::save<npy::tensor<T>, char>(                               \
      std::basic_ostream<char> &, const npy::tensor<T> &, npy::endian_t);      \
  template void npy::save<npy::tensor<T>>(const std::string &,                 \
                                          npy::tensor<T> &, npy::endian_t);    \
  template npy::tensor<T> npy::load<npy::tensor<T>, char>(                     \
      std::basic_istream<char> &);                                             \
  template npy::tensor<T> npy::load<npy::tensor<T>>(const std::string &);      \
  template npy::tensor<T> npy::load<T, npy::tensor>(const std::string &);      \
  template void npy::npzstringwriter::write<npy::tensor<T>>(                   \
      const std::string &, const npy::tensor<T> &);                            \
  template void npy::npzfilewriter::write<npy::tensor<T>>(                     \
      const std::string &, const npy::tensor<T> &);                            \
  template npy::tensor<T> npy::npzstringreader::read<npy::tensor<T>>(          \
      const std::string &);                                                    \
  template npy::tensor<T> npy::npzfilereader::read<npy::tensor<T>>(            \
      const std::string &);                                                    \
  template npy::tensor<T> npy::npzstringreader::read<T, npy::tensor>(          \
      const std::string &);                                                    \
  template npy::tensor<T> npy::npzfilereader::read<T, npy::tensor>(            \
      const std::string &);                                                    \
  template const T &npy::tensor<T>::operator()(int) const;                     \
  template const T &npy::tensor<T>::operator()(int, int) const;                \
  template const T &npy::tensor<T>::operator()(int, int, int) const;           \
  template T &npy::tensor<T>::operator()(int);                                 \
  template T &npy::tensor<T>::operator()(int, int);                            \
  template T &npy::tensor<T>::operator()(int, int, int);
ALL_TYPES(INST)

template void npy::write_npy_header<char>(std::basic_ostream<char> &,
                                          const std::string &, bool,
                                          const std::vector<size_t> &);
template npy::header_info
npy::read_npy_header<char>(std::basic_istream<char> &);
template npy::header_info npy::peek<char>(std::basic_istream<char> &);
