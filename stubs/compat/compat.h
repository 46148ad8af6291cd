// differences between the installed lapackpp and the one the project is written for
#pragma once
#include <lapack/util.hh>
#include <ostream>
namespace lapack { inline const char* to_c_string(MatrixType t) { return matrixtype2str(t); } }
#include <blas/util.hh>
#include <stdexcept>
#include <string>
namespace blas {
inline void from_string(const std::string& s, Uplo* u) {
  char c = s.empty() ? 0 : s[0];
  if (c == 'L' || c == 'l') *u = Uplo::Lower;
  else if (c == 'U' || c == 'u') *u = Uplo::Upper;
  else if (c == 'G' || c == 'g') *u = Uplo::General;
  else throw Error("unknown uplo", "from_string");
}
}
