// names that the code under verification expects from newer BLAS++/LAPACK++ headers (only used to print enums)
#pragma once
#include <blas.hh>
#include <lapack.hh>
#include <string>
namespace lapack {
inline const char* to_c_string(MatrixType) { return "MatrixType"; }
inline const char* to_c_string(Norm) { return "Norm"; }
}
