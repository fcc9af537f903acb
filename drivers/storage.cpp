#include "coeff_matrix_storage.hpp"
using namespace dso;
#define D(L)                                                                  \
  extern "C" int drv_index_##L(int rows, int cols, int r, int c) {            \
    return StorageImplementation<MatrixStorageType::L>(rows, cols).index(r, c); } \
  extern "C" long drv_size_##L(int rows, int cols) {                          \
    return StorageImplementation<MatrixStorageType::L>(rows, cols).num_elements(); } \
  extern "C" int drv_slice_##L(int rows, int cols, int s) {                   \
    return StorageImplementation<MatrixStorageType::L>(rows, cols).slice(s); } \
  extern "C" int drv_slice2_##L(int rows, int cols, int s) {                  \
    int n; return StorageImplementation<MatrixStorageType::L>(rows, cols).slice(s, n); } \
  extern "C" int drv_slicen_##L(int rows, int cols, int s) {                  \
    int n; StorageImplementation<MatrixStorageType::L>(rows, cols).slice(s, n); return n; } \
  extern "C" int drv_nslices_##L(int rows, int cols) {                        \
    return StorageImplementation<MatrixStorageType::L>(rows, cols).num_slices(); } \
  extern "C" int drv_nrows_##L(int rows, int cols) {                          \
    return StorageImplementation<MatrixStorageType::L>(rows, cols).nrows(); } \
  extern "C" int drv_ncols_##L(int rows, int cols) {                          \
    return StorageImplementation<MatrixStorageType::L>(rows, cols).ncols(); } \
  extern "C" int drv_frow_##L(int rows, int cols, int c) {                    \
    return StorageImplementation<MatrixStorageType::L>(rows, cols).first_row_of_col(c); } \
  extern "C" int drv_fcol_##L(int rows, int cols, int r) {                    \
    return StorageImplementation<MatrixStorageType::L>(rows, cols).first_col_of_row(r); } \
  extern "C" int drv_setrows_##L(int r0, int c0, int rows, int cols) {        \
    StorageImplementation<MatrixStorageType::L> s(r0, c0); s.__set_dimensions(rows, cols); return s.nrows(); } \
  extern "C" int drv_setcols_##L(int r0, int c0, int rows, int cols) {        \
    StorageImplementation<MatrixStorageType::L> s(r0, c0); s.__set_dimensions(rows, cols); return s.ncols(); } \
  extern "C" int drv_rowmajor_##L() { return StorageImplementation<MatrixStorageType::L>::isRowMajor; } \
  extern "C" int drv_colmajor_##L() { return StorageImplementation<MatrixStorageType::L>::isColMajor; }
D(RowWise)
D(ColumnWise)
D(Trapezoid)
D(LwTriangularRowWise)
D(LwTriangularColWise)
