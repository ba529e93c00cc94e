// Simulated HDF5: files of named integer and floating point arrays on the simulated disk.
#pragma once
#include "mpi.h"
#include <cstdint>
typedef int64_t hid_t;
typedef int herr_t;
typedef unsigned long long hsize_t;
enum { H5P_DEFAULT = 0, H5P_FILE_ACCESS = 1, H5P_DATASET_XFER = 2, H5P_FILE_CREATE = 3 };
enum { H5F_ACC_RDONLY = 0, H5F_ACC_RDWR = 1, H5F_ACC_TRUNC = 2, H5F_ACC_EXCL = 4 };
enum { H5S_ALL = 0, H5S_NULL = 2 };
enum H5S_seloper_t { H5S_SELECT_SET = 0 };
enum H5FD_mpio_xfer_t { H5FD_MPIO_INDEPENDENT = 0, H5FD_MPIO_COLLECTIVE = 1 };
enum { H5T_NATIVE_INT = 11, H5T_NATIVE_FLOAT = 12, H5T_NATIVE_DOUBLE = 13, H5T_NATIVE_LDOUBLE = 14 };
hid_t H5Fcreate(const char*, unsigned, hid_t, hid_t);
hid_t H5Fopen(const char*, unsigned, hid_t);
herr_t H5Fclose(hid_t);
herr_t H5Fflush(hid_t, int);
hid_t H5Gcreate(hid_t, const char*, hid_t, hid_t, hid_t);
herr_t H5Gclose(hid_t);
hid_t H5Dcreate2(hid_t, const char*, hid_t, hid_t, hid_t, hid_t, hid_t);
hid_t H5Dopen2(hid_t, const char*, hid_t);
hid_t H5Dget_space(hid_t);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void*);
herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void*);
herr_t H5Dclose(hid_t);
hid_t H5Screate_simple(int, const hsize_t*, const hsize_t*);
herr_t H5Sselect_hyperslab(hid_t, H5S_seloper_t, const hsize_t*, const hsize_t*, const hsize_t*, const hsize_t*);
int H5Sget_simple_extent_ndims(hid_t);
int H5Sget_simple_extent_dims(hid_t, hsize_t*, hsize_t*);
herr_t H5Sclose(hid_t);
hid_t H5Pcreate(hid_t);
herr_t H5Pclose(hid_t);
herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info);
herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t);
herr_t H5Pset_coll_metadata_write(hid_t, bool);
herr_t H5Pset_all_coll_metadata_ops(hid_t, bool);
