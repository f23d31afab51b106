#ifndef FIMEX_NETCDF_CONFIG_H
#define FIMEX_NETCDF_CONFIG_H 1

#define HAVE_NETCDF_H 1
#define HAVE_NETCDF_HDF5_LIB 1

#endif // FIMEX_NETCDF_CONFIG_H
