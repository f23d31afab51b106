#ifndef FIMEX_GRIB_CONFIG_H
#define FIMEX_GRIB_CONFIG_H 1

#define HAVE_ECCODES 1
#define HAVE_GRIB_THREADSAFE 1

#endif // FIMEX_GRIB_CONFIG_H
