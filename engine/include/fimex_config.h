#ifndef FIMEX_CONFIG_H
#define FIMEX_CONFIG_H 1

#define FIMEX_DATADIR "/usr/local/share/fimex-2.4"
#define FIMEX_IO_PLUGINS_PATH "/usr/local/lib"
#define FIMEX_IO_PLUGINS_VERSION "-2.4"

// defined if configured
#define HAVE_LOG4CPP 1
/* #undef HAVE_MPI */
#define HAVE_PROJ_H 1 // defined from fimex CMakeLists.txt if using proj >= 6.2.0

#endif // FIMEX_CONFIG_H
