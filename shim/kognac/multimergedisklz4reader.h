#ifndef KOGNAC_SHIM_MULTIMERGE_H
#define KOGNAC_SHIM_MULTIMERGE_H
#include <kognac/multidisklz4reader.h>
#endif
