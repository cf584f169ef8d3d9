#ifndef KOGNAC_SHIM_DISKLZ4READER_H
#define KOGNAC_SHIM_DISKLZ4READER_H
#include <kognac/multidisklz4reader.h>
#endif
