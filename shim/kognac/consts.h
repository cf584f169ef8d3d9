// Stand-in for the (absent) KOGNAC library: constants.
#ifndef KOGNAC_SHIM_CONSTS_H
#define KOGNAC_SHIM_CONSTS_H
#include <cstdint>
#include <inttypes.h>
#include <string>
typedef uint8_t tTerm;
typedef int64_t nTerm;
#define MAX_TERM_SIZE 2048
#define DIR_SEP std::string("/")
#define CDIR_SEP '/'
#define IDX_SPO 0
#define IDX_OPS 1
#define IDX_POS 2
#define IDX_SOP 3
#define IDX_OSP 4
#define IDX_PSO 5
#define DICT_HEURISTICS "heuristics"
#define DICT_HASH "hash"
#define DICT_SMART "smart"
#define PARSE_COUNTMIN 0
#define PARSE_MGCS 1
#define PARSE_SAMPLE 2
#ifndef LIBEXP
#define LIBEXP
#define DDLIMPORT
#define DDLEXPORT
#endif
#endif
