#ifndef KOGNAC_SHIM_SCHEMA_H
#define KOGNAC_SHIM_SCHEMA_H
#include <string>
#include <vector>
class SchemaExtractor {};
#endif
