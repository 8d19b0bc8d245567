#ifndef UA_SHIM_UTIL_H
#define UA_SHIM_UTIL_H
#include <open62541/types.h>
#endif
