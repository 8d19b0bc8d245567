#ifndef UA_SHIM_SCD_H
#define UA_SHIM_SCD_H
#include <open62541/server.h>
static inline UA_StatusCode UA_ServerConfig_setDefault(UA_ServerConfig *c) { return 0; }
#endif
