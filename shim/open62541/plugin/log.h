#ifndef UA_SHIM_LOG_H
#define UA_SHIM_LOG_H
#include <open62541/server.h>
#endif
