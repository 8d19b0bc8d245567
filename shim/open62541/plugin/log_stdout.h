#ifndef UA_SHIM_LOGSTDOUT_H
#define UA_SHIM_LOGSTDOUT_H
#include <open62541/server.h>
extern const UA_Logger UA_Log_Stdout_;
extern const UA_Logger *UA_Log_Stdout;
#endif
