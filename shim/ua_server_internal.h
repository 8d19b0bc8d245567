/* internals of the stand-in server, for the harness's observers */
#ifndef UA_SERVER_INTERNAL_H
#define UA_SERVER_INTERNAL_H
#include <open62541/server.h>
typedef struct MRef { UA_NodeId type; UA_NodeId target; bool fwd; struct MRef *next; } MRef;
typedef struct MNode {
    UA_NodeId id; UA_NodeClass cls; UA_QualifiedName bn; UA_NodeId typeDef; void *ctx;
    UA_LocalizedText displayName, description, inverseName; UA_UInt32 writeMask, userWriteMask;
    UA_Byte eventNotifier, accessLevel, userAccessLevel; UA_Variant value; UA_NodeId dataType; UA_Int32 valueRank;
    size_t dimsSize; UA_UInt32 *dims; UA_Double minSampling; UA_Boolean historizing, executable, userExecutable, isAbstract, symmetric, containsNoLoops;
    UA_NodeId parentArg, parentRefArg;
    MRef *refs; size_t bootRefs; bool ns0; struct MNode *hnext, *onext, *todo; unsigned long seen;
} MNode;
typedef struct MCall { char kind; /* N node, R ref */ UA_NodeClass cls; UA_NodeId a, b, c; bool fwd; UA_StatusCode st; } MCall;
#define MHASH 16384
struct UA_Server {
    UA_ServerConfig config; UA_Logger logger;
    size_t nsSize; char **ns;
    MNode *hash[MHASH]; MNode *first, *last; size_t nodeCount; unsigned long walk;
    MCall *calls; size_t callsSize, callsCap;
};
MNode *ua_mock_get(UA_Server *s, const UA_NodeId *id);
void ua_mock_bootstrap(UA_Server *s);
#endif
