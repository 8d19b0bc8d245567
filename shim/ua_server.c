/* In-memory stand-in for the open62541 server: an address space with the checks
 * UA_Server_addNode_begin/addReference perform on parents, reference types and
 * type definitions, and everything kept for later inspection. */
#include "ua_server_internal.h"
#include <open62541/plugin/log_stdout.h>
#include <time.h>

#define ALLLT {{0, NULL}, {0, NULL}}
const UA_ObjectAttributes UA_ObjectAttributes_default;
const UA_VariableAttributes UA_VariableAttributes_default = {.dataType = {0, UA_NODEIDTYPE_NUMERIC, {24}}, .valueRank = -2, .accessLevel = 1, .userAccessLevel = 1};
const UA_MethodAttributes UA_MethodAttributes_default = {.executable = true, .userExecutable = true};
const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
const UA_VariableTypeAttributes UA_VariableTypeAttributes_default = {.dataType = {0, UA_NODEIDTYPE_NUMERIC, {24}}, .valueRank = -2};
const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default;
const UA_DataTypeAttributes UA_DataTypeAttributes_default;
const UA_ViewAttributes UA_ViewAttributes_default;

static void logStdout(void *c, UA_LogLevel l, UA_LogCategory cat, const char *msg, va_list args) {
    if(l < UA_LOGLEVEL_WARNING) return;
    printf("[ua/%d] ", (int)l); vprintf(msg, args); printf("\n");
}
const UA_Logger UA_Log_Stdout_ = {logStdout, NULL, NULL};
const UA_Logger *UA_Log_Stdout = &UA_Log_Stdout_;
#define LOGFN(NAME) void UA_LOG_##NAME(const UA_Logger *l, UA_LogCategory c, const char *msg, ...) { \
    if(!l || !l->log) return; va_list a; va_start(a, msg); l->log(l->context, UA_LOGLEVEL_##NAME, c, msg, a); va_end(a); }
LOGFN(INFO) LOGFN(WARNING) LOGFN(ERROR)

MNode *ua_mock_get(UA_Server *s, const UA_NodeId *id) {
    for(MNode *n = s->hash[UA_NodeId_hash(id) % MHASH]; n; n = n->hnext) if(UA_NodeId_equal(&n->id, id)) return n;
    return NULL;
}
static MNode *insert(UA_Server *s, const UA_NodeId *id, UA_NodeClass cls) {
    MNode *n = (MNode *)calloc(1, sizeof *n);
    UA_NodeId_copy(id, &n->id); n->cls = cls;
    size_t h = UA_NodeId_hash(id) % MHASH;
    n->hnext = s->hash[h]; s->hash[h] = n;
    if(s->last) s->last->onext = n; else s->first = n;
    s->last = n; s->nodeCount++;
    return n;
}
static bool hasRef(MNode *n, const UA_NodeId *t, const UA_NodeId *target, bool fwd) {
    for(MRef *r = n->refs; r; r = r->next) if(r->fwd == fwd && UA_NodeId_equal(&r->type, t) && UA_NodeId_equal(&r->target, target)) return true;
    return false;
}
static void addRef1(MNode *n, const UA_NodeId *t, const UA_NodeId *target, bool fwd) {
    MRef *r = (MRef *)calloc(1, sizeof *r);
    UA_NodeId_copy(t, &r->type); UA_NodeId_copy(target, &r->target); r->fwd = fwd;
    MRef **p = &n->refs; while(*p) p = &(*p)->next; *p = r;
}
static UA_StatusCode addRefBoth(MNode *a, const UA_NodeId *t, MNode *b) {
    bool f = hasRef(a, t, &b->id, true), i = hasRef(b, t, &a->id, false);
    if(!f) addRef1(a, t, &b->id, true);
    if(!i) addRef1(b, t, &a->id, false);
    return f && i ? UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED : 0;
}
static const struct { unsigned id, cls; const char *bn; unsigned parent, ref, td, abs; } ns0tab[] = {
#include "ns0_table.inc"
};
void ua_mock_bootstrap(UA_Server *s) {
    size_t cnt = sizeof ns0tab / sizeof ns0tab[0];
    for(size_t i = 0; i < cnt; i++) {
        UA_NodeId id = UA_NODEID_NUMERIC(0, ns0tab[i].id);
        if(ua_mock_get(s, &id)) continue;
        MNode *n = insert(s, &id, (UA_NodeClass)ns0tab[i].cls);
        n->ns0 = true; n->bn = UA_QUALIFIEDNAME_ALLOC(0, ns0tab[i].bn); n->isAbstract = ns0tab[i].abs;
    }
    for(size_t i = 0; i < cnt; i++) {
        UA_NodeId id = UA_NODEID_NUMERIC(0, ns0tab[i].id), p = UA_NODEID_NUMERIC(0, ns0tab[i].parent), r = UA_NODEID_NUMERIC(0, ns0tab[i].ref),
            td = UA_NODEID_NUMERIC(0, ns0tab[i].td), htd = UA_NODEID_NUMERIC(0, 40);
        MNode *n = ua_mock_get(s, &id), *pn = ua_mock_get(s, &p), *tn = ua_mock_get(s, &td);
        if(pn && ns0tab[i].parent) addRefBoth(pn, &r, n);
        if(tn && ns0tab[i].td) addRef1(n, &htd, &td, true); /* type nodes would carry thousands of inverse refs */
    }
    for(MNode *n = s->first; n; n = n->onext) for(MRef *r = n->refs; r; r = r->next) n->bootRefs++;
}
UA_Server *UA_Server_new(void) {
    UA_Server *s = (UA_Server *)calloc(1, sizeof *s);
    s->logger = UA_Log_Stdout_; s->config.logging = &s->logger;
    s->nsSize = 2; s->ns = (char **)calloc(2, sizeof(char *)); s->ns[0] = strdup("http://opcfoundation.org/UA/"); s->ns[1] = strdup("urn:open62541.server.application");
    ua_mock_bootstrap(s);
    return s;
}
UA_StatusCode UA_Server_delete(UA_Server *s) {
    for(MNode *n = s->first; n;) {
        MNode *nx = n->onext;
        UA_NodeId_clear(&n->id); UA_QualifiedName_clear(&n->bn); UA_NodeId_clear(&n->typeDef); UA_LocalizedText_clear(&n->displayName);
        UA_LocalizedText_clear(&n->description); UA_LocalizedText_clear(&n->inverseName); UA_Variant_clear(&n->value); UA_NodeId_clear(&n->dataType);
        UA_NodeId_clear(&n->parentArg); UA_NodeId_clear(&n->parentRefArg); free(n->dims);
        for(MRef *r = n->refs; r;) { MRef *rn = r->next; UA_NodeId_clear(&r->type); UA_NodeId_clear(&r->target); free(r); r = rn; }
        free(n); n = nx;
    }
    for(size_t i = 0; i < s->callsSize; i++) { UA_NodeId_clear(&s->calls[i].a); UA_NodeId_clear(&s->calls[i].b); UA_NodeId_clear(&s->calls[i].c); }
    free(s->calls);
    for(size_t i = 0; i < s->nsSize; i++) free(s->ns[i]);
    free(s->ns); 
    /* open62541 1.4 deletes custom types whose array is flagged for cleanup; the loader is built with the flag off */
    free(s);
    return 0;
}
UA_StatusCode UA_Server_run(UA_Server *s, const volatile UA_Boolean *r) { return 0; }
UA_StatusCode UA_Server_run_startup(UA_Server *s) { return 0; }
UA_StatusCode UA_Server_run_shutdown(UA_Server *s) { return 0; }
UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { return &s->config; }
UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *name) {
    for(size_t i = 0; i < s->nsSize; i++) if(!strcmp(s->ns[i], name)) return (UA_UInt16)i;
    s->ns = (char **)realloc(s->ns, (s->nsSize + 1) * sizeof(char *)); s->ns[s->nsSize++] = strdup(name);
    return (UA_UInt16)(s->nsSize - 1);
}
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *s, const UA_String uri, size_t *out) {
    for(size_t i = 0; i < s->nsSize; i++) if(strlen(s->ns[i]) == uri.length && !memcmp(s->ns[i], uri.data, uri.length)) { *out = i; return 0; }
    return UA_STATUSCODE_BADNOTFOUND;
}
/* over the inverse HasSubtype references, which may form loops */
static bool isSubtypeOf(UA_Server *s, const UA_NodeId *t, UA_NodeId root) {
    if(UA_NodeId_equal(t, &root)) return true;
    UA_NodeId st = UA_NODEID_NUMERIC(0, 45);
    MNode *stack = ua_mock_get(s, t); unsigned long walk = ++s->walk;
    if(stack) { stack->todo = NULL; stack->seen = walk; }
    while(stack) {
        MNode *n = stack; stack = n->todo;
        for(MRef *r = n->refs; r; r = r->next) {
            if(r->fwd || !UA_NodeId_equal(&r->type, &st)) continue;
            if(UA_NodeId_equal(&r->target, &root)) return true;
            MNode *m = ua_mock_get(s, &r->target);
            if(m && m->seen != walk) { m->seen = walk; m->todo = stack; stack = m; }
        }
    }
    return false;
}
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *bd) {
    UA_BrowseResult br; memset(&br, 0, sizeof br);
    MNode *n = ua_mock_get(s, &bd->nodeId);
    if(!n) { br.statusCode = UA_STATUSCODE_BADNODEIDUNKNOWN; return br; }
    if(!UA_NodeId_isNull(&bd->referenceTypeId)) {
        MNode *rt = ua_mock_get(s, &bd->referenceTypeId);
        if(!rt || rt->cls != UA_NODECLASS_REFERENCETYPE) { br.statusCode = UA_STATUSCODE_BADREFERENCETYPEIDINVALID; return br; }
    }
    size_t cap = 0;
    for(MRef *r = n->refs; r; r = r->next) {
        if(bd->browseDirection == UA_BROWSEDIRECTION_FORWARD && !r->fwd) continue;
        if(bd->browseDirection == UA_BROWSEDIRECTION_INVERSE && r->fwd) continue;
        if(!UA_NodeId_isNull(&bd->referenceTypeId)) {
            if(bd->includeSubtypes ? !isSubtypeOf(s, &r->type, bd->referenceTypeId) : !UA_NodeId_equal(&r->type, &bd->referenceTypeId)) continue;
        }
        MNode *t = ua_mock_get(s, &r->target);
        if(!t) continue;
        if(bd->nodeClassMask && !(bd->nodeClassMask & (UA_UInt32)t->cls)) continue;
        if(max && br.referencesSize >= max) break; /* more would be behind a continuation point */
        if(br.referencesSize == cap) { cap = cap ? cap * 2 : 8; br.references = (UA_ReferenceDescription *)realloc(br.references, cap * sizeof *br.references); }
        UA_ReferenceDescription *d = &br.references[br.referencesSize++]; memset(d, 0, sizeof *d);
        UA_NodeId_copy(&t->id, &d->nodeId.nodeId);
        d->isForward = r->fwd; UA_NodeId_copy(&r->type, &d->referenceTypeId);
        d->nodeClass = t->cls; UA_QualifiedName_copy(&t->bn, &d->browseName); UA_LocalizedText_copy(&t->displayName, &d->displayName);
    }
    return br;
}
static MCall *newCall(UA_Server *s) {
    if(s->callsSize == s->callsCap) { s->callsCap = s->callsCap ? s->callsCap * 2 : 64; s->calls = (MCall *)realloc(s->calls, s->callsCap * sizeof(MCall)); }
    MCall *c = &s->calls[s->callsSize++]; memset(c, 0, sizeof *c); return c;
}
static bool isType(UA_NodeClass c) { return c & (UA_NODECLASS_OBJECTTYPE | UA_NODECLASS_VARIABLETYPE | UA_NODECLASS_REFERENCETYPE | UA_NODECLASS_DATATYPE); }
static UA_StatusCode checkParent(UA_Server *s, UA_NodeClass cls, const UA_NodeId *parent, const UA_NodeId *ref) {
    if((cls == UA_NODECLASS_OBJECT || cls == UA_NODECLASS_VARIABLE) && UA_NodeId_isNull(parent) && UA_NodeId_isNull(ref)) return 0;
    MNode *p = ua_mock_get(s, parent);
    if(!p) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
    MNode *rt = ua_mock_get(s, ref);
    if(!rt) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    if(rt->cls != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    if(rt->isAbstract) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
    if(isType(cls)) {
        if(!isSubtypeOf(s, ref, UA_NODEID_NUMERIC(0, 45))) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
        return p->cls == cls ? 0 : UA_STATUSCODE_BADPARENTNODEIDINVALID;
    }
    return isSubtypeOf(s, ref, UA_NODEID_NUMERIC(0, 33)) ? 0 : UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
}
static UA_StatusCode addNode(UA_Server *s, UA_NodeClass cls, const UA_NodeId *id, const UA_NodeId *parent, const UA_NodeId *refIn,
                             const UA_QualifiedName *bn, const UA_NodeId *td, const void *attr, void *ctx) {
    UA_NodeId ref = *refIn;
    if(id->namespaceIndex >= s->nsSize) return UA_STATUSCODE_BADNODEIDINVALID;
    if(UA_NodeId_isNull(id)) return UA_STATUSCODE_BADNODEIDINVALID;
    if(ua_mock_get(s, id)) return UA_STATUSCODE_BADNODEIDEXISTS;
    if(isType(cls) && UA_NodeId_isNull(&ref)) ref = UA_NODEID_NUMERIC(0, 45);
    UA_StatusCode st = checkParent(s, cls, parent, &ref);
    if(st) return st;
    if((cls == UA_NODECLASS_OBJECT || cls == UA_NODECLASS_VARIABLE) && !UA_NodeId_isNull(td)) {
        MNode *t = ua_mock_get(s, td);
        if(!t || t->cls != (cls == UA_NODECLASS_OBJECT ? UA_NODECLASS_OBJECTTYPE : UA_NODECLASS_VARIABLETYPE)) return UA_STATUSCODE_BADTYPEDEFINITIONINVALID;
    }
    MNode *n = insert(s, id, cls);
    UA_QualifiedName_copy(bn, &n->bn); UA_NodeId_copy(td, &n->typeDef); n->ctx = ctx;
    UA_NodeId_copy(parent, &n->parentArg); UA_NodeId_copy(&ref, &n->parentRefArg);
#define COMMON(T) const T *a = (const T *)attr; UA_LocalizedText_copy(&a->displayName, &n->displayName); UA_LocalizedText_copy(&a->description, &n->description); \
    n->writeMask = a->writeMask; n->userWriteMask = a->userWriteMask
    switch(cls) {
    case UA_NODECLASS_OBJECT: { COMMON(UA_ObjectAttributes); n->eventNotifier = a->eventNotifier; break; }
    case UA_NODECLASS_VARIABLE: { COMMON(UA_VariableAttributes); UA_Variant_copy(&a->value, &n->value); UA_NodeId_copy(&a->dataType, &n->dataType); n->valueRank = a->valueRank;
        n->dimsSize = a->arrayDimensionsSize; if(a->arrayDimensionsSize) { n->dims = (UA_UInt32 *)malloc(4 * n->dimsSize); memcpy(n->dims, a->arrayDimensions, 4 * n->dimsSize); }
        n->accessLevel = a->accessLevel; n->userAccessLevel = a->userAccessLevel; n->minSampling = a->minimumSamplingInterval; n->historizing = a->historizing; break; }
    case UA_NODECLASS_METHOD: { COMMON(UA_MethodAttributes); n->executable = a->executable; n->userExecutable = a->userExecutable; break; }
    case UA_NODECLASS_OBJECTTYPE: { COMMON(UA_ObjectTypeAttributes); n->isAbstract = a->isAbstract; break; }
    case UA_NODECLASS_VARIABLETYPE: { COMMON(UA_VariableTypeAttributes); UA_Variant_copy(&a->value, &n->value); UA_NodeId_copy(&a->dataType, &n->dataType); n->valueRank = a->valueRank;
        n->dimsSize = a->arrayDimensionsSize; if(a->arrayDimensionsSize) { n->dims = (UA_UInt32 *)malloc(4 * n->dimsSize); memcpy(n->dims, a->arrayDimensions, 4 * n->dimsSize); }
        n->isAbstract = a->isAbstract; break; }
    case UA_NODECLASS_REFERENCETYPE: { COMMON(UA_ReferenceTypeAttributes); n->isAbstract = a->isAbstract; n->symmetric = a->symmetric; UA_LocalizedText_copy(&a->inverseName, &n->inverseName); break; }
    case UA_NODECLASS_DATATYPE: { COMMON(UA_DataTypeAttributes); n->isAbstract = a->isAbstract; break; }
    case UA_NODECLASS_VIEW: { COMMON(UA_ViewAttributes); n->containsNoLoops = a->containsNoLoops; n->eventNotifier = a->eventNotifier; break; }
    default: break;
    }
    MNode *p = UA_NodeId_isNull(parent) ? NULL : ua_mock_get(s, parent);
    if(p) addRefBoth(p, &ref, n);
    if(!UA_NodeId_isNull(td)) { UA_NodeId h = UA_NODEID_NUMERIC(0, 40); MNode *t = ua_mock_get(s, td); if(t) addRefBoth(n, &h, t); }
    return 0;
}
static UA_StatusCode addNodeT(UA_Server *s, UA_NodeClass cls, const UA_NodeId *id, const UA_NodeId *parent, const UA_NodeId *ref,
                              const UA_QualifiedName *bn, const UA_NodeId *td, const void *attr, void *ctx, UA_NodeId *out) {
    UA_StatusCode st = addNode(s, cls, id, parent, ref, bn, td, attr, ctx);
    MCall *c = newCall(s); c->kind = 'N'; c->cls = cls; c->st = st;
    UA_NodeId_copy(id, &c->a); UA_NodeId_copy(parent, &c->b); UA_NodeId_copy(ref, &c->c);
    if(!st && out) UA_NodeId_copy(id, out);
    return st;
}
UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass cls, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref,
    const UA_QualifiedName bn, const UA_NodeId td, const void *attr, const UA_DataType *at, void *ctx, UA_NodeId *out) {
    static const struct { UA_NodeClass c; int t; } M[] = {{UA_NODECLASS_OBJECT, UA_TYPES_OBJECTATTRIBUTES}, {UA_NODECLASS_VARIABLE, UA_TYPES_VARIABLEATTRIBUTES},
        {UA_NODECLASS_METHOD, UA_TYPES_METHODATTRIBUTES}, {UA_NODECLASS_OBJECTTYPE, UA_TYPES_OBJECTTYPEATTRIBUTES}, {UA_NODECLASS_VARIABLETYPE, UA_TYPES_VARIABLETYPEATTRIBUTES},
        {UA_NODECLASS_REFERENCETYPE, UA_TYPES_REFERENCETYPEATTRIBUTES}, {UA_NODECLASS_DATATYPE, UA_TYPES_DATATYPEATTRIBUTES}, {UA_NODECLASS_VIEW, UA_TYPES_VIEWATTRIBUTES}};
    for(size_t i = 0; i < 8; i++) if(M[i].c == cls && at != &UA_TYPES[M[i].t]) return UA_STATUSCODE_BADNODECLASSINVALID;
    return addNodeT(s, cls, &id, &parent, &ref, &bn, &td, attr, ctx, out);
}
UA_StatusCode UA_Server_addNode_finish(UA_Server *s, const UA_NodeId id) { return ua_mock_get(s, &id) ? 0 : UA_STATUSCODE_BADNODEIDUNKNOWN; }
#define ADDFN(NAME, CLS, ATTR) \
UA_StatusCode UA_Server_add##NAME(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName bn, \
    const ATTR attr, void *ctx, UA_NodeId *out) { UA_NodeId td = UA_NODEID_NULL; return addNodeT(s, CLS, &id, &parent, &ref, &bn, &td, &attr, ctx, out); }
#define ADDFNT(NAME, CLS, ATTR) \
UA_StatusCode UA_Server_add##NAME(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName bn, \
    const UA_NodeId td, const ATTR attr, void *ctx, UA_NodeId *out) { return addNodeT(s, CLS, &id, &parent, &ref, &bn, &td, &attr, ctx, out); }
ADDFN(ObjectTypeNode, UA_NODECLASS_OBJECTTYPE, UA_ObjectTypeAttributes)
ADDFN(ReferenceTypeNode, UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes)
ADDFN(DataTypeNode, UA_NODECLASS_DATATYPE, UA_DataTypeAttributes)
ADDFN(ViewNode, UA_NODECLASS_VIEW, UA_ViewAttributes)
ADDFNT(VariableNode, UA_NODECLASS_VARIABLE, UA_VariableAttributes)
ADDFNT(ObjectNode, UA_NODECLASS_OBJECT, UA_ObjectAttributes)
ADDFNT(VariableTypeNode, UA_NODECLASS_VARIABLETYPE, UA_VariableTypeAttributes)
UA_StatusCode UA_Server_addMethodNode(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName bn,
    const UA_MethodAttributes attr, UA_MethodCallback m, size_t in, const UA_Argument *ia, size_t on, const UA_Argument *oa, void *ctx, UA_NodeId *out) {
    UA_NodeId td = UA_NODEID_NULL; return addNodeT(s, UA_NODECLASS_METHOD, &id, &parent, &ref, &bn, &td, &attr, ctx, out);
}
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId t, const UA_ExpandedNodeId target, UA_Boolean fwd) {
    MNode *a = ua_mock_get(s, &src), *b = ua_mock_get(s, &target.nodeId); UA_StatusCode st;
    if(!a) st = UA_STATUSCODE_BADSOURCENODEIDINVALID;
    else if(!b) st = UA_STATUSCODE_BADTARGETNODEIDINVALID;
    else { MNode *rt = ua_mock_get(s, &t);
        if(!rt || rt->cls != UA_NODECLASS_REFERENCETYPE) st = UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
        else st = fwd ? addRefBoth(a, &t, b) : addRefBoth(b, &t, a); }
    MCall *c = newCall(s); c->kind = 'R'; c->fwd = fwd; c->st = st;
    UA_NodeId_copy(&src, &c->a); UA_NodeId_copy(&target.nodeId, &c->b); UA_NodeId_copy(&t, &c->c);
    return st;
}
static bool delRef1(MNode *n, const UA_NodeId *t, const UA_NodeId *target, bool fwd) {
    for(MRef **p = &n->refs; *p; p = &(*p)->next)
        if((*p)->fwd == fwd && UA_NodeId_equal(&(*p)->type, t) && UA_NodeId_equal(&(*p)->target, target)) {
            MRef *r = *p; *p = r->next; UA_NodeId_clear(&r->type); UA_NodeId_clear(&r->target); free(r); return true; }
    return false;
}
UA_StatusCode UA_Server_deleteReference(UA_Server *s, const UA_NodeId src, const UA_NodeId t, UA_Boolean fwd, const UA_ExpandedNodeId target, UA_Boolean both) {
    MNode *a = ua_mock_get(s, &src), *b = ua_mock_get(s, &target.nodeId);
    if(!a) return UA_STATUSCODE_BADSOURCENODEIDINVALID;
    delRef1(a, &t, &target.nodeId, fwd); if(b && both) delRef1(b, &t, &src, !fwd);
    return 0;
}
UA_StatusCode UA_Server_deleteNode(UA_Server *s, const UA_NodeId id, UA_Boolean refs) { return UA_STATUSCODE_BADINTERNALERROR; }
#define RD(NAME, T, EXPR) UA_StatusCode UA_Server_read##NAME(UA_Server *s, const UA_NodeId id, T *out) { MNode *n = ua_mock_get(s, &id); \
    if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; EXPR; return 0; }
RD(NodeClass, UA_NodeClass, *out = n->cls) RD(BrowseName, UA_QualifiedName, UA_QualifiedName_copy(&n->bn, out))
RD(DisplayName, UA_LocalizedText, UA_LocalizedText_copy(&n->displayName, out)) RD(Description, UA_LocalizedText, UA_LocalizedText_copy(&n->description, out))
RD(Value, UA_Variant, UA_Variant_copy(&n->value, out)) RD(DataType, UA_NodeId, UA_NodeId_copy(&n->dataType, out)) RD(ValueRank, UA_Int32, *out = n->valueRank)
RD(ArrayDimensions, UA_Variant, UA_Variant_setArrayCopy(out, n->dims, n->dimsSize, &UA_TYPES[UA_TYPES_UINT32]))
RD(IsAbstract, UA_Boolean, *out = n->isAbstract) RD(Symmetric, UA_Boolean, *out = n->symmetric) RD(ContainsNoLoop, UA_Boolean, *out = n->containsNoLoops)
RD(Historizing, UA_Boolean, *out = n->historizing) RD(Executable, UA_Boolean, *out = n->executable) RD(EventNotifier, UA_Byte, *out = n->eventNotifier)
RD(AccessLevel, UA_Byte, *out = n->accessLevel) RD(MinimumSamplingInterval, UA_Double, *out = n->minSampling)
RD(InverseName, UA_LocalizedText, UA_LocalizedText_copy(&n->inverseName, out))
UA_StatusCode UA_Server_getNodeContext(UA_Server *s, UA_NodeId id, void **ctx) { MNode *n = ua_mock_get(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; *ctx = n->ctx; return 0; }
UA_StatusCode UA_Server_writeValue(UA_Server *s, const UA_NodeId id, const UA_Variant v) {
    MNode *n = ua_mock_get(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; UA_Variant_clear(&n->value); return UA_Variant_copy(&v, &n->value);
}
