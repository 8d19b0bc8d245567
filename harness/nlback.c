/* Script interpreter around the open62541 backend and the stand-in server;
 * records the complete state of the server. See lib/backend.py for the commands. */
#include "common.h"
#include "../shim/ua_server_internal.h"
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <libxml/xmlerror.h>

#define SLOTS 4
typedef struct ExtObj { int id; struct ExtObj *next; } ExtObj;
typedef struct Srv { UA_Server *s; UA_Logger lg; UA_DataTypeArray app; UA_DataType *appTypes; UA_DataTypeMember *appM; int useApp; char magic; } Srv;
typedef struct State { FILE *o; Srv sv[SLOTS]; ExtObj *exts; int extNext; NodesetLoader_ExtensionInterface ei; } State;
static __thread State *cur;

static void logCb(void *ctx, UA_LogLevel lv, UA_LogCategory cat, const char *m, va_list v) {
    int t = h_track; h_track = 0;
    char b[4096]; vsnprintf(b, sizeof b, m, v); int sl = -1;
    for(int i = 0; i < SLOTS; i++) if(ctx == &cur->sv[i].magic) sl = i;
    fprintf(cur->o, "{\"e\":\"log\",\"s\":%d,\"lv\":%d,\"cat\":%d,\"m\":", sl, (int)lv, (int)cat); j_s(cur->o, b); fputs("}\n", cur->o);
    h_track = t;
}
static void *extNew(void) { int t = h_track; h_track = 0; ExtObj *e = calloc(1, sizeof *e); e->id = cur->extNext++; e->next = cur->exts; cur->exts = e; h_track = t; return e; }
static int xid(const void *d) { for(ExtObj *e = cur->exts; e; e = e->next) if(e == d) return e->id; return -1; }
static void extStart(void *d, const char *name, int n, const char **a) { int t = h_track; h_track = 0; fprintf(cur->o, "{\"e\":\"xstart\",\"x\":%d,\"name\":", xid(d)); j_s(cur->o, name); fputs("}\n", cur->o); h_track = t; }
static void extEnd(void *d, const char *name, const char *v) { int t = h_track; h_track = 0; fprintf(cur->o, "{\"e\":\"xend\",\"x\":%d,\"name\":", xid(d)); j_s(cur->o, name); fputs("}\n", cur->o); h_track = t; }
static void extFinish(void *d) { }

static void str(FILE *o, const UA_String *s) {
    if(!s->data) { fputs("null", o); return; }
    j_sn(o, s->length ? s->data : (const void *)"", s->length);
}
static void hex(FILE *o, const UA_String *s) {
    if(!s->data) { fputs("null", o); return; }
    fputc('"', o); for(size_t i = 0; i < s->length; i++) fprintf(o, "%02x", s->data[i]); fputc('"', o);
}
static void lt(FILE *o, const char *n, const UA_LocalizedText *t) { fprintf(o, ",\"%s\":[", n); str(o, &t->locale); fputc(',', o); str(o, &t->text); fputc(']', o); }
static __thread int depth;
static void val(FILE *o, const void *p, const UA_DataType *t);
static void arr(FILE *o, const void *p, size_t n, const UA_DataType *t) {
    fputc('[', o);
    for(size_t i = 0; i < n; i++) { if(i) fputc(',', o); val(o, (const char *)p + i * t->memSize, t); }
    fputc(']', o);
}
static void variant(FILE *o, const UA_Variant *v) {
    if(!v->type) { fputs("null", o); return; }
    fputs("{\"t\":", o); j_id(o, &v->type->typeId); fprintf(o, ",\"k\":%d,\"arr\":%s,\"v\":", (int)v->type->typeKind, UA_Variant_isScalar(v) ? "false" : "true");
    if(UA_Variant_isScalar(v)) val(o, v->data, v->type); else arr(o, v->data, v->arrayLength, v->type);
    fputc('}', o);
}
static void member(FILE *o, const char *p, const UA_DataTypeMember *m) {
    if(m->isArray) { size_t n; void *a; memcpy(&n, p, sizeof n); memcpy(&a, p + sizeof n, sizeof a);
        if(!a && !n) fputs("null", o); else arr(o, a, n, m->memberType); }
    else if(m->isOptional) { void *a; memcpy(&a, p, sizeof a); if(a) val(o, a, m->memberType); else fputs("null", o); }
    else val(o, p, m->memberType);
}
static void val(FILE *o, const void *p, const UA_DataType *t) {
    if(++depth > 200) { fputs("\"DEEP\"", o); depth--; return; }
    switch(t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: { UA_Byte b; memcpy(&b, p, 1); fprintf(o, "%s", b == 1 ? "true" : b == 0 ? "false" : "\"badbool\""); break; }
    case UA_DATATYPEKIND_SBYTE: fprintf(o, "%d", *(const UA_SByte *)p); break;
    case UA_DATATYPEKIND_BYTE: fprintf(o, "%u", *(const UA_Byte *)p); break;
    case UA_DATATYPEKIND_INT16: fprintf(o, "%d", *(const UA_Int16 *)p); break;
    case UA_DATATYPEKIND_UINT16: fprintf(o, "%u", *(const UA_UInt16 *)p); break;
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: fprintf(o, "%d", *(const UA_Int32 *)p); break;
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: fprintf(o, "%u", *(const UA_UInt32 *)p); break;
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: fprintf(o, "%lld", (long long)*(const UA_Int64 *)p); break;
    case UA_DATATYPEKIND_UINT64: fprintf(o, "%llu", (unsigned long long)*(const UA_UInt64 *)p); break;
    case UA_DATATYPEKIND_FLOAT: fprintf(o, "\"f%.9g\"", *(const UA_Float *)p); break;
    case UA_DATATYPEKIND_DOUBLE: fprintf(o, "\"f%.17g\"", *(const UA_Double *)p); break;
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_XMLELEMENT: str(o, p); break;
    case UA_DATATYPEKIND_BYTESTRING: hex(o, p); break;
    case UA_DATATYPEKIND_GUID: { UA_NodeId id = UA_NODEID_GUID(0, *(const UA_Guid *)p); j_id(o, &id); break; }
    case UA_DATATYPEKIND_NODEID: case UA_DATATYPEKIND_EXPANDEDNODEID: j_id(o, p); break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: fprintf(o, "[%u,", ((const UA_QualifiedName *)p)->namespaceIndex); str(o, &((const UA_QualifiedName *)p)->name); fputc(']', o); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: fputc('[', o); str(o, &((const UA_LocalizedText *)p)->locale); fputc(',', o); str(o, &((const UA_LocalizedText *)p)->text); fputc(']', o); break;
    case UA_DATATYPEKIND_VARIANT: variant(o, p); break;
    case UA_DATATYPEKIND_EXTENSIONOBJECT: { const UA_ExtensionObject *e = p; fprintf(o, "{\"enc\":%d}", (int)e->encoding); break; }
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        const char *q = p; fputc('{', o);
        for(size_t i = 0; i < t->membersSize; i++) { const UA_DataTypeMember *m = &t->members[i]; q += m->padding; if(i) fputc(',', o);
            j_s(o, m->memberName ? m->memberName : ""); fputc(':', o); member(o, q, m);
            q += m->isArray ? sizeof(size_t) + sizeof(void *) : m->isOptional ? sizeof(void *) : m->memberType->memSize; }
        fputc('}', o); break; }
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sel; memcpy(&sel, p, 4); fprintf(o, "{\"#sel\":%u", sel);
        if(sel && sel <= t->membersSize) { const UA_DataTypeMember *m = &t->members[sel - 1]; fputs(",\"v\":", o); member(o, (const char *)p + m->padding, m); }
        fputc('}', o); break; }
    default: fprintf(o, "\"kind%d\"", (int)t->typeKind); break;
    }
    depth--;
}
static void refs(FILE *o, const MNode *n) {
    size_t i = 0, k = 0; fputs(",\"refs\":[", o);
    for(const MRef *r = n->refs; r; r = r->next, i++) {
        if(n->ns0 && i < n->bootRefs) continue;
        if(k++) fputc(',', o);
        fputc('[', o); j_id(o, &r->type); fputc(',', o); j_id(o, &r->target); fprintf(o, ",%s]", r->fwd ? "true" : "false");
    }
    fputc(']', o);
    if(n->ns0 && i < n->bootRefs) fputs(",\"lost\":true", o);
}
static void dump(UA_Server *s, FILE *o, int sl) {
    fprintf(o, "{\"e\":\"nstab\",\"s\":%d,\"ns\":[", sl);
    for(size_t i = 0; i < s->nsSize; i++) { if(i) fputc(',', o); j_s(o, s->ns[i]); }
    fputs("]}\n", o);
    for(const MNode *n = s->first; n; n = n->onext) {
        if(n->ns0) {
            size_t c = 0; for(const MRef *r = n->refs; r; r = r->next) c++;
            if(c == n->bootRefs) continue;
            fprintf(o, "{\"e\":\"n0\",\"s\":%d,\"id\":", sl); j_id(o, &n->id); refs(o, n); fputs("}\n", o);
            continue;
        }
        fprintf(o, "{\"e\":\"sn\",\"s\":%d,\"cls\":%d,\"id\":", sl, (int)n->cls); j_id(o, &n->id);
        fprintf(o, ",\"bns\":%u,\"bn\":", n->bn.namespaceIndex); str(o, &n->bn.name); lt(o, "dn", &n->displayName); lt(o, "desc", &n->description); lt(o, "inv", &n->inverseName);
        fputs(",\"td\":", o); j_id(o, &n->typeDef); fprintf(o, ",\"ctx\":%d", n->ctx ? xid(n->ctx) : -2);
        fprintf(o, ",\"wm\":%u,\"uwm\":%u,\"EventNotifier\":%u,\"AccessLevel\":%u,\"UserAccessLevel\":%u,\"ValueRank\":%d,\"MinimumSamplingInterval\":\"f%.17g\"", n->writeMask, n->userWriteMask, n->eventNotifier,
                n->accessLevel, n->userAccessLevel, n->valueRank, n->minSampling);
        fprintf(o, ",\"Historizing\":%d,\"Executable\":%d,\"UserExecutable\":%d,\"IsAbstract\":%d,\"Symmetric\":%d,\"ContainsNoLoops\":%d", n->historizing, n->executable, n->userExecutable, n->isAbstract, n->symmetric, n->containsNoLoops);
        fputs(",\"DataType\":", o); j_id(o, &n->dataType); fputs(",\"dims\":[", o);
        for(size_t i = 0; i < n->dimsSize; i++) fprintf(o, "%s%u", i ? "," : "", n->dims[i]);
        fputs("],\"value\":", o); variant(o, &n->value); refs(o, n); fputs("}\n", o);
    }
    size_t na = 0; const UA_DataTypeArray *as[256];
    for(const UA_DataTypeArray *a = UA_Server_getConfig(s)->customDataTypes; a && na < 256; a = a->next) as[na++] = a;
    for(size_t k = na; k-- > 0;) {
        const UA_DataTypeArray *a = as[k];
        for(size_t i = 0; i < a->typesSize; i++) {
            const UA_DataType *t = &a->types[i];
            fprintf(o, "{\"e\":\"type\",\"s\":%d,\"arr\":%zu,\"adr\":\"%p\",\"id\":", sl, na - 1 - k, (const void *)t); j_id(o, &t->typeId); fputs(",\"enc\":", o); j_id(o, &t->binaryEncodingId); fputs(",\"name\":", o); j_s(o, t->typeName);
            fprintf(o, ",\"size\":%u,\"kind\":%u,\"pf\":%u,\"ov\":%u,\"mem\":[", (unsigned)t->memSize, (unsigned)t->typeKind, (unsigned)t->pointerFree, (unsigned)t->overlayable);
            for(size_t j = 0; j < t->membersSize; j++) { const UA_DataTypeMember *m = &t->members[j]; if(j) fputc(',', o); fputc('[', o); j_s(o, m->memberName); fputc(',', o);
                if(m->memberType) j_id(o, &m->memberType->typeId); else fputs("null", o); fprintf(o, ",%u,%u,%u]", (unsigned)m->padding, (unsigned)m->isArray, (unsigned)m->isOptional); }
            fprintf(o, "],\"found\":%s}\n", NodesetLoader_getCustomDataType(s, &t->typeId) == t ? "true" : "false");
        }
    }
    size_t okn = 0, badn = 0, okr = 0, badr = 0;
    for(size_t i = 0; i < s->callsSize; i++) { bool bad = UA_StatusCode_isBad(s->calls[i].st); if(s->calls[i].kind == 'N') { if(bad) badn++; else okn++; } else { if(bad) badr++; else okr++; } }
    fprintf(o, "{\"e\":\"calls\",\"s\":%d,\"n\":%zu,\"nbad\":%zu,\"r\":%zu,\"rbad\":%zu}\n", sl, okn, badn, okr, badr);
}
static void appTypes(Srv *v, unsigned ns, unsigned n) {
    /* data types an application registered itself before loading: {Int32, Byte}, an Int16 alias, ... */
    v->appTypes = calloc(n, sizeof *v->appTypes); v->appM = calloc(2 * n, sizeof *v->appM); v->useApp = 1;
    for(unsigned i = 0; i < n; i++) {
        UA_DataType *t = &v->appTypes[i]; UA_DataTypeMember *m = &v->appM[2 * i];
        t->typeName = "AppType"; t->typeId = UA_NODEID_NUMERIC((UA_UInt16)ns, 90001 + i); t->binaryEncodingId = UA_NODEID_NUMERIC((UA_UInt16)ns, 91001 + i);
        t->memSize = 8; t->typeKind = UA_DATATYPEKIND_STRUCTURE; t->pointerFree = 1; t->membersSize = 2; t->members = m;
        m[0].memberName = "a"; m[0].memberType = &UA_TYPES[UA_TYPES_INT32]; m[1].memberName = "b"; m[1].memberType = &UA_TYPES[UA_TYPES_BYTE];
    }
    v->app.types = v->appTypes; *(size_t *)(uintptr_t)&v->app.typesSize = n;
    v->app.next = UA_Server_getConfig(v->s)->customDataTypes; UA_Server_getConfig(v->s)->customDataTypes = &v->app;
}
static void clean(Srv *v) {
    if(!v->s) return;
    const UA_DataTypeArray *t = UA_Server_getConfig(v->s)->customDataTypes;
    UA_Server_delete(v->s); v->s = NULL;
    if(v->useApp) { /* the application keeps its own array */
        if(t == &v->app) t = NULL;
        for(const UA_DataTypeArray *a = t; a; a = a->next) if(a->next == &v->app) { ((UA_DataTypeArray *)(uintptr_t)a)->next = NULL; break; }
    }
    H_LIB(NodesetLoader_cleanupCustomDataTypes(t));
    free(v->appTypes); free(v->appM); memset(v, 0, sizeof *v);
}
static void runCase(char **lines, size_t n, FILE *out) {
    State *s = calloc(1, sizeof *s); cur = s; s->o = out;
    s->ei.userContext = s; s->ei.newExtension = extNew; s->ei.start = extStart; s->ei.end = extEnd; s->ei.finish = extFinish;
    for(size_t k = 0; k < n; k++) {
        char *f[8]; memset(f, 0, sizeof f); int nf = h_split(lines[k], f, 8); int sl = nf > 1 ? atoi(f[1]) : 0; if(sl < 0 || sl >= SLOTS) sl = 0;
        Srv *v = &s->sv[sl];
        if(!strcmp(f[0], "srv")) { if(v->s) continue; v->s = UA_Server_new(); v->lg.log = logCb; v->lg.context = &v->magic;
            UA_Server_getConfig(v->s)->logging = f[2][0] == '1' ? &v->lg : NULL; }
        else if(!strcmp(f[0], "loadnull")) { bool r; fputs("{\"e\":\"loadbegin\"}\n", out); H_LIB(r = NodesetLoader_loadFile(NULL, f[2], NULL)); fprintf(out, "{\"e\":\"load\",\"r\":%s}\n", r ? "true" : "false"); }
        else if(!v->s) continue;
        else if(!strcmp(f[0], "addns")) UA_Server_addNamespace(v->s, f[2]);
        else if(!strcmp(f[0], "app")) appTypes(v, (unsigned)atoi(f[2]), (unsigned)atoi(f[3]));
        else if(!strcmp(f[0], "load")) { bool r; fputs("{\"e\":\"loadbegin\"}\n", out); H_LIB(r = NodesetLoader_loadFile(v->s, f[2][0] ? f[2] : NULL, f[3][0] == '1' ? &s->ei : NULL)); fprintf(out, "{\"e\":\"load\",\"s\":%d,\"r\":%s}\n", sl, r ? "true" : "false"); }
        else if(!strcmp(f[0], "unlink")) unlink(f[2]);
        else if(!strcmp(f[0], "dump")) { fputs("{\"e\":\"dumpbegin\"}\n", out); dump(v->s, out, sl); fputs("{\"e\":\"dumpend\"}\n", out); }
        else if(!strcmp(f[0], "find")) { UA_NodeId id = h_parse_id(f[2]); fprintf(out, "{\"e\":\"find\",\"r\":%s}\n", NodesetLoader_getCustomDataType(v->s, &id) ? "true" : "false"); UA_NodeId_clear(&id); }
        else if(!strcmp(f[0], "clean")) { clean(v); fputs("{\"e\":\"clean\"}\n", out); }
        fflush(out);
    }
    for(int i = 0; i < SLOTS; i++) clean(&s->sv[i]);
    H_LIB(xmlResetLastError());
    fputs("{\"e\":\"end\"}\n", out); fflush(out);
    while(s->exts) { ExtObj *e = s->exts->next; free(s->exts); s->exts = e; }
    free(s); cur = 0;
}
int main(int argc, char **argv) {
    if(argc > 2 && !strcmp(argv[1], "threads")) return h_threads(runCase, atoi(argv[2]), 0);
    if(argc > 2 && !strcmp(argv[1], "sequential")) return h_threads(runCase, atoi(argv[2]), 1);
    h_run_cases(argc, argv, runCase, NULL); fflush(stdout); _exit(0); }
