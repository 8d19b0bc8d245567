/* Script interpreter around the public core API (NodesetLoader.h); records
 * everything the API delivers. See lib/core.py for the script commands. */
#include "common.h"
#include <NodesetLoader/NodesetLoader.h>
#include <libxml/xmlerror.h>

#define SLOTS 8
#define EXTMAX 4096
typedef struct ExtObj { struct State *st; int id; struct ExtObj *next; } ExtObj;
typedef struct State {
    FILE *o; char magic[256]; unsigned nimp; void *uctx; /* every import has a context of its own, some have none */
    NodesetLoader *ld[SLOTS]; NodesetLoader_Logger lg[SLOTS]; NL_ReferenceService rs[SLOTS]; int act;
    UA_NodeId *rid; char *rkind; size_t nr;
    char *uri[4096]; unsigned idx[4096]; size_t nu; unsigned next;
    int extNext; unsigned nnew; ExtObj *exts; NodesetLoader_ExtensionInterface ei, ei2; int quiet; int cls; int sl;
} State;
static __thread State *cur;

static void logCb(void *ctx, enum NodesetLoader_LogLevel lv, const char *m, ...) {
    int t = h_track; h_track = 0;
    State *s = cur; char b[4096]; va_list v; va_start(v, m); vsnprintf(b, sizeof b, m, v); va_end(v);
    fprintf(s->o, "{\"e\":\"log\",\"lv\":%d,\"ctx\":%s,\"m\":", (int)lv, ctx == s->lg[s->act].context ? "true" : "false"); j_s(s->o, b); fputs("}\n", s->o);
    h_track = t;
}
static unsigned short nsCb(void *ctx, const char *uri) {
    int t = h_track; h_track = 0;
    State *s = cur; unsigned r = 0; size_t i;
    for(i = 0; i < s->nu; i++) if(uri && !strcmp(s->uri[i], uri)) { r = s->idx[i]; break; }
    if(i == s->nu) { if(uri && !strcmp(uri, "http://opcfoundation.org/UA/")) r = 0; else r = s->next++;
        if(s->nu < 4096) { s->uri[s->nu] = strdup(uri ? uri : ""); s->idx[s->nu++] = r; } }
    fprintf(s->o, "{\"e\":\"ns\",\"ctx\":%s,\"idx\":%u,\"uri\":", ctx == s->uctx ? "true" : "false", r); j_s(s->o, uri); fputs("}\n", s->o);
    h_track = t;
    return (unsigned short)r;
}
static bool isKind(void *c, const NL_Reference *r, char k) {
    State *s = cur; if(c != s->rs[s->act].context) { fputs("{\"e\":\"badctx\",\"m\":\"reference service\"}\n", s->o); return false; }
    for(size_t i = 0; i < s->nr; i++) if(s->rkind[i] == k && UA_NodeId_equal(&s->rid[i], &r->refType)) return true;
    return false;
}
static bool isH(void *c, const NL_Reference *r) { return isKind(c, r, 'H'); }
static bool isN(void *c, const NL_Reference *r) { return isKind(c, r, 'N') || isKind(c, r, 'T'); }
static bool isT(void *c, const NL_Reference *r) { return isKind(c, r, 'T'); }
static void addRT(void *c, const NL_ReferenceTypeNode *n) {
    int t = h_track; h_track = 0;
    State *s = cur; if(c != s->rs[s->act].context) fputs("{\"e\":\"badctx\",\"m\":\"reference service\"}\n", s->o);
    fprintf(s->o, "{\"e\":\"newreftype\",\"id\":"); j_id(s->o, &n->id); fputs("}\n", s->o);
    h_track = t;
}
static void *extNew(int h) {
    int t = h_track; h_track = 0;
    State *s = cur;
    if(h == 2 && s->nnew++ % 3 == 2) { /* a handler without an object for this extension */
        fprintf(s->o, "{\"e\":\"xnew\",\"x\":-1,\"h\":%d}\n", h); h_track = t; return NULL; }
    ExtObj *e = calloc(1, sizeof *e); e->st = s; e->id = s->extNext++; e->next = s->exts; s->exts = e;
    fprintf(s->o, "{\"e\":\"xnew\",\"x\":%d,\"h\":%d}\n", e->id, h);
    h_track = t; return e;
}
static int xid(void *d) { for(ExtObj *e = cur->exts; e; e = e->next) if(e == d) return e->id; return -1; }
static void extStart(int h, void *d, const char *name, int n, const char **a) {
    int t = h_track; h_track = 0;
    State *s = cur; fprintf(s->o, "{\"e\":\"xstart\",\"x\":%d,\"h\":%d,\"name\":", xid(d), h); j_s(s->o, name); fputs(",\"at\":[", s->o);
    for(int i = 0; i < n; i++) { if(i) fputc(',', s->o); fputc('[', s->o); j_s(s->o, a[5 * i]); fputc(',', s->o); j_s(s->o, a[5 * i + 1]); fputc(',', s->o); j_s(s->o, a[5 * i + 2]); fputc(',', s->o); j_sn(s->o, a[5 * i + 3], (size_t)(a[5 * i + 4] - a[5 * i + 3])); fputc(']', s->o); }
    fputs("]}\n", s->o); h_track = t;
}
static void extEnd(int h, void *d, const char *name, const char *v) {
    int t = h_track; h_track = 0;
    State *s = cur; fprintf(s->o, "{\"e\":\"xend\",\"x\":%d,\"h\":%d,\"name\":", xid(d), h); j_s(s->o, name); fputs(",\"v\":", s->o); j_s(s->o, v); fputs("}\n", s->o); h_track = t;
}
static void extFinish(int h, void *d) { int t = h_track; h_track = 0; fprintf(cur->o, "{\"e\":\"xfinish\",\"x\":%d,\"h\":%d}\n", xid(d), h); h_track = t; }
#define HANDLER(h) static void *extNew##h(void) { return extNew(h); } \
    static void extStart##h(void *d, const char *name, int n, const char **a) { extStart(h, d, name, n, a); } \
    static void extEnd##h(void *d, const char *name, const char *v) { extEnd(h, d, name, v); } \
    static void extFinish##h(void *d) { extFinish(h, d); }
HANDLER(1)
HANDLER(2)

static void refs(FILE *o, const char *name, const NL_Reference *r) {
    fprintf(o, ",\"%s\":[", name); size_t guard = 0;
    for(const NL_Reference *p = r; p; p = p->next) {
        if(p != r) fputc(',', o);
        fputc('[', o); j_id(o, &p->refType); fputc(',', o); j_id(o, &p->target); fprintf(o, ",%s]", p->isForward ? "true" : "false");
        if(++guard > 5000000) { fputs(",\"ENDLESS\"", o); break; }
    }
    fputc(']', o);
}
static void lt(FILE *o, const char *name, const NL_LocalizedText *t) { fprintf(o, ",\"%s\":[", name); j_s(o, t->locale); fputc(',', o); j_s(o, t->text); fputc(']', o); }
static void st(FILE *o, const char *name, const char *v) { fprintf(o, ",\"%s\":", name); j_s(o, v); }
static void id(FILE *o, const char *name, const UA_NodeId *v) { fprintf(o, ",\"%s\":", name); j_id(o, v); }
static void data(FILE *o, const NL_Data *d, const NL_Data *parent) {
    if(!d) { fputs("null", o); return; }
    fputs("{\"n\":", o); j_s(o, d->name);
    if(d->parent != parent) fputs(",\"badparent\":true", o);
    if(d->type == DATATYPE_PRIMITIVE) { fputs(",\"p\":", o); j_s(o, d->val.primitiveData.value); }
    else { fputs(",\"c\":[", o); for(size_t i = 0; i < d->val.complexData.membersSize; i++) { if(i) fputc(',', o); data(o, d->val.complexData.members[i], d); } fputc(']', o); }
    fputc('}', o);
}
static void nodeCb(void *ctx, NL_Node *n) {
    int t = h_track; h_track = 0;
    State *s = ctx; FILE *o = s->o;
    fprintf(o, "{\"e\":\"node\",\"s\":%d,\"it\":%d,\"cls\":%d", s->sl, s->cls, (int)n->nodeClass); id(o, "id", &n->id);
    fprintf(o, ",\"bns\":%u", (unsigned)n->browseName.nsIdx); st(o, "bn", n->browseName.name); lt(o, "dn", &n->displayName); lt(o, "desc", &n->description);
    st(o, "wm", n->writeMask);
    refs(o, "h", n->hierachicalRefs); refs(o, "nh", n->nonHierachicalRefs); refs(o, "un", n->unknownRefs);
    fprintf(o, ",\"ext\":%d", n->extension ? xid(n->extension) : -2);
    fprintf(o, ",\"inst\":%s", NodesetLoader_isInstanceNode(n) ? "true" : "false");
    switch(n->nodeClass) {
    case NODECLASS_OBJECT: { NL_ObjectNode *x = (NL_ObjectNode *)n; id(o, "parent", &x->parentNodeId); st(o, "EventNotifier", x->eventNotifier); refs(o, "td", x->refToTypeDef); break; }
    case NODECLASS_OBJECTTYPE: st(o, "IsAbstract", ((NL_ObjectTypeNode *)n)->isAbstract); break;
    case NODECLASS_VARIABLE: { NL_VariableNode *x = (NL_VariableNode *)n; id(o, "parent", &x->parentNodeId); id(o, "DataType", &x->datatype);
        st(o, "ArrayDimensions", x->arrayDimensions); st(o, "ValueRank", x->valueRank); st(o, "AccessLevel", x->accessLevel); st(o, "UserAccessLevel", x->userAccessLevel);
        st(o, "Historizing", x->historizing); st(o, "MinimumSamplingInterval", x->minimumSamplingInterval); refs(o, "td", x->refToTypeDef);
        if(x->value) { fprintf(o, ",\"value\":{\"isArray\":%s,\"isExt\":%s", x->value->isArray ? "true" : "false", x->value->isExtensionObject ? "true" : "false"); st(o, "type", x->value->type); fputs(",\"data\":", o); data(o, x->value->data, 0); fputc('}', o); }
        else fputs(",\"value\":null", o);
        break; }
    case NODECLASS_DATATYPE: { NL_DataTypeNode *x = (NL_DataTypeNode *)n; st(o, "IsAbstract", x->isAbstract);
        if(x->definition) { fprintf(o, ",\"def\":{\"isEnum\":%s,\"isUnion\":%s,\"isOptionSet\":%s,\"fields\":[", x->definition->isEnum ? "true" : "false", x->definition->isUnion ? "true" : "false", x->definition->isOptionSet ? "true" : "false");
            for(size_t i = 0; i < x->definition->fieldCnt; i++) { NL_DataTypeDefinitionField *f = &x->definition->fields[i]; if(i) fputc(',', o); fputs("[", o); j_s(o, f->name); fputc(',', o); j_id(o, &f->dataType); fprintf(o, ",%d,%d,%s]", f->valueRank, f->value, f->isOptional ? "true" : "false"); }
            fputs("]}", o); } else fputs(",\"def\":null", o);
        break; }
    case NODECLASS_METHOD: { NL_MethodNode *x = (NL_MethodNode *)n; id(o, "parent", &x->parentNodeId); st(o, "Executable", x->executable); st(o, "UserExecutable", x->userExecutable); break; }
    case NODECLASS_REFERENCETYPE: lt(o, "inv", &((NL_ReferenceTypeNode *)n)->inverseName); st(o, "Symmetric", ((NL_ReferenceTypeNode *)n)->symmetric); break;
    case NODECLASS_VARIABLETYPE: { NL_VariableTypeNode *x = (NL_VariableTypeNode *)n; st(o, "IsAbstract", x->isAbstract); id(o, "DataType", &x->datatype); st(o, "ArrayDimensions", x->arrayDimensions); st(o, "ValueRank", x->valueRank); break; }
    case NODECLASS_VIEW: { NL_ViewNode *x = (NL_ViewNode *)n; id(o, "parent", &x->parentNodeId); st(o, "ContainsNoLoops", x->containsNoLoops); st(o, "EventNotifier", x->eventNotifier); break; }
    default: break;
    }
    fputs("}\n", o);
    h_track = t;
}
static void runCase(char **lines, size_t n, FILE *out) {
    State *s = calloc(1, sizeof *s); cur = s; s->o = out; s->next = 2;
    for(int i = 0; i < SLOTS; i++) {
        s->lg[i].context = &s->lg[i]; s->lg[i].log = logCb; s->rs[i].context = &s->rs[i];
        s->rs[i].isHierachicalRef = isH; s->rs[i].isNonHierachicalRef = isN; s->rs[i].isHasTypeDefRef = isT; s->rs[i].addNewReferenceType = addRT;
    }
    s->ei.userContext = s; s->ei.newExtension = extNew1; s->ei.start = extStart1; s->ei.end = extEnd1; s->ei.finish = extFinish1;
    s->ei2.userContext = s; s->ei2.newExtension = extNew2; s->ei2.start = extStart2; s->ei2.end = extEnd2; s->ei2.finish = extFinish2;
    for(size_t k = 0; k < n; k++) {
        char *f[8]; memset(f, 0, sizeof f); int nf = h_split(lines[k], f, 8); int sl = nf > 1 ? atoi(f[1]) : 0; if(sl < 0 || sl >= SLOTS) sl = 0;
        s->act = sl;
        if(!strcmp(f[0], "ns")) { s->uri[s->nu] = strdup(f[1]); s->idx[s->nu++] = (unsigned)atoi(f[2]); }
        else if(!strcmp(f[0], "nsclear")) { for(size_t i = 0; i < s->nu; i++) free(s->uri[i]); s->nu = 0; }
        else if(!strcmp(f[0], "nsnext")) s->next = (unsigned)atoi(f[1]);
        else if(!strcmp(f[0], "ref")) { s->rid = realloc(s->rid, (s->nr + 1) * sizeof *s->rid); s->rkind = realloc(s->rkind, s->nr + 1); s->rkind[s->nr] = f[1][0]; s->rid[s->nr++] = h_parse_id(f[2]); }
        else if(!strcmp(f[0], "new")) { if(!s->ld[sl]) { /* 0: built-in, 1: own, 2: own without a context */
            s->lg[sl].context = f[2][0] == '2' ? NULL : &s->lg[sl]; s->rs[sl].context = f[3][0] == '2' ? NULL : &s->rs[sl];
            H_LIB(s->ld[sl] = NodesetLoader_new(f[2][0] != '0' ? &s->lg[sl] : NULL, f[3][0] != '0' ? &s->rs[sl] : NULL)); } }
        else if(!s->ld[sl]) continue;
        else if(!strcmp(f[0], "imp")) { NL_FileContext c; memset(&c, 0, sizeof c); unsigned im = s->nimp++; s->uctx = im % 4 == 3 ? NULL : &s->magic[im % 256];
            c.userContext = s->uctx; c.file = f[2]; c.addNamespace = nsCb; c.extensionHandling = f[3][0] == '1' ? &s->ei : f[3][0] == '2' ? &s->ei2 : NULL;
            bool r; fputs("{\"e\":\"impbegin\"}\n", out); H_LIB(r = NodesetLoader_importFile(s->ld[sl], &c)); fprintf(out, "{\"e\":\"imp\",\"s\":%d,\"r\":%s}\n", sl, r ? "true" : "false"); }
        else if(!strcmp(f[0], "inv")) { NL_FileContext c; memset(&c, 0, sizeof c); c.file = f[3]; bool r; fputs("{\"e\":\"impbegin\"}\n", out);
            H_LIB(r = NodesetLoader_importFile(s->ld[sl], f[2][0] == '0' ? NULL : &c)); fprintf(out, "{\"e\":\"imp\",\"s\":%d,\"r\":%s}\n", sl, r ? "true" : "false"); }
        else if(!strcmp(f[0], "sort")) { bool r; fputs("{\"e\":\"sortbegin\"}\n", out); H_LIB(r = NodesetLoader_sort(s->ld[sl])); fprintf(out, "{\"e\":\"sort\",\"s\":%d,\"r\":%s}\n", sl, r ? "true" : "false"); }
        else if(!strcmp(f[0], "dump")) { for(int c = 0; c < NL_NODECLASS_COUNT; c++) { size_t cnt; s->cls = c; s->sl = sl; H_LIB(cnt = NodesetLoader_forEachNode(s->ld[sl], (NL_NodeClass)c, s, nodeCb)); fprintf(out, "{\"e\":\"count\",\"s\":%d,\"cls\":%d,\"n\":%zu}\n", sl, c, cnt); } }
        else if(!strcmp(f[0], "bidi")) { const NL_BiDirectionalReference *b; H_LIB(b = NodesetLoader_getBidirectionalRefs(s->ld[sl]));
            for(; b; b = b->next) { fputs("{\"e\":\"bidi\",\"src\":", out); j_id(out, &b->source); fputs(",\"dst\":", out); j_id(out, &b->target); fputs(",\"rt\":", out); j_id(out, &b->refType); fputs("}\n", out); }
            fputs("{\"e\":\"bidiend\"}\n", out); }
        else if(!strcmp(f[0], "mark")) { fputs("{\"e\":\"mark\",\"m\":", out); j_s(out, f[2]); fputs("}\n", out); }
        else if(!strcmp(f[0], "print")) { printf("%s\n", f[2]); fflush(stdout); }
        else if(!strcmp(f[0], "del")) { H_LIB(NodesetLoader_delete(s->ld[sl])); s->ld[sl] = 0; fputs("{\"e\":\"del\"}\n", out); }
        fflush(out);
    }
    for(int i = 0; i < SLOTS; i++) if(s->ld[i]) { s->act = i; H_LIB(NodesetLoader_delete(s->ld[i])); s->ld[i] = 0; }
    H_LIB(xmlResetLastError()); /* libxml2 keeps the last error of a thread */
    fputs("{\"e\":\"end\"}\n", out); fflush(out);
    while(s->exts) { ExtObj *e = s->exts->next; free(s->exts); s->exts = e; }
    for(size_t i = 0; i < s->nu; i++) free(s->uri[i]);
    for(size_t i = 0; i < s->nr; i++) UA_NodeId_clear(&s->rid[i]);
    free(s->rid); free(s->rkind); free(s); cur = 0;
}

int main(int argc, char **argv) {
    if(argc > 2 && !strcmp(argv[1], "threads")) return h_threads(runCase, atoi(argv[2]), 0);
    if(argc > 2 && !strcmp(argv[1], "sequential")) return h_threads(runCase, atoi(argv[2]), 1);
    h_run_cases(argc, argv, runCase, NULL);
    fflush(stdout); _exit(0);
}
