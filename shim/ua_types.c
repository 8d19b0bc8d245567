/* Stand-in implementation of the open62541 1.4 type layer; see types.h. */
#include <open62541/types_generated.h>
#include <time.h>
#include <ctype.h>

const UA_String UA_STRING_NULL = {0, NULL};
const UA_ByteString UA_BYTESTRING_NULL = {0, NULL};
const UA_Guid UA_GUID_NULL = {0, 0, 0, {0}};
const UA_NodeId UA_NODEID_NULL = {0, UA_NODEIDTYPE_NUMERIC, {0}};
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL = {{0, UA_NODEIDTYPE_NUMERIC, {0}}, {0, NULL}, 0};

#define N(i) {0, UA_NODEIDTYPE_NUMERIC, {i}}
#define B(NAME, T, ID, ENC, KIND, PF, OV) {NAME, N(ID), N(ENC), sizeof(UA_##T), KIND, PF, OV, 0, NULL}
#define AFTER(T, prev, prevT, m) (offsetof(UA_##T, m) - offsetof(UA_##T, prev) - sizeof(prevT))
#define LT UA_LocalizedText
static UA_DataTypeMember Argument_m[] = {
  {"Name", &UA_TYPES[UA_TYPES_STRING], 0, 0, 0},
  {"DataType", &UA_TYPES[UA_TYPES_NODEID], AFTER(Argument, name, UA_String, dataType), 0, 0},
  {"ValueRank", &UA_TYPES[UA_TYPES_INT32], AFTER(Argument, dataType, UA_NodeId, valueRank), 0, 0},
  {"ArrayDimensions", &UA_TYPES[UA_TYPES_UINT32], AFTER(Argument, valueRank, UA_Int32, arrayDimensionsSize), 1, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], AFTER(Argument, arrayDimensions, void *, description), 0, 0}};
static UA_DataTypeMember Range_m[] = {
  {"Low", &UA_TYPES[UA_TYPES_DOUBLE], 0, 0, 0}, {"High", &UA_TYPES[UA_TYPES_DOUBLE], 0, 0, 0}};
static UA_DataTypeMember EUInformation_m[] = {
  {"NamespaceUri", &UA_TYPES[UA_TYPES_STRING], 0, 0, 0}, {"UnitId", &UA_TYPES[UA_TYPES_INT32], 0, 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], AFTER(EUInformation, unitId, UA_Int32, displayName), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], 0, 0, 0}};
static UA_DataTypeMember EnumValueType_m[] = {
  {"Value", &UA_TYPES[UA_TYPES_INT64], 0, 0, 0}, {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], 0, 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], 0, 0, 0}};
static UA_DataTypeMember TimeZone_m[] = {
  {"Offset", &UA_TYPES[UA_TYPES_INT16], 0, 0, 0}, {"DaylightSavingInOffset", &UA_TYPES[UA_TYPES_BOOLEAN], 0, 0, 0}};
static UA_DataTypeMember XV_m[] = {
  {"X", &UA_TYPES[UA_TYPES_DOUBLE], 0, 0, 0}, {"Value", &UA_TYPES[UA_TYPES_FLOAT], 0, 0, 0}};
static UA_DataTypeMember Axis_m[] = {
  {"EngineeringUnits", &UA_TYPES[UA_TYPES_EUINFORMATION], 0, 0, 0}, {"EURange", &UA_TYPES[UA_TYPES_RANGE], 0, 0, 0},
  {"Title", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], 0, 0, 0}, {"AxisScaleType", &UA_TYPES[UA_TYPES_AXISSCALEENUMERATION], 0, 0, 0},
  {"AxisSteps", &UA_TYPES[UA_TYPES_DOUBLE], AFTER(AxisInformation, axisScaleType, UA_Int32, axisStepsSize), 1, 0}};
static UA_DataTypeMember OptionSet_m[] = {
  {"Value", &UA_TYPES[UA_TYPES_BYTESTRING], 0, 0, 0}, {"ValidBits", &UA_TYPES[UA_TYPES_BYTESTRING], 0, 0, 0}};
static UA_DataTypeMember Complex_m[] = {
  {"Real", &UA_TYPES[UA_TYPES_FLOAT], 0, 0, 0}, {"Imaginary", &UA_TYPES[UA_TYPES_FLOAT], 0, 0, 0}};
#define S(NAME, T, ID, ENC, PF, M) {NAME, N(ID), N(ENC), sizeof(UA_##T), UA_DATATYPEKIND_STRUCTURE, PF, 0, sizeof(M) / sizeof(M[0]), M}
#define E(NAME, T, ID) {NAME, N(ID), N(0), sizeof(UA_##T), UA_DATATYPEKIND_ENUM, 1, 1, 0, NULL}
#define A(NAME, T, ID) {NAME, N(ID), N(0), sizeof(UA_##T), UA_DATATYPEKIND_STRUCTURE, 0, 0, 0, NULL}
const UA_DataType UA_TYPES[UA_TYPES_COUNT] = {
  B("Boolean", Boolean, 1, 0, UA_DATATYPEKIND_BOOLEAN, 1, 0), B("SByte", SByte, 2, 0, UA_DATATYPEKIND_SBYTE, 1, 1),
  B("Byte", Byte, 3, 0, UA_DATATYPEKIND_BYTE, 1, 1), B("Int16", Int16, 4, 0, UA_DATATYPEKIND_INT16, 1, 1),
  B("UInt16", UInt16, 5, 0, UA_DATATYPEKIND_UINT16, 1, 1), B("Int32", Int32, 6, 0, UA_DATATYPEKIND_INT32, 1, 1),
  B("UInt32", UInt32, 7, 0, UA_DATATYPEKIND_UINT32, 1, 1), B("Int64", Int64, 8, 0, UA_DATATYPEKIND_INT64, 1, 1),
  B("UInt64", UInt64, 9, 0, UA_DATATYPEKIND_UINT64, 1, 1), B("Float", Float, 10, 0, UA_DATATYPEKIND_FLOAT, 1, 1),
  B("Double", Double, 11, 0, UA_DATATYPEKIND_DOUBLE, 1, 1), B("String", String, 12, 0, UA_DATATYPEKIND_STRING, 0, 0),
  B("DateTime", DateTime, 13, 0, UA_DATATYPEKIND_DATETIME, 1, 1), B("Guid", Guid, 14, 0, UA_DATATYPEKIND_GUID, 1, 1),
  B("ByteString", ByteString, 15, 0, UA_DATATYPEKIND_BYTESTRING, 0, 0), B("XmlElement", XmlElement, 16, 0, UA_DATATYPEKIND_XMLELEMENT, 0, 0),
  B("NodeId", NodeId, 17, 0, UA_DATATYPEKIND_NODEID, 0, 0), B("ExpandedNodeId", ExpandedNodeId, 18, 0, UA_DATATYPEKIND_EXPANDEDNODEID, 0, 0),
  B("StatusCode", StatusCode, 19, 0, UA_DATATYPEKIND_STATUSCODE, 1, 1), B("QualifiedName", QualifiedName, 20, 0, UA_DATATYPEKIND_QUALIFIEDNAME, 0, 0),
  B("LocalizedText", LocalizedText, 21, 0, UA_DATATYPEKIND_LOCALIZEDTEXT, 0, 0), B("ExtensionObject", ExtensionObject, 22, 0, UA_DATATYPEKIND_EXTENSIONOBJECT, 0, 0),
  B("DataValue", DataValue, 23, 0, UA_DATATYPEKIND_DATAVALUE, 0, 0), B("Variant", Variant, 24, 0, UA_DATATYPEKIND_VARIANT, 0, 0),
  B("DiagnosticInfo", DiagnosticInfo, 25, 0, UA_DATATYPEKIND_DIAGNOSTICINFO, 0, 0),
  E("NodeClass", NodeClass, 257), E("ApplicationType", ApplicationType, 307), E("ServerState", ServerState, 852),
  E("AxisScaleEnumeration", AxisScaleEnumeration, 12077),
  S("Argument", Argument, 296, 298, 0, Argument_m), S("Range", Range, 884, 886, 1, Range_m),
  S("EUInformation", EUInformation, 887, 889, 0, EUInformation_m), S("EnumValueType", EnumValueType, 7594, 8251, 0, EnumValueType_m),
  S("TimeZoneDataType", TimeZoneDataType, 8912, 8917, 1, TimeZone_m), S("XVType", XVType, 12080, 12090, 1, XV_m),
  S("AxisInformation", AxisInformation, 12079, 12089, 0, Axis_m), S("ComplexNumberType", ComplexNumberType, 12171, 12181, 1, Complex_m),
  S("OptionSet", OptionSet, 12755, 12765, 0, OptionSet_m),
  A("ObjectAttributes", ObjectAttributes, 352), A("VariableAttributes", VariableAttributes, 355), A("MethodAttributes", MethodAttributes, 358),
  A("ObjectTypeAttributes", ObjectTypeAttributes, 361), A("VariableTypeAttributes", VariableTypeAttributes, 364),
  A("ReferenceTypeAttributes", ReferenceTypeAttributes, 367), A("DataTypeAttributes", DataTypeAttributes, 370), A("ViewAttributes", ViewAttributes, 373),
  A("BrowseDescription", BrowseDescription, 514), A("ReferenceDescription", ReferenceDescription, 518), A("BrowseResult", BrowseResult, 522),
};

const char *UA_StatusCode_name(UA_StatusCode c) {
    static _Thread_local char buf[32];
    if(c == 0) return "Good";
    snprintf(buf, sizeof buf, "0x%08x", c);
    return buf;
}
UA_String UA_String_fromChars(const char *src) {
    UA_String s = {0, NULL};
    if(!src) return s;
    s.length = strlen(src);
    if(s.length == 0) { s.data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return s; }
    s.data = (UA_Byte *)malloc(s.length);
    memcpy(s.data, src, s.length);
    return s;
}
UA_Boolean UA_String_isEmpty(const UA_String *s) { return s->length == 0 || s->data == NULL; }
UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return false;
    return a->length == 0 || memcmp(a->data, b->data, a->length) == 0;
}
UA_Order UA_String_order(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return a->length < b->length ? UA_ORDER_LESS : UA_ORDER_MORE;
    int c = a->length ? memcmp(a->data, b->data, a->length) : 0;
    return c == 0 ? UA_ORDER_EQ : (c < 0 ? UA_ORDER_LESS : UA_ORDER_MORE);
}

/* DateTime */
static int64_t daysFromCivil(int64_t y, int64_t m, int64_t d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    int64_t yoe = y - era * 400;
    int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts) {
    int64_t y = ts.year, m = (int64_t)ts.month - 1;
    y += m / 12; m %= 12;
    if(m < 0) { m += 12; y -= 1; }
    int64_t secs = daysFromCivil(y, m + 1, 1) + (int64_t)ts.day - 1;
    secs = secs * 86400 + (int64_t)ts.hour * 3600 + (int64_t)ts.min * 60 + ts.sec;
    uint64_t t = (uint64_t)secs * (uint64_t)UA_DATETIME_SEC + (uint64_t)UA_DATETIME_UNIX_EPOCH;
    t += (uint64_t)ts.milliSec * UA_DATETIME_MSEC + (uint64_t)ts.microSec * UA_DATETIME_USEC + ts.nanoSec / 100;
    return (UA_DateTime)t;
}
UA_DateTimeStruct UA_DateTime_toStruct(UA_DateTime t) {
    UA_DateTimeStruct s; memset(&s, 0, sizeof s);
    int64_t v = (int64_t)((uint64_t)t - (uint64_t)UA_DATETIME_UNIX_EPOCH);
    int64_t secs = v / UA_DATETIME_SEC, fr = v % UA_DATETIME_SEC;
    if(fr < 0) { fr += UA_DATETIME_SEC; secs--; }
    time_t tt = secs; struct tm tm; gmtime_r(&tt, &tm);
    s.nanoSec = (UA_UInt16)((fr % 10) * 100); s.microSec = (UA_UInt16)((fr % 10000) / 10); s.milliSec = (UA_UInt16)(fr / 10000);
    s.sec = tm.tm_sec; s.min = tm.tm_min; s.hour = tm.tm_hour; s.day = tm.tm_mday; s.month = tm.tm_mon + 1; s.year = tm.tm_year + 1900;
    return s;
}
UA_DateTime UA_DateTime_now(void) { return (UA_DateTime)time(NULL) * UA_DATETIME_SEC + UA_DATETIME_UNIX_EPOCH; }

/* Guid */
UA_Boolean UA_Guid_equal(const UA_Guid *a, const UA_Guid *b) { return memcmp(a, b, sizeof(UA_Guid)) == 0; }
static int hexv(int c) {
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    if(c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
UA_StatusCode UA_Guid_parse(UA_Guid *g, const UA_String s) {
    UA_Guid r; uint8_t b[16]; size_t n = 0;
    memset(g, 0, sizeof *g); memset(&r, 0, sizeof r);
    if(s.length != 36) return UA_STATUSCODE_BADDECODINGERROR;
    for(size_t i = 0; i < 36;) {
        if(i == 8 || i == 13 || i == 18 || i == 23) { if(s.data[i] != '-') return UA_STATUSCODE_BADDECODINGERROR; i++; continue; }
        int a = hexv(s.data[i]), c = hexv(s.data[i + 1]);
        if(a < 0 || c < 0) return UA_STATUSCODE_BADDECODINGERROR;
        b[n++] = (uint8_t)(a * 16 + c); i += 2;
    }
    r.data1 = ((UA_UInt32)b[0] << 24) | ((UA_UInt32)b[1] << 16) | ((UA_UInt32)b[2] << 8) | b[3];
    r.data2 = (UA_UInt16)((b[4] << 8) | b[5]); r.data3 = (UA_UInt16)((b[6] << 8) | b[7]);
    memcpy(r.data4, b + 8, 8);
    *g = r; return UA_STATUSCODE_GOOD;
}
static void guidStr(const UA_Guid *g, char *o) {
    snprintf(o, 37, "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x", g->data1, g->data2, g->data3, g->data4[0], g->data4[1],
             g->data4[2], g->data4[3], g->data4[4], g->data4[5], g->data4[6], g->data4[7]);
}
UA_StatusCode UA_Guid_print(const UA_Guid *g, UA_String *out) { char b[40]; guidStr(g, b); *out = UA_String_fromChars(b); return 0; }
UA_Guid UA_GUID(const char *chars) { UA_Guid g; UA_Guid_parse(&g, UA_STRING((char *)(uintptr_t)chars)); return g; }

/* base64 for b= identifiers */
static int b64v(int c) {
    if(c >= 'A' && c <= 'Z') return c - 'A';
    if(c >= 'a' && c <= 'z') return c - 'a' + 26;
    if(c >= '0' && c <= '9') return c - '0' + 52;
    if(c == '+') return 62;
    if(c == '/') return 63;
    return -1;
}
static int b64dec(const UA_Byte *s, size_t n, UA_ByteString *out) {
    out->length = 0; out->data = NULL;
    if(n == 0) { out->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return 0; }
    if(n % 4) return -1;
    size_t pad = (s[n - 1] == '=') + (s[n - 1] == '=' && s[n - 2] == '=');
    UA_Byte *o = (UA_Byte *)malloc(n / 4 * 3); size_t k = 0;
    for(size_t i = 0; i < n; i += 4) {
        int v[4];
        for(int j = 0; j < 4; j++) {
            v[j] = b64v(s[i + j]);
            if(v[j] < 0) { if(i + 4 == n && (size_t)j >= 4 - pad) v[j] = 0; else { free(o); return -1; } }
        }
        o[k++] = (UA_Byte)(v[0] << 2 | v[1] >> 4); o[k++] = (UA_Byte)(v[1] << 4 | v[2] >> 2); o[k++] = (UA_Byte)(v[2] << 6 | v[3]);
    }
    k -= pad;
    out->length = k; out->data = o;
    return 0;
}
static char *b64enc(const UA_Byte *d, size_t n) {
    static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    char *o = (char *)malloc((n + 2) / 3 * 4 + 1), *p = o;
    for(size_t i = 0; i < n; i += 3) {
        unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
        *p++ = T[v >> 18 & 63]; *p++ = T[v >> 12 & 63]; *p++ = i + 1 < n ? T[v >> 6 & 63] : '='; *p++ = i + 2 < n ? T[v & 63] : '=';
    }
    *p = 0; return o;
}

/* NodeId */
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p) {
    if(p->namespaceIndex != 0) return false;
    switch(p->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: return p->identifier.numeric == 0;
    case UA_NODEIDTYPE_STRING: return p->identifier.string.length == 0;
    case UA_NODEIDTYPE_GUID: return UA_Guid_equal(&p->identifier.guid, &UA_GUID_NULL);
    case UA_NODEIDTYPE_BYTESTRING: return p->identifier.byteString.length == 0;
    }
    return false;
}
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str) {
    UA_NodeId r; memset(&r, 0, sizeof r);
    memset(id, 0, sizeof *id);
    const UA_Byte *p = str.data, *e = str.data + str.length;
    if(str.length > 3 && !memcmp(p, "ns=", 3)) {
        p += 3; uint32_t ns = 0; const UA_Byte *q = p;
        while(p < e && *p >= '0' && *p <= '9') { ns = ns * 10 + (*p - '0'); if(ns > 65535) return UA_STATUSCODE_BADDECODINGERROR; p++; }
        if(p == q || p == e || *p != ';') return UA_STATUSCODE_BADDECODINGERROR;
        p++; r.namespaceIndex = (UA_UInt16)ns;
    }
    if(e - p < 2 || p[1] != '=') return UA_STATUSCODE_BADDECODINGERROR;
    char k = (char)p[0]; p += 2;
    switch(k) {
    case 'i': {
        uint64_t v = 0;
        if(p == e) return UA_STATUSCODE_BADDECODINGERROR;
        for(; p < e; p++) { if(*p < '0' || *p > '9') return UA_STATUSCODE_BADDECODINGERROR; v = v * 10 + (*p - '0'); if(v > UINT32_MAX) return UA_STATUSCODE_BADDECODINGERROR; }
        r.identifierType = UA_NODEIDTYPE_NUMERIC; r.identifier.numeric = (UA_UInt32)v; break; }
    case 's': {
        r.identifierType = UA_NODEIDTYPE_STRING; size_t n = (size_t)(e - p); r.identifier.string.length = n;
        if(n) { r.identifier.string.data = (UA_Byte *)malloc(n); memcpy(r.identifier.string.data, p, n); }
        else r.identifier.string.data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL;
        break; }
    case 'g': {
        UA_String s; s.length = (size_t)(e - p); s.data = (UA_Byte *)p; r.identifierType = UA_NODEIDTYPE_GUID;
        if(UA_Guid_parse(&r.identifier.guid, s)) return UA_STATUSCODE_BADDECODINGERROR;
        break; }
    case 'b':
        r.identifierType = UA_NODEIDTYPE_BYTESTRING;
        if(b64dec(p, (size_t)(e - p), &r.identifier.byteString)) return UA_STATUSCODE_BADDECODINGERROR;
        break;
    default: return UA_STATUSCODE_BADDECODINGERROR;
    }
    *id = r; return UA_STATUSCODE_GOOD;
}
UA_NodeId UA_NODEID(const char *chars) { UA_NodeId id; UA_NodeId_parse(&id, UA_STRING((char *)(uintptr_t)chars)); return id; }
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *out) {
    char ns[16] = ""; size_t extra = 0; char *b64 = NULL;
    if(id->namespaceIndex) snprintf(ns, sizeof ns, "ns=%u;", id->namespaceIndex);
    if(id->identifierType == UA_NODEIDTYPE_STRING) extra = id->identifier.string.length;
    if(id->identifierType == UA_NODEIDTYPE_BYTESTRING) { b64 = b64enc(id->identifier.byteString.data, id->identifier.byteString.length); extra = strlen(b64); }
    size_t cap = extra + 80; char *b = (char *)malloc(cap); int n = 0; char g[40];
    switch(id->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: n = snprintf(b, cap, "%si=%u", ns, id->identifier.numeric); break;
    case UA_NODEIDTYPE_STRING: n = snprintf(b, cap, "%ss=", ns); if(extra) memcpy(b + n, id->identifier.string.data, extra); n += (int)extra; break;
    case UA_NODEIDTYPE_GUID: guidStr(&id->identifier.guid, g); n = snprintf(b, cap, "%sg=%s", ns, g); break;
    case UA_NODEIDTYPE_BYTESTRING: n = snprintf(b, cap, "%sb=%s", ns, b64); break;
    }
    free(b64);
    /* like open62541: fill a caller-provided buffer, else allocate */
    if(out->length == 0) { out->data = (UA_Byte *)malloc((size_t)n ? (size_t)n : 1); memcpy(out->data, b, (size_t)n); out->length = (size_t)n; }
    else { if(out->length < (size_t)n) { free(b); return UA_STATUSCODE_BADINTERNALERROR; } memcpy(out->data, b, (size_t)n); out->length = (size_t)n; }
    free(b);
    return UA_STATUSCODE_GOOD;
}
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b) {
    if(a->namespaceIndex != b->namespaceIndex) return a->namespaceIndex < b->namespaceIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
    if(a->identifierType != b->identifierType) return a->identifierType < b->identifierType ? UA_ORDER_LESS : UA_ORDER_MORE;
    switch(a->identifierType) {
    case UA_NODEIDTYPE_NUMERIC:
        if(a->identifier.numeric == b->identifier.numeric) return UA_ORDER_EQ;
        return a->identifier.numeric < b->identifier.numeric ? UA_ORDER_LESS : UA_ORDER_MORE;
    case UA_NODEIDTYPE_GUID: {
        const UA_Guid *g = &a->identifier.guid, *h = &b->identifier.guid;
        if(g->data1 != h->data1) return g->data1 < h->data1 ? UA_ORDER_LESS : UA_ORDER_MORE;
        if(g->data2 != h->data2) return g->data2 < h->data2 ? UA_ORDER_LESS : UA_ORDER_MORE;
        if(g->data3 != h->data3) return g->data3 < h->data3 ? UA_ORDER_LESS : UA_ORDER_MORE;
        int c = memcmp(g->data4, h->data4, 8);
        return c == 0 ? UA_ORDER_EQ : (c < 0 ? UA_ORDER_LESS : UA_ORDER_MORE); }
    default: return UA_String_order(&a->identifier.string, &b->identifier.string);
    }
}
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return UA_NodeId_order(a, b) == UA_ORDER_EQ; }
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n) {
    uint32_t h = 2166136261u ^ n->namespaceIndex ^ ((uint32_t)n->identifierType << 20);
    const UA_Byte *p; size_t l;
    switch(n->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: p = (const UA_Byte *)&n->identifier.numeric; l = 4; break;
    case UA_NODEIDTYPE_GUID: p = (const UA_Byte *)&n->identifier.guid; l = 16; break;
    default: p = n->identifier.string.data; l = n->identifier.string.length; break;
    }
    for(size_t i = 0; i < l; i++) { h ^= p[i]; h *= 16777619u; }
    return h;
}

/* generic handling */
const UA_DataType *UA_findDataType(const UA_NodeId *typeId) {
    for(size_t i = 0; i < UA_TYPES_COUNT; i++) if(UA_NodeId_equal(&UA_TYPES[i].typeId, typeId)) return &UA_TYPES[i];
    return NULL;
}
const UA_DataType *UA_findDataTypeWithCustom(const UA_NodeId *typeId, const UA_DataTypeArray *c) {
    const UA_DataType *t = UA_findDataType(typeId);
    for(; !t && c; c = c->next)
        for(size_t i = 0; i < c->typesSize; i++) if(UA_NodeId_equal(&c->types[i].typeId, typeId)) return &c->types[i];
    return t;
}
void *UA_new(const UA_DataType *type) { return calloc(1, type->memSize); }
static UA_StatusCode strCopy(const UA_String *s, UA_String *d) {
    d->length = 0; d->data = NULL;
    if(!s->data) return 0;
    if(s->length == 0) { d->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return 0; }
    d->data = (UA_Byte *)malloc(s->length); memcpy(d->data, s->data, s->length); d->length = s->length; return 0;
}
static void strClear(UA_String *s) {
    if(s->data && s->data != (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL) free(s->data);
    s->data = NULL; s->length = 0;
}
static void nodeIdCopy(const UA_NodeId *s, UA_NodeId *d) {
    *d = *s;
    if(s->identifierType == UA_NODEIDTYPE_STRING || s->identifierType == UA_NODEIDTYPE_BYTESTRING) strCopy(&s->identifier.string, &d->identifier.string);
}
static void nodeIdClear(UA_NodeId *d) {
    if(d->identifierType == UA_NODEIDTYPE_STRING || d->identifierType == UA_NODEIDTYPE_BYTESTRING) strClear(&d->identifier.string);
    memset(d, 0, sizeof *d);
}
/* Walk the members of a described structure. op(src,dst) per field. */
static void structCopy(const void *src, void *dst, const UA_DataType *t);
static void structClear(void *p, const UA_DataType *t);
UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type) {
    *dst = NULL;
    if(size == 0) { if(src) *dst = UA_EMPTY_ARRAY_SENTINEL; return 0; }
    char *d = (char *)calloc(size, type->memSize); const char *s = (const char *)src;
    for(size_t i = 0; i < size; i++) UA_copy(s + i * type->memSize, d + i * type->memSize, type);
    *dst = d; return 0;
}
void *UA_Array_new(size_t size, const UA_DataType *type) { return size ? calloc(size, type->memSize) : UA_EMPTY_ARRAY_SENTINEL; }
void UA_Array_delete(void *p, size_t size, const UA_DataType *type) {
    if(!p || p == UA_EMPTY_ARRAY_SENTINEL) return;
    for(size_t i = 0; i < size; i++) UA_clear((char *)p + i * type->memSize, type);
    free(p);
}
UA_StatusCode UA_Variant_copy(const UA_Variant *s, UA_Variant *d) {
    memset(d, 0, sizeof *d);
    if(!s->type) return 0;
    d->type = s->type; d->arrayLength = s->arrayLength;
    if(s->arrayLength == 0 && s->data > UA_EMPTY_ARRAY_SENTINEL) UA_Array_copy(s->data, 1, &d->data, s->type);
    else UA_Array_copy(s->data, s->arrayLength, &d->data, s->type);
    if(s->arrayDimensionsSize) { UA_Array_copy(s->arrayDimensions, s->arrayDimensionsSize, (void **)&d->arrayDimensions, &UA_TYPES[UA_TYPES_UINT32]); d->arrayDimensionsSize = s->arrayDimensionsSize; }
    return 0;
}
void UA_Variant_clear(UA_Variant *p) {
    if(p->storageType == UA_VARIANT_DATA) {
        if(p->type && p->data > UA_EMPTY_ARRAY_SENTINEL) {
            if(p->arrayLength == 0) UA_Array_delete(p->data, 1, p->type); else UA_Array_delete(p->data, p->arrayLength, p->type);
        }
        if(p->arrayDimensions > (UA_UInt32 *)UA_EMPTY_ARRAY_SENTINEL) free(p->arrayDimensions);
    }
    memset(p, 0, sizeof *p);
}
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type) { memset(v, 0, sizeof *v); v->type = type; v->data = p; }
void UA_Variant_setArray(UA_Variant *v, void *a, size_t n, const UA_DataType *type) {
    memset(v, 0, sizeof *v); v->type = type; v->data = a; v->arrayLength = n;
}
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *type) {
    void *n = UA_new(type); UA_copy(p, n, type); UA_Variant_setScalar(v, n, type); return 0;
}
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *a, size_t n, const UA_DataType *type) {
    void *d; UA_Array_copy(a, n, &d, type); UA_Variant_setArray(v, d, n, type); return 0;
}
UA_Boolean UA_Variant_hasScalarType(const UA_Variant *v, const UA_DataType *t) { return UA_Variant_isScalar(v) && v->type == t; }
UA_Boolean UA_Variant_hasArrayType(const UA_Variant *v, const UA_DataType *t) { return v->type == t && !UA_Variant_isScalar(v) && v->type; }

static void extObjCopy(const UA_ExtensionObject *s, UA_ExtensionObject *d) {
    memset(d, 0, sizeof *d); d->encoding = s->encoding;
    if(s->encoding >= UA_EXTENSIONOBJECT_DECODED) {
        d->encoding = UA_EXTENSIONOBJECT_DECODED; d->content.decoded.type = s->content.decoded.type;
        if(s->content.decoded.data && s->content.decoded.type) { d->content.decoded.data = UA_new(s->content.decoded.type); UA_copy(s->content.decoded.data, d->content.decoded.data, s->content.decoded.type); }
    } else { nodeIdCopy(&s->content.encoded.typeId, &d->content.encoded.typeId); strCopy(&s->content.encoded.body, &d->content.encoded.body); }
}
static void extObjClear(UA_ExtensionObject *s) {
    if(s->encoding == UA_EXTENSIONOBJECT_DECODED) { if(s->content.decoded.data) UA_delete(s->content.decoded.data, s->content.decoded.type); }
    else if(s->encoding < UA_EXTENSIONOBJECT_DECODED) { nodeIdClear(&s->content.encoded.typeId); strClear(&s->content.encoded.body); }
    memset(s, 0, sizeof *s);
}
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type) {
    memset(dst, 0, type->memSize);
    switch(type->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: strCopy((const UA_String *)src, (UA_String *)dst); break;
    case UA_DATATYPEKIND_NODEID: nodeIdCopy((const UA_NodeId *)src, (UA_NodeId *)dst); break;
    case UA_DATATYPEKIND_EXPANDEDNODEID: { const UA_ExpandedNodeId *s = (const UA_ExpandedNodeId *)src; UA_ExpandedNodeId *d = (UA_ExpandedNodeId *)dst;
        nodeIdCopy(&s->nodeId, &d->nodeId); strCopy(&s->namespaceUri, &d->namespaceUri); d->serverIndex = s->serverIndex; break; }
    case UA_DATATYPEKIND_QUALIFIEDNAME: ((UA_QualifiedName *)dst)->namespaceIndex = ((const UA_QualifiedName *)src)->namespaceIndex;
        strCopy(&((const UA_QualifiedName *)src)->name, &((UA_QualifiedName *)dst)->name); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: strCopy(&((const UA_LocalizedText *)src)->locale, &((UA_LocalizedText *)dst)->locale);
        strCopy(&((const UA_LocalizedText *)src)->text, &((UA_LocalizedText *)dst)->text); break;
    case UA_DATATYPEKIND_EXTENSIONOBJECT: extObjCopy((const UA_ExtensionObject *)src, (UA_ExtensionObject *)dst); break;
    case UA_DATATYPEKIND_VARIANT: UA_Variant_copy((const UA_Variant *)src, (UA_Variant *)dst); break;
    case UA_DATATYPEKIND_DATAVALUE: *(UA_DataValue *)dst = *(const UA_DataValue *)src;
        UA_Variant_copy(&((const UA_DataValue *)src)->value, &((UA_DataValue *)dst)->value); break;
    case UA_DATATYPEKIND_DIAGNOSTICINFO: *(UA_DiagnosticInfo *)dst = *(const UA_DiagnosticInfo *)src;
        strCopy(&((const UA_DiagnosticInfo *)src)->additionalInfo, &((UA_DiagnosticInfo *)dst)->additionalInfo);
        ((UA_DiagnosticInfo *)dst)->innerDiagnosticInfo = NULL; break;
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: case UA_DATATYPEKIND_UNION: structCopy(src, dst, type); break;
    default: memcpy(dst, src, type->memSize); break;
    }
    return 0;
}
void UA_clear(void *p, const UA_DataType *type) {
    switch(type->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: strClear((UA_String *)p); break;
    case UA_DATATYPEKIND_NODEID: nodeIdClear((UA_NodeId *)p); break;
    case UA_DATATYPEKIND_EXPANDEDNODEID: nodeIdClear(&((UA_ExpandedNodeId *)p)->nodeId); strClear(&((UA_ExpandedNodeId *)p)->namespaceUri); break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: strClear(&((UA_QualifiedName *)p)->name); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: strClear(&((UA_LocalizedText *)p)->locale); strClear(&((UA_LocalizedText *)p)->text); break;
    case UA_DATATYPEKIND_EXTENSIONOBJECT: extObjClear((UA_ExtensionObject *)p); break;
    case UA_DATATYPEKIND_VARIANT: UA_Variant_clear((UA_Variant *)p); break;
    case UA_DATATYPEKIND_DATAVALUE: UA_Variant_clear(&((UA_DataValue *)p)->value); break;
    case UA_DATATYPEKIND_DIAGNOSTICINFO: strClear(&((UA_DiagnosticInfo *)p)->additionalInfo); break;
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: case UA_DATATYPEKIND_UNION: structClear(p, type); break;
    default: break;
    }
    memset(p, 0, type->memSize);
}
void UA_delete(void *p, const UA_DataType *type) { if(!p) return; UA_clear(p, type); free(p); }
static const UA_DataTypeMember *unionMember(const void *p, const UA_DataType *t) {
    UA_UInt32 sel; memcpy(&sel, p, 4);
    if(sel == 0 || sel > t->membersSize) return NULL;
    return &t->members[sel - 1];
}
static void structCopy(const void *src, void *dst, const UA_DataType *t) {
    const char *s = (const char *)src; char *d = (char *)dst;
    if(t->typeKind == UA_DATATYPEKIND_UNION) {
        memcpy(d, s, 4);
        const UA_DataTypeMember *m = unionMember(src, t);
        if(!m) return;
        s += m->padding; d += m->padding;
        if(m->isArray) { size_t n; memcpy(&n, s, 8); memcpy(d, &n, 8); void *a; memcpy(&a, s + 8, 8); void *b; UA_Array_copy(a, n, &b, m->memberType); memcpy(d + 8, &b, 8); }
        else UA_copy(s, d, m->memberType);
        return;
    }
    for(size_t i = 0; i < t->membersSize; i++) {
        const UA_DataTypeMember *m = &t->members[i];
        s += m->padding; d += m->padding;
        if(m->isArray) { size_t n; memcpy(&n, s, 8); memcpy(d, &n, 8); void *a; memcpy(&a, s + 8, 8); void *b; UA_Array_copy(a, n, &b, m->memberType); memcpy(d + 8, &b, 8); s += 16; d += 16; }
        else if(m->isOptional) { void *a; memcpy(&a, s, 8); void *b = NULL; if(a) UA_Array_copy(a, 1, &b, m->memberType); memcpy(d, &b, 8); s += 8; d += 8; }
        else { UA_copy(s, d, m->memberType); s += m->memberType->memSize; d += m->memberType->memSize; }
    }
}
static void structClear(void *p, const UA_DataType *t) {
    char *d = (char *)p;
    if(t->typeKind == UA_DATATYPEKIND_UNION) {
        const UA_DataTypeMember *m = unionMember(p, t);
        if(!m) return;
        d += m->padding;
        if(m->isArray) { size_t n; memcpy(&n, d, 8); void *a; memcpy(&a, d + 8, 8); UA_Array_delete(a, n, m->memberType); }
        else UA_clear(d, m->memberType);
        return;
    }
    for(size_t i = 0; i < t->membersSize; i++) {
        const UA_DataTypeMember *m = &t->members[i];
        d += m->padding;
        if(m->isArray) { size_t n; memcpy(&n, d, 8); void *a; memcpy(&a, d + 8, 8); UA_Array_delete(a, n, m->memberType); d += 16; }
        else if(m->isOptional) { void *a; memcpy(&a, d, 8); if(a) UA_Array_delete(a, 1, m->memberType); d += 8; }
        else { UA_clear(d, m->memberType); d += m->memberType->memSize; }
    }
}
void UA_BrowseResult_clear(UA_BrowseResult *br) {
    for(size_t i = 0; i < br->referencesSize; i++) {
        UA_ReferenceDescription *r = &br->references[i];
        UA_NodeId_clear(&r->referenceTypeId); UA_ExpandedNodeId_clear(&r->nodeId);
        UA_QualifiedName_clear(&r->browseName); UA_LocalizedText_clear(&r->displayName); UA_ExpandedNodeId_clear(&r->typeDefinition);
    }
    free(br->references); strClear(&br->continuationPoint);
    memset(br, 0, sizeof *br);
}
