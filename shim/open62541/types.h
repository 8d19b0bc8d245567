/* Stand-in for the open62541 1.4 type API, written for the checks in /verif
 * (open62541 itself is not installed in this sandbox).  It follows the public
 * interface and the documented semantics of open62541 1.4: struct layouts of
 * the built-in types, UA_DataType descriptions, NodeId parsing/printing/order,
 * generic copy/clear driven by UA_DataType. */
#ifndef UA_SHIM_TYPES_H
#define UA_SHIM_TYPES_H
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <limits.h>
#include <float.h>
#include <assert.h>
#ifdef __cplusplus
extern "C" {
#endif

#define UA_EXPORT
#define UA_malloc malloc
#define UA_calloc calloc
#define UA_realloc realloc
#define UA_free free
#define UA_assert(x) assert(x)
#define UA_INLINABLE(decl, impl) static inline decl impl
#define UA_OPEN62541_VER_MAJOR 1
#define UA_OPEN62541_VER_MINOR 4
#define UA_OPEN62541_VER_PATCH 0
#define UA_ENABLE_TYPEDESCRIPTION
#define UA_ENABLE_METHODCALLS
#define UA_INTERNAL_FUNC_ATTR_WARN_UNUSED_RESULT
#define UA_FUNC_ATTR_WARN_UNUSED_RESULT
#define UA_LITTLE_ENDIAN 1
#define UA_BINARY_OVERLAYABLE_INTEGER 1
#define UA_BINARY_OVERLAYABLE_FLOAT 1
#define UA_EMPTY_ARRAY_SENTINEL ((void*)0x01)

typedef bool UA_Boolean;
#define UA_TRUE true
#define UA_FALSE false
typedef int8_t UA_SByte;
typedef uint8_t UA_Byte;
typedef int16_t UA_Int16;
typedef uint16_t UA_UInt16;
typedef int32_t UA_Int32;
typedef uint32_t UA_UInt32;
typedef int64_t UA_Int64;
typedef uint64_t UA_UInt64;
typedef float UA_Float;
typedef double UA_Double;
typedef uint32_t UA_StatusCode;
#define UA_SBYTE_MIN INT8_MIN
#define UA_SBYTE_MAX INT8_MAX
#define UA_BYTE_MIN 0
#define UA_BYTE_MAX UINT8_MAX
#define UA_INT16_MIN INT16_MIN
#define UA_INT16_MAX INT16_MAX
#define UA_UINT16_MIN 0
#define UA_UINT16_MAX UINT16_MAX
#define UA_INT32_MIN INT32_MIN
#define UA_INT32_MAX INT32_MAX
#define UA_UINT32_MIN 0
#define UA_UINT32_MAX UINT32_MAX
#define UA_INT64_MIN INT64_MIN
#define UA_INT64_MAX INT64_MAX
#define UA_UINT64_MIN 0
#define UA_UINT64_MAX UINT64_MAX

#define UA_STATUSCODE_GOOD 0x00000000u
#define UA_STATUSCODE_BADUNEXPECTEDERROR 0x80010000u
#define UA_STATUSCODE_BADINTERNALERROR 0x80020000u
#define UA_STATUSCODE_BADOUTOFMEMORY 0x80030000u
#define UA_STATUSCODE_BADDECODINGERROR 0x80070000u
#define UA_STATUSCODE_BADINVALIDARGUMENT 0x80AB0000u
#define UA_STATUSCODE_BADNOTFOUND 0x803E0000u
#define UA_STATUSCODE_BADNODEIDINVALID 0x80330000u
#define UA_STATUSCODE_BADNODEIDUNKNOWN 0x80340000u
#define UA_STATUSCODE_BADNODEIDEXISTS 0x805E0000u
#define UA_STATUSCODE_BADNODECLASSINVALID 0x805F0000u
#define UA_STATUSCODE_BADREFERENCETYPEIDINVALID 0x804C0000u
#define UA_STATUSCODE_BADREFERENCENOTALLOWED 0x805D0000u
#define UA_STATUSCODE_BADPARENTNODEIDINVALID 0x805B0000u
#define UA_STATUSCODE_BADTYPEDEFINITIONINVALID 0x80630000u
#define UA_STATUSCODE_BADSOURCENODEIDINVALID 0x80640000u
#define UA_STATUSCODE_BADTARGETNODEIDINVALID 0x80650000u
#define UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED 0x80660000u
#define UA_STATUSCODE_BADTYPEMISMATCH 0x80740000u
#define UA_STATUSCODE_BADATTRIBUTEIDINVALID 0x80350000u

static inline UA_Boolean UA_StatusCode_isBad(UA_StatusCode c) { return (c >> 30) >= 2; }
static inline UA_Boolean UA_StatusCode_isGood(UA_StatusCode c) { return (c >> 30) == 0; }
static inline UA_Boolean UA_StatusCode_isUncertain(UA_StatusCode c) { return (c >> 30) == 1; }
const char *UA_StatusCode_name(UA_StatusCode code);

typedef enum { UA_ORDER_LESS = -1, UA_ORDER_EQ = 0, UA_ORDER_MORE = 1 } UA_Order;

typedef struct { size_t length; UA_Byte *data; } UA_String;
typedef UA_String UA_ByteString;
typedef UA_String UA_XmlElement;
typedef UA_String UA_LocaleId;
extern const UA_String UA_STRING_NULL;
extern const UA_ByteString UA_BYTESTRING_NULL;
static inline UA_String UA_STRING(char *chars) {
    UA_String s; s.length = 0; s.data = NULL;
    if(!chars) return s;
    s.length = strlen(chars); s.data = (UA_Byte *)chars; return s;
}
static inline UA_ByteString UA_BYTESTRING(char *chars) { return UA_STRING(chars); }
#define UA_STRING_STATIC(CHARS) {sizeof(CHARS) - 1, (UA_Byte *)CHARS}
UA_String UA_String_fromChars(const char *src);
#define UA_STRING_ALLOC(CHARS) UA_String_fromChars(CHARS)
UA_ByteString UA_ByteString_fromChars_(const char *src);
#define UA_BYTESTRING_ALLOC(CHARS) UA_String_fromChars(CHARS)
UA_Boolean UA_String_isEmpty(const UA_String *s);
UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b);
UA_Order UA_String_order(const UA_String *a, const UA_String *b);
#define UA_PRINTF_STRING_FORMAT "\"%.*s\""
#define UA_PRINTF_STRING_DATA(STR) (int)(STR).length, (STR).data

typedef int64_t UA_DateTime;
#define UA_DATETIME_USEC 10LL
#define UA_DATETIME_MSEC (UA_DATETIME_USEC * 1000LL)
#define UA_DATETIME_SEC (UA_DATETIME_MSEC * 1000LL)
#define UA_DATETIME_UNIX_EPOCH (11644473600LL * UA_DATETIME_SEC)
typedef UA_Double UA_Duration;
typedef UA_DateTime UA_UtcTime;
typedef struct {
    UA_UInt16 nanoSec, microSec, milliSec, sec, min, hour, day, month;
    UA_Int16 year;
} UA_DateTimeStruct;
UA_DateTimeStruct UA_DateTime_toStruct(UA_DateTime t);
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts);
UA_DateTime UA_DateTime_now(void);
static inline UA_DateTime UA_DateTime_fromUnixTime(UA_Int64 t) { return t * UA_DATETIME_SEC + UA_DATETIME_UNIX_EPOCH; }

typedef struct { UA_UInt32 data1; UA_UInt16 data2; UA_UInt16 data3; UA_Byte data4[8]; } UA_Guid;
extern const UA_Guid UA_GUID_NULL;
UA_Boolean UA_Guid_equal(const UA_Guid *a, const UA_Guid *b);
UA_StatusCode UA_Guid_parse(UA_Guid *guid, const UA_String str);
UA_StatusCode UA_Guid_print(const UA_Guid *guid, UA_String *out);
UA_Guid UA_GUID(const char *chars);

enum UA_NodeIdType {
    UA_NODEIDTYPE_NUMERIC = 0, UA_NODEIDTYPE_STRING = 3,
    UA_NODEIDTYPE_GUID = 4, UA_NODEIDTYPE_BYTESTRING = 5
};
typedef struct {
    UA_UInt16 namespaceIndex;
    enum UA_NodeIdType identifierType;
    union { UA_UInt32 numeric; UA_String string; UA_Guid guid; UA_ByteString byteString; } identifier;
} UA_NodeId;
extern const UA_NodeId UA_NODEID_NULL;
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p);
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output);
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str);
UA_NodeId UA_NODEID(const char *chars);
UA_Order UA_NodeId_order(const UA_NodeId *n1, const UA_NodeId *n2);
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b);
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n);
static inline UA_NodeId UA_NODEID_NUMERIC(UA_UInt16 nsIndex, UA_UInt32 identifier) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_NUMERIC;
    id.identifier.numeric = identifier; return id;
}
static inline UA_NodeId UA_NODEID_STRING(UA_UInt16 nsIndex, char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_STRING;
    id.identifier.string = UA_STRING(chars); return id;
}
static inline UA_NodeId UA_NODEID_STRING_ALLOC(UA_UInt16 nsIndex, const char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_STRING;
    id.identifier.string = UA_String_fromChars(chars); return id;
}
static inline UA_NodeId UA_NODEID_GUID(UA_UInt16 nsIndex, UA_Guid guid) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex; id.identifierType = UA_NODEIDTYPE_GUID;
    id.identifier.guid = guid; return id;
}

typedef struct { UA_NodeId nodeId; UA_String namespaceUri; UA_UInt32 serverIndex; } UA_ExpandedNodeId;
extern const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NUMERIC(UA_UInt16 ns, UA_UInt32 i) {
    UA_ExpandedNodeId id; memset(&id, 0, sizeof id); id.nodeId = UA_NODEID_NUMERIC(ns, i); return id;
}
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NODEID(UA_NodeId nodeId) {
    UA_ExpandedNodeId id; memset(&id, 0, sizeof id); id.nodeId = nodeId; return id;
}

typedef struct { UA_UInt16 namespaceIndex; UA_String name; } UA_QualifiedName;
static inline UA_QualifiedName UA_QUALIFIEDNAME(UA_UInt16 nsIndex, char *chars) {
    UA_QualifiedName qn; qn.namespaceIndex = nsIndex; qn.name = UA_STRING(chars); return qn;
}
static inline UA_QualifiedName UA_QUALIFIEDNAME_ALLOC(UA_UInt16 nsIndex, const char *chars) {
    UA_QualifiedName qn; qn.namespaceIndex = nsIndex; qn.name = UA_String_fromChars(chars); return qn;
}
typedef struct { UA_String locale; UA_String text; } UA_LocalizedText;
static inline UA_LocalizedText UA_LOCALIZEDTEXT(char *locale, char *text) {
    UA_LocalizedText lt; lt.locale = UA_STRING(locale); lt.text = UA_STRING(text); return lt;
}
static inline UA_LocalizedText UA_LOCALIZEDTEXT_ALLOC(const char *locale, const char *text) {
    UA_LocalizedText lt; lt.locale = UA_String_fromChars(locale); lt.text = UA_String_fromChars(text); return lt;
}

struct UA_DataType;
typedef struct UA_DataType UA_DataType;
typedef enum { UA_VARIANT_DATA, UA_VARIANT_DATA_NODELETE } UA_VariantStorageType;
typedef struct {
    const UA_DataType *type;
    UA_VariantStorageType storageType;
    size_t arrayLength;
    void *data;
    size_t arrayDimensionsSize;
    UA_UInt32 *arrayDimensions;
} UA_Variant;
typedef enum {
    UA_EXTENSIONOBJECT_ENCODED_NOBODY = 0, UA_EXTENSIONOBJECT_ENCODED_BYTESTRING = 1,
    UA_EXTENSIONOBJECT_ENCODED_XML = 2, UA_EXTENSIONOBJECT_DECODED = 3,
    UA_EXTENSIONOBJECT_DECODED_NODELETE = 4
} UA_ExtensionObjectEncoding;
typedef struct {
    UA_ExtensionObjectEncoding encoding;
    union {
        struct { UA_NodeId typeId; UA_ByteString body; } encoded;
        struct { const UA_DataType *type; void *data; } decoded;
    } content;
} UA_ExtensionObject;
typedef struct {
    UA_Variant value;
    UA_DateTime sourceTimestamp, serverTimestamp;
    UA_UInt16 sourcePicoseconds, serverPicoseconds;
    UA_StatusCode status;
    UA_Boolean hasValue : 1, hasStatus : 1, hasSourceTimestamp : 1, hasServerTimestamp : 1,
        hasSourcePicoseconds : 1, hasServerPicoseconds : 1;
} UA_DataValue;
typedef struct UA_DiagnosticInfo {
    UA_Boolean hasSymbolicId : 1, hasNamespaceUri : 1, hasLocalizedText : 1, hasLocale : 1,
        hasAdditionalInfo : 1, hasInnerStatusCode : 1, hasInnerDiagnosticInfo : 1;
    UA_Int32 symbolicId, namespaceUri, localizedText, locale;
    UA_String additionalInfo;
    UA_StatusCode innerStatusCode;
    struct UA_DiagnosticInfo *innerDiagnosticInfo;
} UA_DiagnosticInfo;

typedef struct {
    const char *memberName;
    const UA_DataType *memberType;
    UA_Byte padding : 6;   /* before the member; for unions the offset from the start of the union type */
    UA_Byte isArray : 1;
    UA_Byte isOptional : 1;
} UA_DataTypeMember;

typedef enum {
    UA_DATATYPEKIND_BOOLEAN = 0, UA_DATATYPEKIND_SBYTE = 1, UA_DATATYPEKIND_BYTE = 2,
    UA_DATATYPEKIND_INT16 = 3, UA_DATATYPEKIND_UINT16 = 4, UA_DATATYPEKIND_INT32 = 5,
    UA_DATATYPEKIND_UINT32 = 6, UA_DATATYPEKIND_INT64 = 7, UA_DATATYPEKIND_UINT64 = 8,
    UA_DATATYPEKIND_FLOAT = 9, UA_DATATYPEKIND_DOUBLE = 10, UA_DATATYPEKIND_STRING = 11,
    UA_DATATYPEKIND_DATETIME = 12, UA_DATATYPEKIND_GUID = 13, UA_DATATYPEKIND_BYTESTRING = 14,
    UA_DATATYPEKIND_XMLELEMENT = 15, UA_DATATYPEKIND_NODEID = 16, UA_DATATYPEKIND_EXPANDEDNODEID = 17,
    UA_DATATYPEKIND_STATUSCODE = 18, UA_DATATYPEKIND_QUALIFIEDNAME = 19,
    UA_DATATYPEKIND_LOCALIZEDTEXT = 20, UA_DATATYPEKIND_EXTENSIONOBJECT = 21,
    UA_DATATYPEKIND_DATAVALUE = 22, UA_DATATYPEKIND_VARIANT = 23, UA_DATATYPEKIND_DIAGNOSTICINFO = 24,
    UA_DATATYPEKIND_DECIMAL = 25, UA_DATATYPEKIND_ENUM = 26, UA_DATATYPEKIND_STRUCTURE = 27,
    UA_DATATYPEKIND_OPTSTRUCT = 28, UA_DATATYPEKIND_UNION = 29, UA_DATATYPEKIND_BITFIELDCLUSTER = 30
} UA_DataTypeKind;
#define UA_DATATYPEKINDS 31

struct UA_DataType {
    const char *typeName;
    UA_NodeId typeId;
    UA_NodeId binaryEncodingId;
    UA_UInt32 memSize : 16;
    UA_UInt32 typeKind : 6;
    UA_UInt32 pointerFree : 1;
    UA_UInt32 overlayable : 1;
    UA_UInt32 membersSize : 8;
    UA_DataTypeMember *members;
};
typedef struct UA_DataTypeArray {
    const struct UA_DataTypeArray *next;
    const size_t typesSize;
    const UA_DataType *types;
    UA_Boolean cleanup;
} UA_DataTypeArray;

const UA_DataType *UA_findDataType(const UA_NodeId *typeId);
const UA_DataType *UA_findDataTypeWithCustom(const UA_NodeId *typeId, const UA_DataTypeArray *customTypes);

void *UA_new(const UA_DataType *type);
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type);
void UA_clear(void *p, const UA_DataType *type);
void UA_delete(void *p, const UA_DataType *type);
static inline void UA_init(void *p, const UA_DataType *type) { memset(p, 0, type->memSize); }
void *UA_Array_new(size_t size, const UA_DataType *type);
UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type);
void UA_Array_delete(void *p, size_t size, const UA_DataType *type);

static inline void UA_Variant_init(UA_Variant *p) { memset(p, 0, sizeof(UA_Variant)); }
void UA_Variant_clear(UA_Variant *p);
UA_StatusCode UA_Variant_copy(const UA_Variant *src, UA_Variant *dst);
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type);
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *type);
void UA_Variant_setArray(UA_Variant *v, void *array, size_t arraySize, const UA_DataType *type);
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *array, size_t arraySize, const UA_DataType *type);
static inline UA_Boolean UA_Variant_isEmpty(const UA_Variant *v) { return v->type == NULL; }
static inline UA_Boolean UA_Variant_isScalar(const UA_Variant *v) {
    return v->type != NULL && v->arrayLength == 0 && v->data > UA_EMPTY_ARRAY_SENTINEL;
}
UA_Boolean UA_Variant_hasScalarType(const UA_Variant *v, const UA_DataType *type);
UA_Boolean UA_Variant_hasArrayType(const UA_Variant *v, const UA_DataType *type);

#ifdef __cplusplus
}
#endif
#endif
