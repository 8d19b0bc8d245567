#ifndef UA_SHIM_TYPES_GENERATED_H
#define UA_SHIM_TYPES_GENERATED_H
#include <open62541/types.h>
#include <open62541/nodeids.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum {
    UA_NODECLASS_UNSPECIFIED = 0, UA_NODECLASS_OBJECT = 1, UA_NODECLASS_VARIABLE = 2,
    UA_NODECLASS_METHOD = 4, UA_NODECLASS_OBJECTTYPE = 8, UA_NODECLASS_VARIABLETYPE = 16,
    UA_NODECLASS_REFERENCETYPE = 32, UA_NODECLASS_DATATYPE = 64, UA_NODECLASS_VIEW = 128,
    __UA_NODECLASS_FORCE32BIT = 0x7fffffff
} UA_NodeClass;
typedef enum { UA_BROWSEDIRECTION_FORWARD = 0, UA_BROWSEDIRECTION_INVERSE = 1, UA_BROWSEDIRECTION_BOTH = 2,
    UA_BROWSEDIRECTION_INVALID = 3, __UA_BROWSEDIRECTION_FORCE32BIT = 0x7fffffff } UA_BrowseDirection;
typedef enum { UA_BROWSERESULTMASK_NONE = 0, UA_BROWSERESULTMASK_REFERENCETYPEID = 1, UA_BROWSERESULTMASK_ISFORWARD = 2,
    UA_BROWSERESULTMASK_NODECLASS = 4, UA_BROWSERESULTMASK_BROWSENAME = 8, UA_BROWSERESULTMASK_DISPLAYNAME = 16,
    UA_BROWSERESULTMASK_TYPEDEFINITION = 32, UA_BROWSERESULTMASK_ALL = 63, UA_BROWSERESULTMASK_REFERENCETYPEINFO = 3,
    UA_BROWSERESULTMASK_TARGETINFO = 60, __UA_BROWSERESULTMASK_FORCE32BIT = 0x7fffffff } UA_BrowseResultMask;
typedef enum { UA_APPLICATIONTYPE_SERVER = 0, __UA_APPLICATIONTYPE_FORCE32BIT = 0x7fffffff } UA_ApplicationType;
typedef enum { UA_SERVERSTATE_RUNNING = 0, __UA_SERVERSTATE_FORCE32BIT = 0x7fffffff } UA_ServerState;
typedef enum { UA_AXISSCALEENUMERATION_LINEAR = 0, __UA_AXISSCALEENUMERATION_FORCE32BIT = 0x7fffffff } UA_AxisScaleEnumeration;

typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Byte eventNotifier; } UA_ObjectAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Variant value; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_Byte accessLevel, userAccessLevel; UA_Double minimumSamplingInterval; UA_Boolean historizing; } UA_VariableAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Boolean executable, userExecutable; } UA_MethodAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Boolean isAbstract; } UA_ObjectTypeAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Variant value; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_Boolean isAbstract; } UA_VariableTypeAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Boolean isAbstract, symmetric; UA_LocalizedText inverseName; } UA_ReferenceTypeAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Boolean isAbstract; } UA_DataTypeAttributes;
typedef struct { UA_UInt32 specifiedAttributes; UA_LocalizedText displayName, description; UA_UInt32 writeMask, userWriteMask;
    UA_Boolean containsNoLoops; UA_Byte eventNotifier; } UA_ViewAttributes;

typedef struct { UA_String name; UA_NodeId dataType; UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_LocalizedText description; } UA_Argument;
typedef struct { UA_Double low, high; } UA_Range;
typedef struct { UA_String namespaceUri; UA_Int32 unitId; UA_LocalizedText displayName, description; } UA_EUInformation;
typedef struct { UA_Int64 value; UA_LocalizedText displayName, description; } UA_EnumValueType;
typedef struct { UA_Int16 offset; UA_Boolean daylightSavingInOffset; } UA_TimeZoneDataType;
typedef struct { UA_Double x; UA_Float value; } UA_XVType;
typedef struct { UA_EUInformation engineeringUnits; UA_Range eURange; UA_LocalizedText title; UA_AxisScaleEnumeration axisScaleType;
    size_t axisStepsSize; UA_Double *axisSteps; } UA_AxisInformation;
typedef struct { UA_Float real, imaginary; } UA_ComplexNumberType;
typedef struct { UA_ByteString value, validBits; } UA_OptionSet;

typedef struct { UA_NodeId nodeId; UA_BrowseDirection browseDirection; UA_NodeId referenceTypeId; UA_Boolean includeSubtypes;
    UA_UInt32 nodeClassMask; UA_UInt32 resultMask; } UA_BrowseDescription;
typedef struct { UA_NodeId referenceTypeId; UA_Boolean isForward; UA_ExpandedNodeId nodeId; UA_QualifiedName browseName;
    UA_LocalizedText displayName; UA_NodeClass nodeClass; UA_ExpandedNodeId typeDefinition; } UA_ReferenceDescription;
typedef struct { UA_StatusCode statusCode; UA_ByteString continuationPoint; size_t referencesSize; UA_ReferenceDescription *references; } UA_BrowseResult;

enum {
    UA_TYPES_BOOLEAN, UA_TYPES_SBYTE, UA_TYPES_BYTE, UA_TYPES_INT16, UA_TYPES_UINT16, UA_TYPES_INT32, UA_TYPES_UINT32,
    UA_TYPES_INT64, UA_TYPES_UINT64, UA_TYPES_FLOAT, UA_TYPES_DOUBLE, UA_TYPES_STRING, UA_TYPES_DATETIME, UA_TYPES_GUID,
    UA_TYPES_BYTESTRING, UA_TYPES_XMLELEMENT, UA_TYPES_NODEID, UA_TYPES_EXPANDEDNODEID, UA_TYPES_STATUSCODE,
    UA_TYPES_QUALIFIEDNAME, UA_TYPES_LOCALIZEDTEXT, UA_TYPES_EXTENSIONOBJECT, UA_TYPES_DATAVALUE, UA_TYPES_VARIANT,
    UA_TYPES_DIAGNOSTICINFO,
    UA_TYPES_NODECLASS, UA_TYPES_APPLICATIONTYPE, UA_TYPES_SERVERSTATE, UA_TYPES_AXISSCALEENUMERATION,
    UA_TYPES_ARGUMENT, UA_TYPES_RANGE, UA_TYPES_EUINFORMATION, UA_TYPES_ENUMVALUETYPE, UA_TYPES_TIMEZONEDATATYPE,
    UA_TYPES_XVTYPE, UA_TYPES_AXISINFORMATION, UA_TYPES_COMPLEXNUMBERTYPE, UA_TYPES_OPTIONSET,
    UA_TYPES_OBJECTATTRIBUTES, UA_TYPES_VARIABLEATTRIBUTES, UA_TYPES_METHODATTRIBUTES, UA_TYPES_OBJECTTYPEATTRIBUTES,
    UA_TYPES_VARIABLETYPEATTRIBUTES, UA_TYPES_REFERENCETYPEATTRIBUTES, UA_TYPES_DATATYPEATTRIBUTES, UA_TYPES_VIEWATTRIBUTES,
    UA_TYPES_BROWSEDESCRIPTION, UA_TYPES_REFERENCEDESCRIPTION, UA_TYPES_BROWSERESULT,
    UA_TYPES_COUNT
};
extern const UA_DataType UA_TYPES[UA_TYPES_COUNT];
#define UA_SHIM_FN(T, IDX) \
  static inline void UA_##T##_init(UA_##T *p) { memset(p, 0, sizeof(UA_##T)); } \
  static inline UA_##T *UA_##T##_new(void) { return (UA_##T *)UA_new(&UA_TYPES[IDX]); } \
  static inline UA_StatusCode UA_##T##_copy(const UA_##T *s, UA_##T *d) { return UA_copy(s, d, &UA_TYPES[IDX]); } \
  static inline void UA_##T##_clear(UA_##T *p) { UA_clear(p, &UA_TYPES[IDX]); } \
  static inline void UA_##T##_delete(UA_##T *p) { UA_delete(p, &UA_TYPES[IDX]); }
UA_SHIM_FN(Boolean, UA_TYPES_BOOLEAN) UA_SHIM_FN(SByte, UA_TYPES_SBYTE) UA_SHIM_FN(Byte, UA_TYPES_BYTE)
UA_SHIM_FN(Int16, UA_TYPES_INT16) UA_SHIM_FN(UInt16, UA_TYPES_UINT16) UA_SHIM_FN(Int32, UA_TYPES_INT32)
UA_SHIM_FN(UInt32, UA_TYPES_UINT32) UA_SHIM_FN(Int64, UA_TYPES_INT64) UA_SHIM_FN(UInt64, UA_TYPES_UINT64)
UA_SHIM_FN(Float, UA_TYPES_FLOAT) UA_SHIM_FN(Double, UA_TYPES_DOUBLE) UA_SHIM_FN(String, UA_TYPES_STRING)
UA_SHIM_FN(DateTime, UA_TYPES_DATETIME) UA_SHIM_FN(Guid, UA_TYPES_GUID) UA_SHIM_FN(ByteString, UA_TYPES_BYTESTRING)
UA_SHIM_FN(XmlElement, UA_TYPES_XMLELEMENT) UA_SHIM_FN(NodeId, UA_TYPES_NODEID) UA_SHIM_FN(ExpandedNodeId, UA_TYPES_EXPANDEDNODEID)
UA_SHIM_FN(QualifiedName, UA_TYPES_QUALIFIEDNAME) UA_SHIM_FN(LocalizedText, UA_TYPES_LOCALIZEDTEXT)
UA_SHIM_FN(ExtensionObject, UA_TYPES_EXTENSIONOBJECT) UA_SHIM_FN(DataValue, UA_TYPES_DATAVALUE)
UA_SHIM_FN(DiagnosticInfo, UA_TYPES_DIAGNOSTICINFO)
UA_SHIM_FN(Argument, UA_TYPES_ARGUMENT) UA_SHIM_FN(Range, UA_TYPES_RANGE) UA_SHIM_FN(EUInformation, UA_TYPES_EUINFORMATION)
UA_SHIM_FN(EnumValueType, UA_TYPES_ENUMVALUETYPE)
static inline void UA_BrowseDescription_init(UA_BrowseDescription *p) { memset(p, 0, sizeof *p); }
static inline void UA_NodeClass_init(UA_NodeClass *p) { memset(p, 0, sizeof *p); }
static inline void UA_NodeClass_clear(UA_NodeClass *p) { memset(p, 0, sizeof *p); }
void UA_BrowseResult_clear(UA_BrowseResult *br);
#ifdef __cplusplus
}
#endif
#endif
