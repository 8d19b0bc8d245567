#ifndef UA_SHIM_NODEIDS_H
#define UA_SHIM_NODEIDS_H
#define UA_NS0ID_BOOLEAN 1
#define UA_NS0ID_SBYTE 2
#define UA_NS0ID_BYTE 3
#define UA_NS0ID_INT16 4
#define UA_NS0ID_UINT16 5
#define UA_NS0ID_INT32 6
#define UA_NS0ID_UINT32 7
#define UA_NS0ID_INT64 8
#define UA_NS0ID_UINT64 9
#define UA_NS0ID_FLOAT 10
#define UA_NS0ID_DOUBLE 11
#define UA_NS0ID_STRING 12
#define UA_NS0ID_DATETIME 13
#define UA_NS0ID_GUID 14
#define UA_NS0ID_BYTESTRING 15
#define UA_NS0ID_XMLELEMENT 16
#define UA_NS0ID_NODEID 17
#define UA_NS0ID_EXPANDEDNODEID 18
#define UA_NS0ID_STATUSCODE 19
#define UA_NS0ID_QUALIFIEDNAME 20
#define UA_NS0ID_LOCALIZEDTEXT 21
#define UA_NS0ID_STRUCTURE 22
#define UA_NS0ID_DATAVALUE 23
#define UA_NS0ID_BASEDATATYPE 24
#define UA_NS0ID_DIAGNOSTICINFO 25
#define UA_NS0ID_NUMBER 26
#define UA_NS0ID_INTEGER 27
#define UA_NS0ID_UINTEGER 28
#define UA_NS0ID_ENUMERATION 29
#define UA_NS0ID_IMAGE 30
#define UA_NS0ID_REFERENCES 31
#define UA_NS0ID_NONHIERARCHICALREFERENCES 32
#define UA_NS0ID_HIERARCHICALREFERENCES 33
#define UA_NS0ID_HASCHILD 34
#define UA_NS0ID_ORGANIZES 35
#define UA_NS0ID_HASEVENTSOURCE 36
#define UA_NS0ID_HASMODELLINGRULE 37
#define UA_NS0ID_HASENCODING 38
#define UA_NS0ID_HASDESCRIPTION 39
#define UA_NS0ID_HASTYPEDEFINITION 40
#define UA_NS0ID_GENERATESEVENT 41
#define UA_NS0ID_AGGREGATES 44
#define UA_NS0ID_HASSUBTYPE 45
#define UA_NS0ID_HASPROPERTY 46
#define UA_NS0ID_HASCOMPONENT 47
#define UA_NS0ID_HASNOTIFIER 48
#define UA_NS0ID_HASORDEREDCOMPONENT 49
#define UA_NS0ID_BASEOBJECTTYPE 58
#define UA_NS0ID_FOLDERTYPE 61
#define UA_NS0ID_BASEVARIABLETYPE 62
#define UA_NS0ID_BASEDATAVARIABLETYPE 63
#define UA_NS0ID_PROPERTYTYPE 68
#define UA_NS0ID_DATATYPEENCODINGTYPE 76
#define UA_NS0ID_ROOTFOLDER 84
#define UA_NS0ID_OBJECTSFOLDER 85
#define UA_NS0ID_TYPESFOLDER 86
#define UA_NS0ID_VIEWSFOLDER 87
#define UA_NS0ID_OBJECTTYPESFOLDER 88
#define UA_NS0ID_VARIABLETYPESFOLDER 89
#define UA_NS0ID_DATATYPESFOLDER 90
#define UA_NS0ID_REFERENCETYPESFOLDER 91
#define UA_NS0ID_NODECLASS 257
#define UA_NS0ID_DURATION 290
#define UA_NS0ID_UTCTIME 294
#define UA_NS0ID_LOCALEID 295
#define UA_NS0ID_ARGUMENT 296
#define UA_NS0ID_APPLICATIONTYPE 307
#define UA_NS0ID_SERVERSTATE 852
#define UA_NS0ID_RANGE 884
#define UA_NS0ID_EUINFORMATION 887
#define UA_NS0ID_SERVER 2253
#define UA_NS0ID_ENUMVALUETYPE 7594
#define UA_NS0ID_TIMEZONEDATATYPE 8912
#define UA_NS0ID_AXISSCALEENUMERATION 12077
#define UA_NS0ID_AXISINFORMATION 12079
#define UA_NS0ID_XVTYPE 12080
#define UA_NS0ID_COMPLEXNUMBERTYPE 12171
#define UA_NS0ID_OPTIONSET 12755
#define UA_NS0ID_UNION 12756
#endif
