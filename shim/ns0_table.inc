{3062,1,"Default Binary",0,0,58,0},
{3063,1,"Default XML",0,0,58,0},
{24,64,"BaseDataType",0,0,0,1},
{26,64,"Number",24,45,0,1},
{27,64,"Integer",26,45,0,1},
{28,64,"UInteger",26,45,0,1},
{29,64,"Enumeration",24,45,0,1},
{1,64,"Boolean",24,45,0,0},
{2,64,"SByte",27,45,0,0},
{3,64,"Byte",28,45,0,0},
{4,64,"Int16",27,45,0,0},
{5,64,"UInt16",28,45,0,0},
{6,64,"Int32",27,45,0,0},
{7,64,"UInt32",28,45,0,0},
{8,64,"Int64",27,45,0,0},
{9,64,"UInt64",28,45,0,0},
{10,64,"Float",26,45,0,0},
{11,64,"Double",26,45,0,0},
{12,64,"String",24,45,0,0},
{13,64,"DateTime",24,45,0,0},
{14,64,"Guid",24,45,0,0},
{15,64,"ByteString",24,45,0,0},
{16,64,"XmlElement",24,45,0,0},
{17,64,"NodeId",24,45,0,0},
{18,64,"ExpandedNodeId",24,45,0,0},
{19,64,"StatusCode",24,45,0,0},
{20,64,"QualifiedName",24,45,0,0},
{21,64,"LocalizedText",24,45,0,0},
{22,64,"Structure",24,45,0,1},
{23,64,"DataValue",24,45,0,0},
{25,64,"DiagnosticInfo",24,45,0,0},
{30,64,"Image",15,45,0,1},
{50,64,"Decimal",26,45,0,0},
{31,32,"References",0,0,0,1},
{32,32,"NonHierarchicalReferences",31,45,0,1},
{33,32,"HierarchicalReferences",31,45,0,1},
{34,32,"HasChild",33,45,0,1},
{35,32,"Organizes",33,45,0,0},
{36,32,"HasEventSource",33,45,0,0},
{37,32,"HasModellingRule",32,45,0,0},
{38,32,"HasEncoding",32,45,0,0},
{39,32,"HasDescription",32,45,0,0},
{40,32,"HasTypeDefinition",32,45,0,0},
{41,32,"GeneratesEvent",32,45,0,0},
{3065,32,"AlwaysGeneratesEvent",41,45,0,0},
{44,32,"Aggregates",34,45,0,1},
{45,32,"HasSubtype",34,45,0,0},
{46,32,"HasProperty",44,45,0,0},
{47,32,"HasComponent",44,45,0,0},
{48,32,"HasNotifier",36,45,0,0},
{49,32,"HasOrderedComponent",47,45,0,0},
{51,32,"FromState",32,45,0,0},
{52,32,"ToState",32,45,0,0},
{53,32,"HasCause",32,45,0,0},
{54,32,"HasEffect",32,45,0,0},
{117,32,"HasSubStateMachine",32,45,0,0},
{56,32,"HasHistoricalConfiguration",44,45,0,0},
{58,8,"BaseObjectType",0,0,0,0},
{61,8,"FolderType",58,45,0,0},
{62,16,"BaseVariableType",0,0,0,1},
{63,16,"BaseDataVariableType",62,45,0,0},
{68,16,"PropertyType",62,45,0,0},
{69,16,"DataTypeDescriptionType",63,45,0,0},
{104,2,"DataTypeVersion",69,46,68,0},
{105,2,"DictionaryFragment",69,46,68,0},
{72,16,"DataTypeDictionaryType",63,45,0,0},
{106,2,"DataTypeVersion",72,46,68,0},
{107,2,"NamespaceUri",72,46,68,0},
{15001,2,"Deprecated",72,46,68,0},
{75,8,"DataTypeSystemType",58,45,0,0},
{76,8,"DataTypeEncodingType",58,45,0,0},
{120,64,"NamingRuleType",29,45,0,0},
{12169,2,"EnumValues",120,46,68,0},
{77,8,"ModellingRuleType",58,45,0,0},
{111,2,"NamingRule",77,46,68,0},
{78,1,"Mandatory",0,0,77,0},
{112,2,"NamingRule",78,46,68,0},
{80,1,"Optional",0,0,77,0},
{113,2,"NamingRule",80,46,68,0},
{83,1,"ExposesItsArray",0,0,77,0},
{114,2,"NamingRule",83,46,68,0},
{79,1,"MandatoryShared",0,0,77,0},
{116,2,"NamingRule",79,46,68,0},
{11508,1,"OptionalPlaceholder",0,0,77,0},
{11509,2,"NamingRule",11508,46,68,0},
{11510,1,"MandatoryPlaceholder",0,0,77,0},
{11511,2,"NamingRule",11510,46,68,0},
{84,1,"Root",0,0,61,0},
{85,1,"Objects",84,35,61,0},
{86,1,"Types",84,35,61,0},
{87,1,"Views",84,35,61,0},
{88,1,"ObjectTypes",86,35,61,0},
{89,1,"VariableTypes",86,35,61,0},
{90,1,"DataTypes",86,35,61,0},
{91,1,"ReferenceTypes",86,35,61,0},
{92,1,"XML Schema",90,35,75,0},
{93,1,"OPC Binary",90,35,75,0},
{129,32,"HasArgumentDescription",47,45,0,0},
{131,32,"HasOptionalInputArgumentDescription",129,45,0,0},
{15957,1,"//opcfoundation.org/UA/",11715,47,11616,0},
{15958,2,"NamespaceUri",15957,46,68,0},
{15959,2,"NamespaceVersion",15957,46,68,0},
{15960,2,"NamespacePublicationDate",15957,46,68,0},
{15961,2,"IsNamespaceSubset",15957,46,68,0},
{15962,2,"StaticNodeIdTypes",15957,46,68,0},
{15963,2,"StaticNumericNodeIdRange",15957,46,68,0},
{15964,2,"StaticStringNodeIdPattern",15957,46,68,0},
{16134,2,"DefaultRolePermissions",15957,46,68,0},
{16135,2,"DefaultUserRolePermissions",15957,46,68,0},
{16136,2,"DefaultAccessRestrictions",15957,46,68,0},
{3068,2,"NodeVersion",0,0,68,0},
{12170,2,"ViewVersion",0,0,68,0},
{3067,2,"Icon",0,0,68,0},
{3069,2,"LocalTime",0,0,68,0},
{3070,2,"AllowNulls",0,0,68,0},
{11433,2,"ValueAsText",0,0,68,0},
{11498,2,"MaxStringLength",0,0,68,0},
{15002,2,"MaxCharacters",0,0,68,0},
{12908,2,"MaxByteStringLength",0,0,68,0},
{11512,2,"MaxArrayLength",0,0,68,0},
{11513,2,"EngineeringUnits",0,0,68,0},
{11432,2,"EnumStrings",0,0,68,0},
{3071,2,"EnumValues",0,0,68,0},
{12745,2,"OptionSetValues",0,0,68,0},
{3072,2,"InputArguments",0,0,68,0},
{3073,2,"OutputArguments",0,0,68,0},
{16306,2,"DefaultInputValues",0,0,68,0},
{17605,2,"DefaultInstanceBrowseName",0,0,68,0},
{2000,64,"ImageBMP",30,45,0,0},
{2001,64,"ImageGIF",30,45,0,0},
{2002,64,"ImageJPG",30,45,0,0},
{2003,64,"ImagePNG",30,45,0,0},
{16307,64,"AudioDataType",15,45,0,0},
{2004,8,"ServerType",58,45,0,0},
{2005,2,"ServerArray",2004,46,68,0},
{2006,2,"NamespaceArray",2004,46,68,0},
{15003,2,"UrisVersion",2004,46,68,0},
{2007,2,"ServerStatus",2004,47,2138,0},
{3074,2,"StartTime",2007,47,63,0},
{3075,2,"CurrentTime",2007,47,63,0},
{3076,2,"State",2007,47,63,0},
{3077,2,"BuildInfo",2007,47,3051,0},
{3078,2,"ProductUri",3077,47,63,0},
{3079,2,"ManufacturerName",3077,47,63,0},
{3080,2,"ProductName",3077,47,63,0},
{3081,2,"SoftwareVersion",3077,47,63,0},
{3082,2,"BuildNumber",3077,47,63,0},
{3083,2,"BuildDate",3077,47,63,0},
{3084,2,"SecondsTillShutdown",2007,47,63,0},
{3085,2,"ShutdownReason",2007,47,63,0},
{2008,2,"ServiceLevel",2004,46,68,0},
{2742,2,"Auditing",2004,46,68,0},
{12882,2,"EstimatedReturnTime",2004,46,68,0},
{17612,2,"LocalTime",2004,46,68,0},
{2009,1,"ServerCapabilities",2004,47,2013,0},
{3086,2,"ServerProfileArray",2009,46,68,0},
{3087,2,"LocaleIdArray",2009,46,68,0},
{3088,2,"MinSupportedSampleRate",2009,46,68,0},
{3089,2,"MaxBrowseContinuationPoints",2009,46,68,0},
{3090,2,"MaxQueryContinuationPoints",2009,46,68,0},
{3091,2,"MaxHistoryContinuationPoints",2009,46,68,0},
{3092,2,"SoftwareCertificates",2009,46,68,0},
{3093,1,"ModellingRules",2009,47,61,0},
{3094,1,"AggregateFunctions",2009,47,61,0},
{2010,1,"ServerDiagnostics",2004,47,2020,0},
{3095,2,"ServerDiagnosticsSummary",2010,47,2150,0},
{3096,2,"ServerViewCount",3095,47,63,0},
{3097,2,"CurrentSessionCount",3095,47,63,0},
{3098,2,"CumulatedSessionCount",3095,47,63,0},
{3099,2,"SecurityRejectedSessionCount",3095,47,63,0},
{3100,2,"RejectedSessionCount",3095,47,63,0},
{3101,2,"SessionTimeoutCount",3095,47,63,0},
{3102,2,"SessionAbortCount",3095,47,63,0},
{3104,2,"PublishingIntervalCount",3095,47,63,0},
{3105,2,"CurrentSubscriptionCount",3095,47,63,0},
{3106,2,"CumulatedSubscriptionCount",3095,47,63,0},
{3107,2,"SecurityRejectedRequestsCount",3095,47,63,0},
{3108,2,"RejectedRequestsCount",3095,47,63,0},
{3110,2,"SubscriptionDiagnosticsArray",2010,47,2171,0},
{3111,1,"SessionsDiagnosticsSummary",2010,47,2026,0},
{3112,2,"SessionDiagnosticsArray",3111,47,2196,0},
{3113,2,"SessionSecurityDiagnosticsArray",3111,47,2243,0},
{3114,2,"EnabledFlag",2010,46,68,0},
{2011,1,"VendorServerInfo",2004,47,2033,0},
{2012,1,"ServerRedundancy",2004,47,2034,0},
{3115,2,"RedundancySupport",2012,46,68,0},
{11527,1,"Namespaces",2004,47,11645,0},
{11489,4,"GetMonitoredItems",2004,47,0,0},
{11490,2,"InputArguments",11489,46,68,0},
{11491,2,"OutputArguments",11489,46,68,0},
{12871,4,"ResendData",2004,47,0,0},
{12872,2,"InputArguments",12871,46,68,0},
{12746,4,"SetSubscriptionDurable",2004,47,0,0},
{12747,2,"InputArguments",12746,46,68,0},
{12748,2,"OutputArguments",12746,46,68,0},
{12883,4,"RequestServerStateChange",2004,47,0,0},
{12884,2,"InputArguments",12883,46,68,0},
{2013,8,"ServerCapabilitiesType",58,45,0,0},
{2014,2,"ServerProfileArray",2013,46,68,0},
{2016,2,"LocaleIdArray",2013,46,68,0},
{2017,2,"MinSupportedSampleRate",2013,46,68,0},
{2732,2,"MaxBrowseContinuationPoints",2013,46,68,0},
{2733,2,"MaxQueryContinuationPoints",2013,46,68,0},
{2734,2,"MaxHistoryContinuationPoints",2013,46,68,0},
{3049,2,"SoftwareCertificates",2013,46,68,0},
{11549,2,"MaxArrayLength",2013,46,68,0},
{11550,2,"MaxStringLength",2013,46,68,0},
{12910,2,"MaxByteStringLength",2013,46,68,0},
{11551,1,"OperationLimits",2013,47,11564,0},
{2019,1,"ModellingRules",2013,47,61,0},
{2754,1,"AggregateFunctions",2013,47,61,0},
{11562,2,"<VendorCapability>",2013,47,2137,0},
{16295,1,"RoleSet",2013,47,15607,0},
{16296,4,"AddRole",16295,47,0,0},
{16297,2,"InputArguments",16296,46,68,0},
{16298,2,"OutputArguments",16296,46,68,0},
{16299,4,"RemoveRole",16295,47,0,0},
{16300,2,"InputArguments",16299,46,68,0},
{2020,8,"ServerDiagnosticsType",58,45,0,0},
{2021,2,"ServerDiagnosticsSummary",2020,47,2150,0},
{3116,2,"ServerViewCount",2021,47,63,0},
{3117,2,"CurrentSessionCount",2021,47,63,0},
{3118,2,"CumulatedSessionCount",2021,47,63,0},
{3119,2,"SecurityRejectedSessionCount",2021,47,63,0},
{3120,2,"RejectedSessionCount",2021,47,63,0},
{3121,2,"SessionTimeoutCount",2021,47,63,0},
{3122,2,"SessionAbortCount",2021,47,63,0},
{3124,2,"PublishingIntervalCount",2021,47,63,0},
{3125,2,"CurrentSubscriptionCount",2021,47,63,0},
{3126,2,"CumulatedSubscriptionCount",2021,47,63,0},
{3127,2,"SecurityRejectedRequestsCount",2021,47,63,0},
{3128,2,"RejectedRequestsCount",2021,47,63,0},
{2022,2,"SamplingIntervalDiagnosticsArray",2020,47,2164,0},
{2023,2,"SubscriptionDiagnosticsArray",2020,47,2171,0},
{2744,1,"SessionsDiagnosticsSummary",2020,47,2026,0},
{3129,2,"SessionDiagnosticsArray",2744,47,2196,0},
{3130,2,"SessionSecurityDiagnosticsArray",2744,47,2243,0},
{2025,2,"EnabledFlag",2020,46,68,0},
{2026,8,"SessionsDiagnosticsSummaryType",58,45,0,0},
{2027,2,"SessionDiagnosticsArray",2026,47,2196,0},
{2028,2,"SessionSecurityDiagnosticsArray",2026,47,2243,0},
{12097,1,"<ClientName>",2026,47,2029,0},
{12098,2,"SessionDiagnostics",12097,47,2197,0},
{12099,2,"SessionId",12098,47,63,0},
{12100,2,"SessionName",12098,47,63,0},
{12101,2,"ClientDescription",12098,47,63,0},
{12102,2,"ServerUri",12098,47,63,0},
{12103,2,"EndpointUrl",12098,47,63,0},
{12104,2,"LocaleIds",12098,47,63,0},
{12105,2,"ActualSessionTimeout",12098,47,63,0},
{12106,2,"MaxResponseMessageSize",12098,47,63,0},
{12107,2,"ClientConnectionTime",12098,47,63,0},
{12108,2,"ClientLastContactTime",12098,47,63,0},
{12109,2,"CurrentSubscriptionsCount",12098,47,63,0},
{12110,2,"CurrentMonitoredItemsCount",12098,47,63,0},
{12111,2,"CurrentPublishRequestsInQueue",12098,47,63,0},
{12112,2,"TotalRequestCount",12098,47,63,0},
{12113,2,"UnauthorizedRequestCount",12098,47,63,0},
{12114,2,"ReadCount",12098,47,63,0},
{12115,2,"HistoryReadCount",12098,47,63,0},
{12116,2,"WriteCount",12098,47,63,0},
{12117,2,"HistoryUpdateCount",12098,47,63,0},
{12118,2,"CallCount",12098,47,63,0},
{12119,2,"CreateMonitoredItemsCount",12098,47,63,0},
{12120,2,"ModifyMonitoredItemsCount",12098,47,63,0},
{12121,2,"SetMonitoringModeCount",12098,47,63,0},
{12122,2,"SetTriggeringCount",12098,47,63,0},
{12123,2,"DeleteMonitoredItemsCount",12098,47,63,0},
{12124,2,"CreateSubscriptionCount",12098,47,63,0},
{12125,2,"ModifySubscriptionCount",12098,47,63,0},
{12126,2,"SetPublishingModeCount",12098,47,63,0},
{12127,2,"PublishCount",12098,47,63,0},
{12128,2,"RepublishCount",12098,47,63,0},
{12129,2,"TransferSubscriptionsCount",12098,47,63,0},
{12130,2,"DeleteSubscriptionsCount",12098,47,63,0},
{12131,2,"AddNodesCount",12098,47,63,0},
{12132,2,"AddReferencesCount",12098,47,63,0},
{12133,2,"DeleteNodesCount",12098,47,63,0},
{12134,2,"DeleteReferencesCount",12098,47,63,0},
{12135,2,"BrowseCount",12098,47,63,0},
{12136,2,"BrowseNextCount",12098,47,63,0},
{12137,2,"TranslateBrowsePathsToNodeIdsCount",12098,47,63,0},
{12138,2,"QueryFirstCount",12098,47,63,0},
{12139,2,"QueryNextCount",12098,47,63,0},
{12140,2,"RegisterNodesCount",12098,47,63,0},
{12141,2,"UnregisterNodesCount",12098,47,63,0},
{12142,2,"SessionSecurityDiagnostics",12097,47,2244,0},
{12143,2,"SessionId",12142,47,63,0},
{12144,2,"ClientUserIdOfSession",12142,47,63,0},
{12145,2,"ClientUserIdHistory",12142,47,63,0},
{12146,2,"AuthenticationMechanism",12142,47,63,0},
{12147,2,"Encoding",12142,47,63,0},
{12148,2,"TransportProtocol",12142,47,63,0},
{12149,2,"SecurityMode",12142,47,63,0},
{12150,2,"SecurityPolicyUri",12142,47,63,0},
{12151,2,"ClientCertificate",12142,47,63,0},
{12152,2,"SubscriptionDiagnosticsArray",12097,47,2171,0},
{2029,8,"SessionDiagnosticsObjectType",58,45,0,0},
{2030,2,"SessionDiagnostics",2029,47,2197,0},
{3131,2,"SessionId",2030,47,63,0},
{3132,2,"SessionName",2030,47,63,0},
{3133,2,"ClientDescription",2030,47,63,0},
{3134,2,"ServerUri",2030,47,63,0},
{3135,2,"EndpointUrl",2030,47,63,0},
{3136,2,"LocaleIds",2030,47,63,0},
{3137,2,"ActualSessionTimeout",2030,47,63,0},
{3138,2,"MaxResponseMessageSize",2030,47,63,0},
{3139,2,"ClientConnectionTime",2030,47,63,0},
{3140,2,"ClientLastContactTime",2030,47,63,0},
{3141,2,"CurrentSubscriptionsCount",2030,47,63,0},
{3142,2,"CurrentMonitoredItemsCount",2030,47,63,0},
{3143,2,"CurrentPublishRequestsInQueue",2030,47,63,0},
{8898,2,"TotalRequestCount",2030,47,63,0},
{11891,2,"UnauthorizedRequestCount",2030,47,63,0},
{3151,2,"ReadCount",2030,47,63,0},
{3152,2,"HistoryReadCount",2030,47,63,0},
{3153,2,"WriteCount",2030,47,63,0},
{3154,2,"HistoryUpdateCount",2030,47,63,0},
{3155,2,"CallCount",2030,47,63,0},
{3156,2,"CreateMonitoredItemsCount",2030,47,63,0},
{3157,2,"ModifyMonitoredItemsCount",2030,47,63,0},
{3158,2,"SetMonitoringModeCount",2030,47,63,0},
{3159,2,"SetTriggeringCount",2030,47,63,0},
{3160,2,"DeleteMonitoredItemsCount",2030,47,63,0},
{3161,2,"CreateSubscriptionCount",2030,47,63,0},
{3162,2,"ModifySubscriptionCount",2030,47,63,0},
{3163,2,"SetPublishingModeCount",2030,47,63,0},
{3164,2,"PublishCount",2030,47,63,0},
{3165,2,"RepublishCount",2030,47,63,0},
{3166,2,"TransferSubscriptionsCount",2030,47,63,0},
{3167,2,"DeleteSubscriptionsCount",2030,47,63,0},
{3168,2,"AddNodesCount",2030,47,63,0},
{3169,2,"AddReferencesCount",2030,47,63,0},
{3170,2,"DeleteNodesCount",2030,47,63,0},
{3171,2,"DeleteReferencesCount",2030,47,63,0},
{3172,2,"BrowseCount",2030,47,63,0},
{3173,2,"BrowseNextCount",2030,47,63,0},
{3174,2,"TranslateBrowsePathsToNodeIdsCount",2030,47,63,0},
{3175,2,"QueryFirstCount",2030,47,63,0},
{3176,2,"QueryNextCount",2030,47,63,0},
{3177,2,"RegisterNodesCount",2030,47,63,0},
{3178,2,"UnregisterNodesCount",2030,47,63,0},
{2031,2,"SessionSecurityDiagnostics",2029,47,2244,0},
{3179,2,"SessionId",2031,47,63,0},
{3180,2,"ClientUserIdOfSession",2031,47,63,0},
{3181,2,"ClientUserIdHistory",2031,47,63,0},
{3182,2,"AuthenticationMechanism",2031,47,63,0},
{3183,2,"Encoding",2031,47,63,0},
{3184,2,"TransportProtocol",2031,47,63,0},
{3185,2,"SecurityMode",2031,47,63,0},
{3186,2,"SecurityPolicyUri",2031,47,63,0},
{3187,2,"ClientCertificate",2031,47,63,0},
{2032,2,"SubscriptionDiagnosticsArray",2029,47,2171,0},
{2033,8,"VendorServerInfoType",58,45,0,0},
{2034,8,"ServerRedundancyType",58,45,0,0},
{2035,2,"RedundancySupport",2034,46,68,0},
{2036,8,"TransparentRedundancyType",2034,45,0,0},
{2037,2,"CurrentServerId",2036,46,68,0},
{2038,2,"RedundantServerArray",2036,46,68,0},
{2039,8,"NonTransparentRedundancyType",2034,45,0,0},
{2040,2,"ServerUriArray",2039,46,68,0},
{11945,8,"NonTransparentNetworkRedundancyType",2039,45,0,0},
{11948,2,"ServerNetworkGroups",11945,46,68,0},
{11564,8,"OperationLimitsType",61,45,0,0},
{11565,2,"MaxNodesPerRead",11564,46,68,0},
{12161,2,"MaxNodesPerHistoryReadData",11564,46,68,0},
{12162,2,"MaxNodesPerHistoryReadEvents",11564,46,68,0},
{11567,2,"MaxNodesPerWrite",11564,46,68,0},
{12163,2,"MaxNodesPerHistoryUpdateData",11564,46,68,0},
{12164,2,"MaxNodesPerHistoryUpdateEvents",11564,46,68,0},
{11569,2,"MaxNodesPerMethodCall",11564,46,68,0},
{11570,2,"MaxNodesPerBrowse",11564,46,68,0},
{11571,2,"MaxNodesPerRegisterNodes",11564,46,68,0},
{11572,2,"MaxNodesPerTranslateBrowsePathsToNodeIds",11564,46,68,0},
{11573,2,"MaxNodesPerNodeManagement",11564,46,68,0},
{11574,2,"MaxMonitoredItemsPerCall",11564,46,68,0},
{11575,8,"FileType",58,45,0,0},
{11576,2,"Size",11575,46,68,0},
{12686,2,"Writable",11575,46,68,0},
{12687,2,"UserWritable",11575,46,68,0},
{11579,2,"OpenCount",11575,46,68,0},
{13341,2,"MimeType",11575,46,68,0},
{11580,4,"Open",11575,47,0,0},
{11581,2,"InputArguments",11580,46,68,0},
{11582,2,"OutputArguments",11580,46,68,0},
{11583,4,"Close",11575,47,0,0},
{11584,2,"InputArguments",11583,46,68,0},
{11585,4,"Read",11575,47,0,0},
{11586,2,"InputArguments",11585,46,68,0},
{11587,2,"OutputArguments",11585,46,68,0},
{11588,4,"Write",11575,47,0,0},
{11589,2,"InputArguments",11588,46,68,0},
{11590,4,"GetPosition",11575,47,0,0},
{11591,2,"InputArguments",11590,46,68,0},
{11592,2,"OutputArguments",11590,46,68,0},
{11593,4,"SetPosition",11575,47,0,0},
{11594,2,"InputArguments",11593,46,68,0},
{11595,8,"AddressSpaceFileType",11575,45,0,0},
{11615,4,"ExportNamespace",11595,47,0,0},
{11616,8,"NamespaceMetadataType",58,45,0,0},
{11617,2,"NamespaceUri",11616,46,68,0},
{11618,2,"NamespaceVersion",11616,46,68,0},
{11619,2,"NamespacePublicationDate",11616,46,68,0},
{11620,2,"IsNamespaceSubset",11616,46,68,0},
{11621,2,"StaticNodeIdTypes",11616,46,68,0},
{11622,2,"StaticNumericNodeIdRange",11616,46,68,0},
{11623,2,"StaticStringNodeIdPattern",11616,46,68,0},
{11624,1,"NamespaceFile",11616,47,11595,0},
{11625,2,"Size",11624,46,68,0},
{12690,2,"Writable",11624,46,68,0},
{12691,2,"UserWritable",11624,46,68,0},
{11628,2,"OpenCount",11624,46,68,0},
{11629,4,"Open",11624,47,0,0},
{11630,2,"InputArguments",11629,46,68,0},
{11631,2,"OutputArguments",11629,46,68,0},
{11632,4,"Close",11624,47,0,0},
{11633,2,"InputArguments",11632,46,68,0},
{11634,4,"Read",11624,47,0,0},
{11635,2,"InputArguments",11634,46,68,0},
{11636,2,"OutputArguments",11634,46,68,0},
{11637,4,"Write",11624,47,0,0},
{11638,2,"InputArguments",11637,46,68,0},
{11639,4,"GetPosition",11624,47,0,0},
{11640,2,"InputArguments",11639,46,68,0},
{11641,2,"OutputArguments",11639,46,68,0},
{11642,4,"SetPosition",11624,47,0,0},
{11643,2,"InputArguments",11642,46,68,0},
{16137,2,"DefaultRolePermissions",11616,46,68,0},
{16138,2,"DefaultUserRolePermissions",11616,46,68,0},
{16139,2,"DefaultAccessRestrictions",11616,46,68,0},
{11645,8,"NamespacesType",58,45,0,0},
{11646,1,"<NamespaceIdentifier>",11645,47,11616,0},
{11647,2,"NamespaceUri",11646,46,68,0},
{11648,2,"NamespaceVersion",11646,46,68,0},
{11649,2,"NamespacePublicationDate",11646,46,68,0},
{11650,2,"IsNamespaceSubset",11646,46,68,0},
{11651,2,"StaticNodeIdTypes",11646,46,68,0},
{11652,2,"StaticNumericNodeIdRange",11646,46,68,0},
{11653,2,"StaticStringNodeIdPattern",11646,46,68,0},
{2041,8,"BaseEventType",58,45,0,1},
{2042,2,"EventId",2041,46,68,0},
{2043,2,"EventType",2041,46,68,0},
{2044,2,"SourceNode",2041,46,68,0},
{2045,2,"SourceName",2041,46,68,0},
{2046,2,"Time",2041,46,68,0},
{2047,2,"ReceiveTime",2041,46,68,0},
{3190,2,"LocalTime",2041,46,68,0},
{2050,2,"Message",2041,46,68,0},
{2051,2,"Severity",2041,46,68,0},
{2052,8,"AuditEventType",2041,45,0,1},
{2053,2,"ActionTimeStamp",2052,46,68,0},
{2054,2,"Status",2052,46,68,0},
{2055,2,"ServerId",2052,46,68,0},
{2056,2,"ClientAuditEntryId",2052,46,68,0},
{2057,2,"ClientUserId",2052,46,68,0},
{2058,8,"AuditSecurityEventType",2052,45,0,1},
{17615,2,"StatusCodeId",2058,46,68,0},
{2059,8,"AuditChannelEventType",2058,45,0,1},
{2745,2,"SecureChannelId",2059,46,68,0},
{2060,8,"AuditOpenSecureChannelEventType",2059,45,0,1},
{2061,2,"ClientCertificate",2060,46,68,0},
{2746,2,"ClientCertificateThumbprint",2060,46,68,0},
{2062,2,"RequestType",2060,46,68,0},
{2063,2,"SecurityPolicyUri",2060,46,68,0},
{2065,2,"SecurityMode",2060,46,68,0},
{2066,2,"RequestedLifetime",2060,46,68,0},
{2069,8,"AuditSessionEventType",2058,45,0,1},
{2070,2,"SessionId",2069,46,68,0},
{2071,8,"AuditCreateSessionEventType",2069,45,0,1},
{2072,2,"SecureChannelId",2071,46,68,0},
{2073,2,"ClientCertificate",2071,46,68,0},
{2747,2,"ClientCertificateThumbprint",2071,46,68,0},
{2074,2,"RevisedSessionTimeout",2071,46,68,0},
{2748,8,"AuditUrlMismatchEventType",2071,45,0,1},
{2749,2,"EndpointUrl",2748,46,68,0},
{2075,8,"AuditActivateSessionEventType",2069,45,0,1},
{2076,2,"ClientSoftwareCertificates",2075,46,68,0},
{2077,2,"UserIdentityToken",2075,46,68,0},
{11485,2,"SecureChannelId",2075,46,68,0},
{2078,8,"AuditCancelEventType",2069,45,0,1},
{2079,2,"RequestHandle",2078,46,68,0},
{2080,8,"AuditCertificateEventType",2058,45,0,1},
{2081,2,"Certificate",2080,46,68,0},
{2082,8,"AuditCertificateDataMismatchEventType",2080,45,0,1},
{2083,2,"InvalidHostname",2082,46,68,0},
{2084,2,"InvalidUri",2082,46,68,0},
{2085,8,"AuditCertificateExpiredEventType",2080,45,0,1},
{2086,8,"AuditCertificateInvalidEventType",2080,45,0,1},
{2087,8,"AuditCertificateUntrustedEventType",2080,45,0,1},
{2088,8,"AuditCertificateRevokedEventType",2080,45,0,1},
{2089,8,"AuditCertificateMismatchEventType",2080,45,0,1},
{2090,8,"AuditNodeManagementEventType",2052,45,0,1},
{2091,8,"AuditAddNodesEventType",2090,45,0,1},
{2092,2,"NodesToAdd",2091,46,68,0},
{2093,8,"AuditDeleteNodesEventType",2090,45,0,1},
{2094,2,"NodesToDelete",2093,46,68,0},
{2095,8,"AuditAddReferencesEventType",2090,45,0,1},
{2096,2,"ReferencesToAdd",2095,46,68,0},
{2097,8,"AuditDeleteReferencesEventType",2090,45,0,1},
{2098,2,"ReferencesToDelete",2097,46,68,0},
{2099,8,"AuditUpdateEventType",2052,45,0,1},
{2100,8,"AuditWriteUpdateEventType",2099,45,0,1},
{2750,2,"AttributeId",2100,46,68,0},
{2101,2,"IndexRange",2100,46,68,0},
{2102,2,"OldValue",2100,46,68,0},
{2103,2,"NewValue",2100,46,68,0},
{2104,8,"AuditHistoryUpdateEventType",2099,45,0,1},
{2751,2,"ParameterDataTypeId",2104,46,68,0},
{2127,8,"AuditUpdateMethodEventType",2052,45,0,1},
{2128,2,"MethodId",2127,46,68,0},
{2129,2,"InputArguments",2127,46,68,0},
{2130,8,"SystemEventType",2041,45,0,1},
{2131,8,"DeviceFailureEventType",2130,45,0,1},
{11446,8,"SystemStatusChangeEventType",2130,45,0,1},
{11696,2,"SystemState",11446,46,68,0},
{2132,8,"BaseModelChangeEventType",2041,45,0,1},
{2133,8,"GeneralModelChangeEventType",2132,45,0,1},
{2134,2,"Changes",2133,46,68,0},
{2738,8,"SemanticChangeEventType",2041,45,0,1},
{2739,2,"Changes",2738,46,68,0},
{3035,8,"EventQueueOverflowEventType",2041,45,0,1},
{11436,8,"ProgressEventType",2041,45,0,1},
{12502,2,"Context",11436,46,68,0},
{12503,2,"Progress",11436,46,68,0},
{2340,8,"AggregateFunctionType",58,45,0,0},
{2137,16,"ServerVendorCapabilityType",63,45,0,1},
{2138,16,"ServerStatusType",63,45,0,0},
{2139,2,"StartTime",2138,47,63,0},
{2140,2,"CurrentTime",2138,47,63,0},
{2141,2,"State",2138,47,63,0},
{2142,2,"BuildInfo",2138,47,3051,0},
{3698,2,"ProductUri",2142,47,63,0},
{3699,2,"ManufacturerName",2142,47,63,0},
{3700,2,"ProductName",2142,47,63,0},
{3701,2,"SoftwareVersion",2142,47,63,0},
{3702,2,"BuildNumber",2142,47,63,0},
{3703,2,"BuildDate",2142,47,63,0},
{2752,2,"SecondsTillShutdown",2138,47,63,0},
{2753,2,"ShutdownReason",2138,47,63,0},
{3051,16,"BuildInfoType",63,45,0,0},
{3052,2,"ProductUri",3051,47,63,0},
{3053,2,"ManufacturerName",3051,47,63,0},
{3054,2,"ProductName",3051,47,63,0},
{3055,2,"SoftwareVersion",3051,47,63,0},
{3056,2,"BuildNumber",3051,47,63,0},
{3057,2,"BuildDate",3051,47,63,0},
{2150,16,"ServerDiagnosticsSummaryType",63,45,0,0},
{2151,2,"ServerViewCount",2150,47,63,0},
{2152,2,"CurrentSessionCount",2150,47,63,0},
{2153,2,"CumulatedSessionCount",2150,47,63,0},
{2154,2,"SecurityRejectedSessionCount",2150,47,63,0},
{2155,2,"RejectedSessionCount",2150,47,63,0},
{2156,2,"SessionTimeoutCount",2150,47,63,0},
{2157,2,"SessionAbortCount",2150,47,63,0},
{2159,2,"PublishingIntervalCount",2150,47,63,0},
{2160,2,"CurrentSubscriptionCount",2150,47,63,0},
{2161,2,"CumulatedSubscriptionCount",2150,47,63,0},
{2162,2,"SecurityRejectedRequestsCount",2150,47,63,0},
{2163,2,"RejectedRequestsCount",2150,47,63,0},
{2164,16,"SamplingIntervalDiagnosticsArrayType",63,45,0,0},
{12779,2,"SamplingIntervalDiagnostics",2164,47,2165,0},
{12780,2,"SamplingInterval",12779,47,63,0},
{12781,2,"SampledMonitoredItemsCount",12779,47,63,0},
{12782,2,"MaxSampledMonitoredItemsCount",12779,47,63,0},
{12783,2,"DisabledMonitoredItemsSamplingCount",12779,47,63,0},
{2165,16,"SamplingIntervalDiagnosticsType",63,45,0,0},
{2166,2,"SamplingInterval",2165,47,63,0},
{11697,2,"SampledMonitoredItemsCount",2165,47,63,0},
{11698,2,"MaxSampledMonitoredItemsCount",2165,47,63,0},
{11699,2,"DisabledMonitoredItemsSamplingCount",2165,47,63,0},
{2171,16,"SubscriptionDiagnosticsArrayType",63,45,0,0},
{12784,2,"SubscriptionDiagnostics",2171,47,2172,0},
{12785,2,"SessionId",12784,47,63,0},
{12786,2,"SubscriptionId",12784,47,63,0},
{12787,2,"Priority",12784,47,63,0},
{12788,2,"PublishingInterval",12784,47,63,0},
{12789,2,"MaxKeepAliveCount",12784,47,63,0},
{12790,2,"MaxLifetimeCount",12784,47,63,0},
{12791,2,"MaxNotificationsPerPublish",12784,47,63,0},
{12792,2,"PublishingEnabled",12784,47,63,0},
{12793,2,"ModifyCount",12784,47,63,0},
{12794,2,"EnableCount",12784,47,63,0},
{12795,2,"DisableCount",12784,47,63,0},
{12796,2,"RepublishRequestCount",12784,47,63,0},
{12797,2,"RepublishMessageRequestCount",12784,47,63,0},
{12798,2,"RepublishMessageCount",12784,47,63,0},
{12799,2,"TransferRequestCount",12784,47,63,0},
{12800,2,"TransferredToAltClientCount",12784,47,63,0},
{12801,2,"TransferredToSameClientCount",12784,47,63,0},
{12802,2,"PublishRequestCount",12784,47,63,0},
{12803,2,"DataChangeNotificationsCount",12784,47,63,0},
{12804,2,"EventNotificationsCount",12784,47,63,0},
{12805,2,"NotificationsCount",12784,47,63,0},
{12806,2,"LatePublishRequestCount",12784,47,63,0},
{12807,2,"CurrentKeepAliveCount",12784,47,63,0},
{12808,2,"CurrentLifetimeCount",12784,47,63,0},
{12809,2,"UnacknowledgedMessageCount",12784,47,63,0},
{12810,2,"DiscardedMessageCount",12784,47,63,0},
{12811,2,"MonitoredItemCount",12784,47,63,0},
{12812,2,"DisabledMonitoredItemCount",12784,47,63,0},
{12813,2,"MonitoringQueueOverflowCount",12784,47,63,0},
{12814,2,"NextSequenceNumber",12784,47,63,0},
{12815,2,"EventQueueOverflowCount",12784,47,63,0},
{2172,16,"SubscriptionDiagnosticsType",63,45,0,0},
{2173,2,"SessionId",2172,47,63,0},
{2174,2,"SubscriptionId",2172,47,63,0},
{2175,2,"Priority",2172,47,63,0},
{2176,2,"PublishingInterval",2172,47,63,0},
{2177,2,"MaxKeepAliveCount",2172,47,63,0},
{8888,2,"MaxLifetimeCount",2172,47,63,0},
{2179,2,"MaxNotificationsPerPublish",2172,47,63,0},
{2180,2,"PublishingEnabled",2172,47,63,0},
{2181,2,"ModifyCount",2172,47,63,0},
{2182,2,"EnableCount",2172,47,63,0},
{2183,2,"DisableCount",2172,47,63,0},
{2184,2,"RepublishRequestCount",2172,47,63,0},
{2185,2,"RepublishMessageRequestCount",2172,47,63,0},
{2186,2,"RepublishMessageCount",2172,47,63,0},
{2187,2,"TransferRequestCount",2172,47,63,0},
{2188,2,"TransferredToAltClientCount",2172,47,63,0},
{2189,2,"TransferredToSameClientCount",2172,47,63,0},
{2190,2,"PublishRequestCount",2172,47,63,0},
{2191,2,"DataChangeNotificationsCount",2172,47,63,0},
{2998,2,"EventNotificationsCount",2172,47,63,0},
{2193,2,"NotificationsCount",2172,47,63,0},
{8889,2,"LatePublishRequestCount",2172,47,63,0},
{8890,2,"CurrentKeepAliveCount",2172,47,63,0},
{8891,2,"CurrentLifetimeCount",2172,47,63,0},
{8892,2,"UnacknowledgedMessageCount",2172,47,63,0},
{8893,2,"DiscardedMessageCount",2172,47,63,0},
{8894,2,"MonitoredItemCount",2172,47,63,0},
{8895,2,"DisabledMonitoredItemCount",2172,47,63,0},
{8896,2,"MonitoringQueueOverflowCount",2172,47,63,0},
{8897,2,"NextSequenceNumber",2172,47,63,0},
{8902,2,"EventQueueOverflowCount",2172,47,63,0},
{2196,16,"SessionDiagnosticsArrayType",63,45,0,0},
{12816,2,"SessionDiagnostics",2196,47,2197,0},
{12817,2,"SessionId",12816,47,63,0},
{12818,2,"SessionName",12816,47,63,0},
{12819,2,"ClientDescription",12816,47,63,0},
{12820,2,"ServerUri",12816,47,63,0},
{12821,2,"EndpointUrl",12816,47,63,0},
{12822,2,"LocaleIds",12816,47,63,0},
{12823,2,"ActualSessionTimeout",12816,47,63,0},
{12824,2,"MaxResponseMessageSize",12816,47,63,0},
{12825,2,"ClientConnectionTime",12816,47,63,0},
{12826,2,"ClientLastContactTime",12816,47,63,0},
{12827,2,"CurrentSubscriptionsCount",12816,47,63,0},
{12828,2,"CurrentMonitoredItemsCount",12816,47,63,0},
{12829,2,"CurrentPublishRequestsInQueue",12816,47,63,0},
{12830,2,"TotalRequestCount",12816,47,63,0},
{12831,2,"UnauthorizedRequestCount",12816,47,63,0},
{12832,2,"ReadCount",12816,47,63,0},
{12833,2,"HistoryReadCount",12816,47,63,0},
{12834,2,"WriteCount",12816,47,63,0},
{12835,2,"HistoryUpdateCount",12816,47,63,0},
{12836,2,"CallCount",12816,47,63,0},
{12837,2,"CreateMonitoredItemsCount",12816,47,63,0},
{12838,2,"ModifyMonitoredItemsCount",12816,47,63,0},
{12839,2,"SetMonitoringModeCount",12816,47,63,0},
{12840,2,"SetTriggeringCount",12816,47,63,0},
{12841,2,"DeleteMonitoredItemsCount",12816,47,63,0},
{12842,2,"CreateSubscriptionCount",12816,47,63,0},
{12843,2,"ModifySubscriptionCount",12816,47,63,0},
{12844,2,"SetPublishingModeCount",12816,47,63,0},
{12845,2,"PublishCount",12816,47,63,0},
{12846,2,"RepublishCount",12816,47,63,0},
{12847,2,"TransferSubscriptionsCount",12816,47,63,0},
{12848,2,"DeleteSubscriptionsCount",12816,47,63,0},
{12849,2,"AddNodesCount",12816,47,63,0},
{12850,2,"AddReferencesCount",12816,47,63,0},
{12851,2,"DeleteNodesCount",12816,47,63,0},
{12852,2,"DeleteReferencesCount",12816,47,63,0},
{12853,2,"BrowseCount",12816,47,63,0},
{12854,2,"BrowseNextCount",12816,47,63,0},
{12855,2,"TranslateBrowsePathsToNodeIdsCount",12816,47,63,0},
{12856,2,"QueryFirstCount",12816,47,63,0},
{12857,2,"QueryNextCount",12816,47,63,0},
{12858,2,"RegisterNodesCount",12816,47,63,0},
{12859,2,"UnregisterNodesCount",12816,47,63,0},
{2197,16,"SessionDiagnosticsVariableType",63,45,0,0},
{2198,2,"SessionId",2197,47,63,0},
{2199,2,"SessionName",2197,47,63,0},
{2200,2,"ClientDescription",2197,47,63,0},
{2201,2,"ServerUri",2197,47,63,0},
{2202,2,"EndpointUrl",2197,47,63,0},
{2203,2,"LocaleIds",2197,47,63,0},
{2204,2,"ActualSessionTimeout",2197,47,63,0},
{3050,2,"MaxResponseMessageSize",2197,47,63,0},
{2205,2,"ClientConnectionTime",2197,47,63,0},
{2206,2,"ClientLastContactTime",2197,47,63,0},
{2207,2,"CurrentSubscriptionsCount",2197,47,63,0},
{2208,2,"CurrentMonitoredItemsCount",2197,47,63,0},
{2209,2,"CurrentPublishRequestsInQueue",2197,47,63,0},
{8900,2,"TotalRequestCount",2197,47,63,0},
{11892,2,"UnauthorizedRequestCount",2197,47,63,0},
{2217,2,"ReadCount",2197,47,63,0},
{2218,2,"HistoryReadCount",2197,47,63,0},
{2219,2,"WriteCount",2197,47,63,0},
{2220,2,"HistoryUpdateCount",2197,47,63,0},
{2221,2,"CallCount",2197,47,63,0},
{2222,2,"CreateMonitoredItemsCount",2197,47,63,0},
{2223,2,"ModifyMonitoredItemsCount",2197,47,63,0},
{2224,2,"SetMonitoringModeCount",2197,47,63,0},
{2225,2,"SetTriggeringCount",2197,47,63,0},
{2226,2,"DeleteMonitoredItemsCount",2197,47,63,0},
{2227,2,"CreateSubscriptionCount",2197,47,63,0},
{2228,2,"ModifySubscriptionCount",2197,47,63,0},
{2229,2,"SetPublishingModeCount",2197,47,63,0},
{2230,2,"PublishCount",2197,47,63,0},
{2231,2,"RepublishCount",2197,47,63,0},
{2232,2,"TransferSubscriptionsCount",2197,47,63,0},
{2233,2,"DeleteSubscriptionsCount",2197,47,63,0},
{2234,2,"AddNodesCount",2197,47,63,0},
{2235,2,"AddReferencesCount",2197,47,63,0},
{2236,2,"DeleteNodesCount",2197,47,63,0},
{2237,2,"DeleteReferencesCount",2197,47,63,0},
{2238,2,"BrowseCount",2197,47,63,0},
{2239,2,"BrowseNextCount",2197,47,63,0},
{2240,2,"TranslateBrowsePathsToNodeIdsCount",2197,47,63,0},
{2241,2,"QueryFirstCount",2197,47,63,0},
{2242,2,"QueryNextCount",2197,47,63,0},
{2730,2,"RegisterNodesCount",2197,47,63,0},
{2731,2,"UnregisterNodesCount",2197,47,63,0},
{2243,16,"SessionSecurityDiagnosticsArrayType",63,45,0,0},
{12860,2,"SessionSecurityDiagnostics",2243,47,2244,0},
{12861,2,"SessionId",12860,47,63,0},
{12862,2,"ClientUserIdOfSession",12860,47,63,0},
{12863,2,"ClientUserIdHistory",12860,47,63,0},
{12864,2,"AuthenticationMechanism",12860,47,63,0},
{12865,2,"Encoding",12860,47,63,0},
{12866,2,"TransportProtocol",12860,47,63,0},
{12867,2,"SecurityMode",12860,47,63,0},
{12868,2,"SecurityPolicyUri",12860,47,63,0},
{12869,2,"ClientCertificate",12860,47,63,0},
{2244,16,"SessionSecurityDiagnosticsType",63,45,0,0},
{2245,2,"SessionId",2244,47,63,0},
{2246,2,"ClientUserIdOfSession",2244,47,63,0},
{2247,2,"ClientUserIdHistory",2244,47,63,0},
{2248,2,"AuthenticationMechanism",2244,47,63,0},
{2249,2,"Encoding",2244,47,63,0},
{2250,2,"TransportProtocol",2244,47,63,0},
{2251,2,"SecurityMode",2244,47,63,0},
{2252,2,"SecurityPolicyUri",2244,47,63,0},
{3058,2,"ClientCertificate",2244,47,63,0},
{11487,16,"OptionSetType",63,45,0,0},
{11488,2,"OptionSetValues",11487,46,68,0},
{11701,2,"BitMask",11487,46,68,0},
{16309,16,"SelectionListType",63,45,0,0},
{17632,2,"Selections",16309,46,68,0},
{17633,2,"SelectionDescriptions",16309,46,68,0},
{16312,2,"RestrictToList",16309,46,68,0},
{17986,16,"AudioVariableType",63,45,0,0},
{17988,2,"ListId",17986,46,68,0},
{17989,2,"AgencyId",17986,46,68,0},
{17990,2,"VersionId",17986,46,68,0},
{3048,1,"EventTypes",86,35,61,0},
{2253,1,"Server",85,35,2004,0},
{2254,2,"ServerArray",2253,46,68,0},
{2255,2,"NamespaceArray",2253,46,68,0},
{2256,2,"ServerStatus",2253,47,2138,0},
{2257,2,"StartTime",2256,47,63,0},
{2258,2,"CurrentTime",2256,47,63,0},
{2259,2,"State",2256,47,63,0},
{2260,2,"BuildInfo",2256,47,3051,0},
{2262,2,"ProductUri",2260,47,63,0},
{2263,2,"ManufacturerName",2260,47,63,0},
{2261,2,"ProductName",2260,47,63,0},
{2264,2,"SoftwareVersion",2260,47,63,0},
{2265,2,"BuildNumber",2260,47,63,0},
{2266,2,"BuildDate",2260,47,63,0},
{2992,2,"SecondsTillShutdown",2256,47,63,0},
{2993,2,"ShutdownReason",2256,47,63,0},
{2267,2,"ServiceLevel",2253,46,68,0},
{2994,2,"Auditing",2253,46,68,0},
{12885,2,"EstimatedReturnTime",2253,46,68,0},
{17634,2,"LocalTime",2253,46,68,0},
{2268,1,"ServerCapabilities",2253,47,2013,0},
{2269,2,"ServerProfileArray",2268,46,68,0},
{2271,2,"LocaleIdArray",2268,46,68,0},
{2272,2,"MinSupportedSampleRate",2268,46,68,0},
{2735,2,"MaxBrowseContinuationPoints",2268,46,68,0},
{2736,2,"MaxQueryContinuationPoints",2268,46,68,0},
{2737,2,"MaxHistoryContinuationPoints",2268,46,68,0},
{3704,2,"SoftwareCertificates",2268,46,68,0},
{11702,2,"MaxArrayLength",2268,46,68,0},
{11703,2,"MaxStringLength",2268,46,68,0},
{12911,2,"MaxByteStringLength",2268,46,68,0},
{11704,1,"OperationLimits",2268,47,11564,0},
{11705,2,"MaxNodesPerRead",11704,46,68,0},
{12165,2,"MaxNodesPerHistoryReadData",11704,46,68,0},
{12166,2,"MaxNodesPerHistoryReadEvents",11704,46,68,0},
{11707,2,"MaxNodesPerWrite",11704,46,68,0},
{12167,2,"MaxNodesPerHistoryUpdateData",11704,46,68,0},
{12168,2,"MaxNodesPerHistoryUpdateEvents",11704,46,68,0},
{11709,2,"MaxNodesPerMethodCall",11704,46,68,0},
{11710,2,"MaxNodesPerBrowse",11704,46,68,0},
{11711,2,"MaxNodesPerRegisterNodes",11704,46,68,0},
{11712,2,"MaxNodesPerTranslateBrowsePathsToNodeIds",11704,46,68,0},
{11713,2,"MaxNodesPerNodeManagement",11704,46,68,0},
{11714,2,"MaxMonitoredItemsPerCall",11704,46,68,0},
{2996,1,"ModellingRules",2268,47,61,0},
{2997,1,"AggregateFunctions",2268,47,61,0},
{15606,1,"RoleSet",2268,47,15607,0},
{16301,4,"AddRole",15606,47,0,0},
{16302,2,"InputArguments",16301,46,68,0},
{16303,2,"OutputArguments",16301,46,68,0},
{16304,4,"RemoveRole",15606,47,0,0},
{16305,2,"InputArguments",16304,46,68,0},
{2274,1,"ServerDiagnostics",2253,47,2020,0},
{2275,2,"ServerDiagnosticsSummary",2274,47,2150,0},
{2276,2,"ServerViewCount",2275,47,63,0},
{2277,2,"CurrentSessionCount",2275,47,63,0},
{2278,2,"CumulatedSessionCount",2275,47,63,0},
{2279,2,"SecurityRejectedSessionCount",2275,47,63,0},
{3705,2,"RejectedSessionCount",2275,47,63,0},
{2281,2,"SessionTimeoutCount",2275,47,63,0},
{2282,2,"SessionAbortCount",2275,47,63,0},
{2284,2,"PublishingIntervalCount",2275,47,63,0},
{2285,2,"CurrentSubscriptionCount",2275,47,63,0},
{2286,2,"CumulatedSubscriptionCount",2275,47,63,0},
{2287,2,"SecurityRejectedRequestsCount",2275,47,63,0},
{2288,2,"RejectedRequestsCount",2275,47,63,0},
{2289,2,"SamplingIntervalDiagnosticsArray",2274,47,2164,0},
{2290,2,"SubscriptionDiagnosticsArray",2274,47,2171,0},
{3706,1,"SessionsDiagnosticsSummary",2274,47,2026,0},
{3707,2,"SessionDiagnosticsArray",3706,47,2196,0},
{3708,2,"SessionSecurityDiagnosticsArray",3706,47,2243,0},
{2294,2,"EnabledFlag",2274,46,68,0},
{2295,1,"VendorServerInfo",2253,47,2033,0},
{2296,1,"ServerRedundancy",2253,47,2034,0},
{3709,2,"RedundancySupport",2296,46,68,0},
{11312,2,"CurrentServerId",2296,46,68,0},
{11313,2,"RedundantServerArray",2296,46,68,0},
{11314,2,"ServerUriArray",2296,46,68,0},
{14415,2,"ServerNetworkGroups",2296,46,68,0},
{11715,1,"Namespaces",2253,47,11645,0},
{11492,4,"GetMonitoredItems",2253,47,0,0},
{11493,2,"InputArguments",11492,46,68,0},
{11494,2,"OutputArguments",11492,46,68,0},
{12873,4,"ResendData",2253,47,0,0},
{12874,2,"InputArguments",12873,46,68,0},
{12749,4,"SetSubscriptionDurable",2253,47,0,0},
{12750,2,"InputArguments",12749,46,68,0},
{12751,2,"OutputArguments",12749,46,68,0},
{12886,4,"RequestServerStateChange",2253,47,0,0},
{12887,2,"InputArguments",12886,46,68,0},
{11192,1,"HistoryServerCapabilities",2268,47,2330,0},
{11193,2,"AccessHistoryDataCapability",11192,46,68,0},
{11242,2,"AccessHistoryEventsCapability",11192,46,68,0},
{11273,2,"MaxReturnDataValues",11192,46,68,0},
{11274,2,"MaxReturnEventValues",11192,46,68,0},
{11196,2,"InsertDataCapability",11192,46,68,0},
{11197,2,"ReplaceDataCapability",11192,46,68,0},
{11198,2,"UpdateDataCapability",11192,46,68,0},
{11199,2,"DeleteRawCapability",11192,46,68,0},
{11200,2,"DeleteAtTimeCapability",11192,46,68,0},
{11281,2,"InsertEventCapability",11192,46,68,0},
{11282,2,"ReplaceEventCapability",11192,46,68,0},
{11283,2,"UpdateEventCapability",11192,46,68,0},
{11502,2,"DeleteEventCapability",11192,46,68,0},
{11275,2,"InsertAnnotationCapability",11192,46,68,0},
{11201,1,"AggregateFunctions",11192,47,61,0},
{11737,64,"BitFieldMaskDataType",9,45,0,0},
{14533,64,"KeyValuePair",22,45,0,0},
{16313,64,"AdditionalParametersType",22,45,0,0},
{17548,64,"EphemeralKeyType",22,45,0,0},
{15528,64,"EndpointType",22,45,0,0},
{2299,8,"StateMachineType",58,45,0,0},
{2769,2,"CurrentState",2299,47,2755,0},
{3720,2,"Id",2769,46,68,0},
{2770,2,"LastTransition",2299,47,2762,0},
{3724,2,"Id",2770,46,68,0},
{2755,16,"StateVariableType",63,45,0,0},
{2756,2,"Id",2755,46,68,0},
{2757,2,"Name",2755,46,68,0},
{2758,2,"Number",2755,46,68,0},
{2759,2,"EffectiveDisplayName",2755,46,68,0},
{2762,16,"TransitionVariableType",63,45,0,0},
{2763,2,"Id",2762,46,68,0},
{2764,2,"Name",2762,46,68,0},
{2765,2,"Number",2762,46,68,0},
{2766,2,"TransitionTime",2762,46,68,0},
{11456,2,"EffectiveTransitionTime",2762,46,68,0},
{2771,8,"FiniteStateMachineType",2299,45,0,1},
{2772,2,"CurrentState",2771,47,2760,0},
{3728,2,"Id",2772,46,68,0},
{2773,2,"LastTransition",2771,47,2767,0},
{3732,2,"Id",2773,46,68,0},
{17635,2,"AvailableStates",2771,47,63,0},
{17636,2,"AvailableTransitions",2771,47,63,0},
{2760,16,"FiniteStateVariableType",2755,45,0,0},
{2761,2,"Id",2760,46,68,0},
{2767,16,"FiniteTransitionVariableType",2762,45,0,0},
{2768,2,"Id",2767,46,68,0},
{2307,8,"StateType",58,45,0,0},
{2308,2,"StateNumber",2307,46,68,0},
{2309,8,"InitialStateType",2307,45,0,0},
{2310,8,"TransitionType",58,45,0,0},
{2312,2,"TransitionNumber",2310,46,68,0},
{15109,8,"ChoiceStateType",2307,45,0,0},
{15112,32,"HasGuard",47,45,0,0},
{15113,16,"GuardVariableType",63,45,0,0},
{15128,16,"ExpressionGuardVariableType",15113,45,0,0},
{15129,2,"Expression",15128,46,68,0},
{15317,16,"ElseGuardVariableType",15113,45,0,0},
{17709,16,"RationalNumberType",63,45,0,0},
{17712,2,"Numerator",17709,47,63,0},
{17713,2,"Denominator",17709,47,63,0},
{17714,16,"VectorType",63,45,0,1},
{17715,2,"VectorUnit",17714,46,68,0},
{17716,16,"3DVectorType",17714,45,0,0},
{18769,2,"X",17716,47,63,0},
{18770,2,"Y",17716,47,63,0},
{18771,2,"Z",17716,47,63,0},
{18772,16,"CartesianCoordinatesType",63,45,0,1},
{18773,2,"LengthUnit",18772,46,68,0},
{18774,16,"3DCartesianCoordinatesType",18772,45,0,0},
{18776,2,"X",18774,47,63,0},
{18777,2,"Y",18774,47,63,0},
{18778,2,"Z",18774,47,63,0},
{18779,16,"OrientationType",63,45,0,1},
{18780,2,"AngleUnit",18779,46,68,0},
{18781,16,"3DOrientationType",18779,45,0,0},
{18783,2,"A",18781,47,63,0},
{18784,2,"B",18781,47,63,0},
{18785,2,"C",18781,47,63,0},
{18786,16,"FrameType",63,45,0,1},
{18801,2,"CartesianCoordinates",18786,47,18772,0},
{18787,2,"Orientation",18786,47,18779,0},
{18788,2,"Constant",18786,46,68,0},
{18789,2,"BaseFrame",18786,47,63,0},
{18790,2,"FixedBase",18786,46,68,0},
{18791,16,"3DFrameType",18786,45,0,0},
{18796,2,"CartesianCoordinates",18791,47,18774,0},
{18798,2,"X",18796,47,63,0},
{18799,2,"Y",18796,47,63,0},
{18800,2,"Z",18796,47,63,0},
{18792,2,"Orientation",18791,47,18781,0},
{19074,2,"A",18792,47,63,0},
{19075,2,"B",18792,47,63,0},
{19076,2,"C",18792,47,63,0},
{18806,64,"RationalNumber",22,45,0,0},
{18807,64,"Vector",22,45,0,1},
{18808,64,"3DVector",18807,45,0,0},
{18809,64,"CartesianCoordinates",22,45,0,1},
{18810,64,"3DCartesianCoordinates",18809,45,0,0},
{18811,64,"Orientation",22,45,0,1},
{18812,64,"3DOrientation",18811,45,0,0},
{18813,64,"Frame",22,45,0,1},
{18814,64,"3DFrame",18813,45,0,0},
{2311,8,"TransitionEventType",2041,45,0,1},
{2774,2,"Transition",2311,47,2762,0},
{3754,2,"Id",2774,46,68,0},
{2775,2,"FromState",2311,47,2755,0},
{3746,2,"Id",2775,46,68,0},
{2776,2,"ToState",2311,47,2755,0},
{3750,2,"Id",2776,46,68,0},
{2315,8,"AuditUpdateStateEventType",2127,45,0,1},
{2777,2,"OldStateId",2315,46,68,0},
{2778,2,"NewStateId",2315,46,68,0},
{11939,64,"OpenFileMode",29,45,0,0},
{11940,2,"EnumValues",11939,46,68,0},
{13353,8,"FileDirectoryType",61,45,0,0},
{13354,1,"<FileDirectoryName>",13353,35,13353,0},
{13355,4,"CreateDirectory",13354,47,0,0},
{13356,2,"InputArguments",13355,46,68,0},
{13357,2,"OutputArguments",13355,46,68,0},
{13358,4,"CreateFile",13354,47,0,0},
{13359,2,"InputArguments",13358,46,68,0},
{13360,2,"OutputArguments",13358,46,68,0},
{17718,4,"Delete",13354,47,0,0},
{17719,2,"InputArguments",17718,46,68,0},
{13363,4,"MoveOrCopy",13354,47,0,0},
{13364,2,"InputArguments",13363,46,68,0},
{13365,2,"OutputArguments",13363,46,68,0},
{13366,1,"<FileName>",13353,35,11575,0},
{13367,2,"Size",13366,46,68,0},
{13368,2,"Writable",13366,46,68,0},
{13369,2,"UserWritable",13366,46,68,0},
{13370,2,"OpenCount",13366,46,68,0},
{13372,4,"Open",13366,47,0,0},
{13373,2,"InputArguments",13372,46,68,0},
{13374,2,"OutputArguments",13372,46,68,0},
{13375,4,"Close",13366,47,0,0},
{13376,2,"InputArguments",13375,46,68,0},
{13377,4,"Read",13366,47,0,0},
{13378,2,"InputArguments",13377,46,68,0},
{13379,2,"OutputArguments",13377,46,68,0},
{13380,4,"Write",13366,47,0,0},
{13381,2,"InputArguments",13380,46,68,0},
{13382,4,"GetPosition",13366,47,0,0},
{13383,2,"InputArguments",13382,46,68,0},
{13384,2,"OutputArguments",13382,46,68,0},
{13385,4,"SetPosition",13366,47,0,0},
{13386,2,"InputArguments",13385,46,68,0},
{13387,4,"CreateDirectory",13353,47,0,0},
{13388,2,"InputArguments",13387,46,68,0},
{13389,2,"OutputArguments",13387,46,68,0},
{13390,4,"CreateFile",13353,47,0,0},
{13391,2,"InputArguments",13390,46,68,0},
{13392,2,"OutputArguments",13390,46,68,0},
{13393,4,"Delete",13353,47,0,0},
{13394,2,"InputArguments",13393,46,68,0},
{13395,4,"MoveOrCopy",13353,47,0,0},
{13396,2,"InputArguments",13395,46,68,0},
{13397,2,"OutputArguments",13395,46,68,0},
{16314,1,"FileSystem",0,0,13353,0},
{16348,4,"CreateDirectory",16314,47,0,0},
{16349,2,"InputArguments",16348,46,68,0},
{16350,2,"OutputArguments",16348,46,68,0},
{16351,4,"CreateFile",16314,47,0,0},
{16352,2,"InputArguments",16351,46,68,0},
{16353,2,"OutputArguments",16351,46,68,0},
{16354,4,"Delete",16314,47,0,0},
{16355,2,"InputArguments",16354,46,68,0},
{16356,4,"MoveOrCopy",16314,47,0,0},
{16357,2,"InputArguments",16356,46,68,0},
{16358,2,"OutputArguments",16356,46,68,0},
{15744,8,"TemporaryFileTransferType",58,45,0,0},
{15745,2,"ClientProcessingTimeout",15744,46,68,0},
{15746,4,"GenerateFileForRead",15744,47,0,0},
{15747,2,"InputArguments",15746,46,68,0},
{15748,2,"OutputArguments",15746,46,68,0},
{15749,4,"GenerateFileForWrite",15744,47,0,0},
{16359,2,"InputArguments",15749,46,68,0},
{15750,2,"OutputArguments",15749,46,68,0},
{15751,4,"CloseAndCommit",15744,47,0,0},
{15752,2,"InputArguments",15751,46,68,0},
{15753,2,"OutputArguments",15751,46,68,0},
{15754,1,"<TransferState>",15744,47,15803,0},
{15755,2,"CurrentState",15754,47,2760,0},
{15756,2,"Id",15755,46,68,0},
{15794,4,"Reset",15754,47,0,0},
{15803,8,"FileTransferStateMachineType",2771,45,0,0},
{15815,1,"Idle",15803,47,2309,0},
{15816,2,"StateNumber",15815,46,68,0},
{15817,1,"ReadPrepare",15803,47,2307,0},
{15818,2,"StateNumber",15817,46,68,0},
{15819,1,"ReadTransfer",15803,47,2307,0},
{15820,2,"StateNumber",15819,46,68,0},
{15821,1,"ApplyWrite",15803,47,2307,0},
{15822,2,"StateNumber",15821,46,68,0},
{15823,1,"Error",15803,47,2307,0},
{15824,2,"StateNumber",15823,46,68,0},
{15825,1,"IdleToReadPrepare",15803,47,2310,0},
{15826,2,"TransitionNumber",15825,46,68,0},
{15827,1,"ReadPrepareToReadTransfer",15803,47,2310,0},
{15828,2,"TransitionNumber",15827,46,68,0},
{15829,1,"ReadTransferToIdle",15803,47,2310,0},
{15830,2,"TransitionNumber",15829,46,68,0},
{15831,1,"IdleToApplyWrite",15803,47,2310,0},
{15832,2,"TransitionNumber",15831,46,68,0},
{15833,1,"ApplyWriteToIdle",15803,47,2310,0},
{15834,2,"TransitionNumber",15833,46,68,0},
{15835,1,"ReadPrepareToError",15803,47,2310,0},
{15836,2,"TransitionNumber",15835,46,68,0},
{15837,1,"ReadTransferToError",15803,47,2310,0},
{15838,2,"TransitionNumber",15837,46,68,0},
{15839,1,"ApplyWriteToError",15803,47,2310,0},
{15840,2,"TransitionNumber",15839,46,68,0},
{15841,1,"ErrorToIdle",15803,47,2310,0},
{15842,2,"TransitionNumber",15841,46,68,0},
{15843,4,"Reset",15803,47,0,0},
{15607,8,"RoleSetType",58,45,0,0},
{15608,1,"<RoleName>",15607,47,15620,0},
{16162,2,"Identities",15608,46,68,0},
{15997,4,"AddRole",15607,47,0,0},
{15998,2,"InputArguments",15997,46,68,0},
{15999,2,"OutputArguments",15997,46,68,0},
{16000,4,"RemoveRole",15607,47,0,0},
{16001,2,"InputArguments",16000,46,68,0},
{15620,8,"RoleType",58,45,0,0},
{16173,2,"Identities",15620,46,68,0},
{16174,2,"Applications",15620,46,68,0},
{15410,2,"ApplicationsExclude",15620,46,68,0},
{16175,2,"Endpoints",15620,46,68,0},
{15411,2,"EndpointsExclude",15620,46,68,0},
{15624,4,"AddIdentity",15620,47,0,0},
{15625,2,"InputArguments",15624,46,68,0},
{15626,4,"RemoveIdentity",15620,47,0,0},
{15627,2,"InputArguments",15626,46,68,0},
{16176,4,"AddApplication",15620,47,0,0},
{16177,2,"InputArguments",16176,46,68,0},
{16178,4,"RemoveApplication",15620,47,0,0},
{16179,2,"InputArguments",16178,46,68,0},
{16180,4,"AddEndpoint",15620,47,0,0},
{16181,2,"InputArguments",16180,46,68,0},
{16182,4,"RemoveEndpoint",15620,47,0,0},
{16183,2,"InputArguments",16182,46,68,0},
{15632,64,"IdentityCriteriaType",29,45,0,0},
{15633,2,"EnumValues",15632,46,68,0},
{15634,64,"IdentityMappingRuleType",22,45,0,0},
{17641,8,"RoleMappingRuleChangedAuditEventType",2127,45,0,1},
{15644,1,"Anonymous",15606,35,15620,0},
{16192,2,"Identities",15644,46,68,0},
{16193,2,"Applications",15644,46,68,0},
{15412,2,"ApplicationsExclude",15644,46,68,0},
{16194,2,"Endpoints",15644,46,68,0},
{15413,2,"EndpointsExclude",15644,46,68,0},
{15648,4,"AddIdentity",15644,47,0,0},
{15649,2,"InputArguments",15648,46,68,0},
{15650,4,"RemoveIdentity",15644,47,0,0},
{15651,2,"InputArguments",15650,46,68,0},
{16195,4,"AddApplication",15644,47,0,0},
{16196,2,"InputArguments",16195,46,68,0},
{16197,4,"RemoveApplication",15644,47,0,0},
{16198,2,"InputArguments",16197,46,68,0},
{16199,4,"AddEndpoint",15644,47,0,0},
{16200,2,"InputArguments",16199,46,68,0},
{16201,4,"RemoveEndpoint",15644,47,0,0},
{16202,2,"InputArguments",16201,46,68,0},
{15656,1,"AuthenticatedUser",15606,35,15620,0},
{16203,2,"Identities",15656,46,68,0},
{16204,2,"Applications",15656,46,68,0},
{15414,2,"ApplicationsExclude",15656,46,68,0},
{16205,2,"Endpoints",15656,46,68,0},
{15415,2,"EndpointsExclude",15656,46,68,0},
{15660,4,"AddIdentity",15656,47,0,0},
{15661,2,"InputArguments",15660,46,68,0},
{15662,4,"RemoveIdentity",15656,47,0,0},
{15663,2,"InputArguments",15662,46,68,0},
{16206,4,"AddApplication",15656,47,0,0},
{16207,2,"InputArguments",16206,46,68,0},
{16208,4,"RemoveApplication",15656,47,0,0},
{16209,2,"InputArguments",16208,46,68,0},
{16210,4,"AddEndpoint",15656,47,0,0},
{16211,2,"InputArguments",16210,46,68,0},
{16212,4,"RemoveEndpoint",15656,47,0,0},
{16213,2,"InputArguments",16212,46,68,0},
{15668,1,"Observer",15606,35,15620,0},
{16214,2,"Identities",15668,46,68,0},
{16215,2,"Applications",15668,46,68,0},
{15416,2,"ApplicationsExclude",15668,46,68,0},
{16216,2,"Endpoints",15668,46,68,0},
{15417,2,"EndpointsExclude",15668,46,68,0},
{15672,4,"AddIdentity",15668,47,0,0},
{15673,2,"InputArguments",15672,46,68,0},
{15674,4,"RemoveIdentity",15668,47,0,0},
{15675,2,"InputArguments",15674,46,68,0},
{16217,4,"AddApplication",15668,47,0,0},
{16218,2,"InputArguments",16217,46,68,0},
{16219,4,"RemoveApplication",15668,47,0,0},
{16220,2,"InputArguments",16219,46,68,0},
{16221,4,"AddEndpoint",15668,47,0,0},
{16222,2,"InputArguments",16221,46,68,0},
{16223,4,"RemoveEndpoint",15668,47,0,0},
{16224,2,"InputArguments",16223,46,68,0},
{15680,1,"Operator",15606,35,15620,0},
{16225,2,"Identities",15680,46,68,0},
{16226,2,"Applications",15680,46,68,0},
{15418,2,"ApplicationsExclude",15680,46,68,0},
{16227,2,"Endpoints",15680,46,68,0},
{15423,2,"EndpointsExclude",15680,46,68,0},
{15684,4,"AddIdentity",15680,47,0,0},
{15685,2,"InputArguments",15684,46,68,0},
{15686,4,"RemoveIdentity",15680,47,0,0},
{15687,2,"InputArguments",15686,46,68,0},
{16228,4,"AddApplication",15680,47,0,0},
{16229,2,"InputArguments",16228,46,68,0},
{16230,4,"RemoveApplication",15680,47,0,0},
{16231,2,"InputArguments",16230,46,68,0},
{16232,4,"AddEndpoint",15680,47,0,0},
{16233,2,"InputArguments",16232,46,68,0},
{16234,4,"RemoveEndpoint",15680,47,0,0},
{16235,2,"InputArguments",16234,46,68,0},
{16036,1,"Engineer",15606,35,15620,0},
{16236,2,"Identities",16036,46,68,0},
{16237,2,"Applications",16036,46,68,0},
{15424,2,"ApplicationsExclude",16036,46,68,0},
{16238,2,"Endpoints",16036,46,68,0},
{15425,2,"EndpointsExclude",16036,46,68,0},
{16041,4,"AddIdentity",16036,47,0,0},
{16042,2,"InputArguments",16041,46,68,0},
{16043,4,"RemoveIdentity",16036,47,0,0},
{16044,2,"InputArguments",16043,46,68,0},
{16239,4,"AddApplication",16036,47,0,0},
{16240,2,"InputArguments",16239,46,68,0},
{16241,4,"RemoveApplication",16036,47,0,0},
{16242,2,"InputArguments",16241,46,68,0},
{16243,4,"AddEndpoint",16036,47,0,0},
{16244,2,"InputArguments",16243,46,68,0},
{16245,4,"RemoveEndpoint",16036,47,0,0},
{16246,2,"InputArguments",16245,46,68,0},
{15692,1,"Supervisor",15606,35,15620,0},
{16247,2,"Identities",15692,46,68,0},
{16248,2,"Applications",15692,46,68,0},
{15426,2,"ApplicationsExclude",15692,46,68,0},
{16249,2,"Endpoints",15692,46,68,0},
{15427,2,"EndpointsExclude",15692,46,68,0},
{15696,4,"AddIdentity",15692,47,0,0},
{15697,2,"InputArguments",15696,46,68,0},
{15698,4,"RemoveIdentity",15692,47,0,0},
{15699,2,"InputArguments",15698,46,68,0},
{16250,4,"AddApplication",15692,47,0,0},
{16251,2,"InputArguments",16250,46,68,0},
{16252,4,"RemoveApplication",15692,47,0,0},
{16253,2,"InputArguments",16252,46,68,0},
{16254,4,"AddEndpoint",15692,47,0,0},
{16255,2,"InputArguments",16254,46,68,0},
{16256,4,"RemoveEndpoint",15692,47,0,0},
{16257,2,"InputArguments",16256,46,68,0},
{15716,1,"ConfigureAdmin",15606,35,15620,0},
{16269,2,"Identities",15716,46,68,0},
{16270,2,"Applications",15716,46,68,0},
{15428,2,"ApplicationsExclude",15716,46,68,0},
{16271,2,"Endpoints",15716,46,68,0},
{15429,2,"EndpointsExclude",15716,46,68,0},
{15720,4,"AddIdentity",15716,47,0,0},
{15721,2,"InputArguments",15720,46,68,0},
{15722,4,"RemoveIdentity",15716,47,0,0},
{15723,2,"InputArguments",15722,46,68,0},
{16272,4,"AddApplication",15716,47,0,0},
{16273,2,"InputArguments",16272,46,68,0},
{16274,4,"RemoveApplication",15716,47,0,0},
{16275,2,"InputArguments",16274,46,68,0},
{16276,4,"AddEndpoint",15716,47,0,0},
{16277,2,"InputArguments",16276,46,68,0},
{16278,4,"RemoveEndpoint",15716,47,0,0},
{16279,2,"InputArguments",16278,46,68,0},
{15704,1,"SecurityAdmin",15606,35,15620,0},
{16258,2,"Identities",15704,46,68,0},
{16259,2,"Applications",15704,46,68,0},
{15430,2,"ApplicationsExclude",15704,46,68,0},
{16260,2,"Endpoints",15704,46,68,0},
{15527,2,"EndpointsExclude",15704,46,68,0},
{15708,4,"AddIdentity",15704,47,0,0},
{15709,2,"InputArguments",15708,46,68,0},
{15710,4,"RemoveIdentity",15704,47,0,0},
{15711,2,"InputArguments",15710,46,68,0},
{16261,4,"AddApplication",15704,47,0,0},
{16262,2,"InputArguments",16261,46,68,0},
{16263,4,"RemoveApplication",15704,47,0,0},
{16264,2,"InputArguments",16263,46,68,0},
{16265,4,"AddEndpoint",15704,47,0,0},
{16266,2,"InputArguments",16265,46,68,0},
{16267,4,"RemoveEndpoint",15704,47,0,0},
{16268,2,"InputArguments",16267,46,68,0},
{17589,8,"DictionaryEntryType",58,45,0,1},
{17590,1,"<DictionaryEntryName>",17589,47,17589,0},
{17591,8,"DictionaryFolderType",61,45,0,0},
{17592,1,"<DictionaryFolderName>",17591,47,17591,0},
{17593,1,"<DictionaryEntryName>",17591,47,17589,0},
{17594,1,"Dictionaries",2253,47,17591,0},
{17597,32,"HasDictionaryEntry",32,45,0,0},
{17598,8,"IrdiDictionaryEntryType",17589,45,0,0},
{17600,8,"UriDictionaryEntryType",17589,45,0,0},
{17602,8,"BaseInterfaceType",58,45,0,1},
{17708,1,"InterfaceTypes",86,35,61,0},
{17603,32,"HasInterface",32,45,0,0},
{17604,32,"HasAddIn",32,45,0,0},
{2365,16,"DataItemType",63,45,0,0},
{2366,2,"Definition",2365,46,68,0},
{2367,2,"ValuePrecision",2365,46,68,0},
{15318,16,"BaseAnalogType",2365,45,0,0},
{17567,2,"InstrumentRange",15318,46,68,0},
{17568,2,"EURange",15318,46,68,0},
{17569,2,"EngineeringUnits",15318,46,68,0},
{2368,16,"AnalogItemType",15318,45,0,0},
{2369,2,"EURange",2368,46,68,0},
{17497,16,"AnalogUnitType",15318,45,0,0},
{17502,2,"EngineeringUnits",17497,46,68,0},
{17570,16,"AnalogUnitRangeType",2368,45,0,0},
{17575,2,"EngineeringUnits",17570,46,68,0},
{2372,16,"DiscreteItemType",2365,45,0,1},
{2373,16,"TwoStateDiscreteType",2372,45,0,0},
{2374,2,"FalseState",2373,46,68,0},
{2375,2,"TrueState",2373,46,68,0},
{2376,16,"MultiStateDiscreteType",2372,45,0,0},
{2377,2,"EnumStrings",2376,46,68,0},
{11238,16,"MultiStateValueDiscreteType",2372,45,0,0},
{11241,2,"EnumValues",11238,46,68,0},
{11461,2,"ValueAsText",11238,46,68,0},
{12021,16,"ArrayItemType",2365,45,0,1},
{12024,2,"InstrumentRange",12021,46,68,0},
{12025,2,"EURange",12021,46,68,0},
{12026,2,"EngineeringUnits",12021,46,68,0},
{12027,2,"Title",12021,46,68,0},
{12028,2,"AxisScaleType",12021,46,68,0},
{12029,16,"YArrayItemType",12021,45,0,0},
{12037,2,"XAxisDefinition",12029,46,68,0},
{12038,16,"XYArrayItemType",12021,45,0,0},
{12046,2,"XAxisDefinition",12038,46,68,0},
{12047,16,"ImageItemType",12021,45,0,0},
{12055,2,"XAxisDefinition",12047,46,68,0},
{12056,2,"YAxisDefinition",12047,46,68,0},
{12057,16,"CubeItemType",12021,45,0,0},
{12065,2,"XAxisDefinition",12057,46,68,0},
{12066,2,"YAxisDefinition",12057,46,68,0},
{12067,2,"ZAxisDefinition",12057,46,68,0},
{12068,16,"NDimensionArrayItemType",12021,45,0,0},
{12076,2,"AxisDefinition",12068,46,68,0},
{8995,16,"TwoStateVariableType",2755,45,0,0},
{8996,2,"Id",8995,46,68,0},
{9000,2,"TransitionTime",8995,46,68,0},
{9001,2,"EffectiveTransitionTime",8995,46,68,0},
{11110,2,"TrueState",8995,46,68,0},
{11111,2,"FalseState",8995,46,68,0},
{9002,16,"ConditionVariableType",63,45,0,0},
{9003,2,"SourceTimestamp",9002,46,68,0},
{9004,32,"HasTrueSubState",32,45,0,0},
{9005,32,"HasFalseSubState",32,45,0,0},
{16361,32,"HasAlarmSuppressionGroup",47,45,0,0},
{16362,32,"AlarmGroupMember",35,45,0,0},
{2782,8,"ConditionType",2041,45,0,1},
{11112,2,"ConditionClassId",2782,46,68,0},
{11113,2,"ConditionClassName",2782,46,68,0},
{16363,2,"ConditionSubClassId",2782,46,68,0},
{16364,2,"ConditionSubClassName",2782,46,68,0},
{9009,2,"ConditionName",2782,46,68,0},
{9010,2,"BranchId",2782,46,68,0},
{3874,2,"Retain",2782,46,68,0},
{9011,2,"EnabledState",2782,47,8995,0},
{9012,2,"Id",9011,46,68,0},
{9015,2,"EffectiveDisplayName",9011,46,68,0},
{9016,2,"TransitionTime",9011,46,68,0},
{9017,2,"EffectiveTransitionTime",9011,46,68,0},
{9018,2,"TrueState",9011,46,68,0},
{9019,2,"FalseState",9011,46,68,0},
{9020,2,"Quality",2782,47,9002,0},
{9021,2,"SourceTimestamp",9020,46,68,0},
{9022,2,"LastSeverity",2782,47,9002,0},
{9023,2,"SourceTimestamp",9022,46,68,0},
{9024,2,"Comment",2782,47,9002,0},
{9025,2,"SourceTimestamp",9024,46,68,0},
{9026,2,"ClientUserId",2782,46,68,0},
{9028,4,"Disable",2782,47,0,0},
{9027,4,"Enable",2782,47,0,0},
{9029,4,"AddComment",2782,47,0,0},
{9030,2,"InputArguments",9029,46,68,0},
{3875,4,"ConditionRefresh",2782,47,0,0},
{3876,2,"InputArguments",3875,46,68,0},
{12912,4,"ConditionRefresh2",2782,47,0,0},
{12913,2,"InputArguments",12912,46,68,0},
{2830,8,"DialogConditionType",2782,45,0,0},
{9035,2,"EnabledState",2830,47,8995,0},
{9036,2,"Id",9035,46,68,0},
{9055,2,"DialogState",2830,47,8995,0},
{9056,2,"Id",9055,46,68,0},
{9060,2,"TransitionTime",9055,46,68,0},
{9062,2,"TrueState",9055,46,68,0},
{9063,2,"FalseState",9055,46,68,0},
{2831,2,"Prompt",2830,46,68,0},
{9064,2,"ResponseOptionSet",2830,46,68,0},
{9065,2,"DefaultResponse",2830,46,68,0},
{9066,2,"OkResponse",2830,46,68,0},
{9067,2,"CancelResponse",2830,46,68,0},
{9068,2,"LastResponse",2830,46,68,0},
{9069,4,"Respond",2830,47,0,0},
{9070,2,"InputArguments",9069,46,68,0},
{2881,8,"AcknowledgeableConditionType",2782,45,0,0},
{9073,2,"EnabledState",2881,47,8995,0},
{9074,2,"Id",9073,46,68,0},
{9093,2,"AckedState",2881,47,8995,0},
{9094,2,"Id",9093,46,68,0},
{9098,2,"TransitionTime",9093,46,68,0},
{9100,2,"TrueState",9093,46,68,0},
{9101,2,"FalseState",9093,46,68,0},
{9102,2,"ConfirmedState",2881,47,8995,0},
{9103,2,"Id",9102,46,68,0},
{9107,2,"TransitionTime",9102,46,68,0},
{9109,2,"TrueState",9102,46,68,0},
{9110,2,"FalseState",9102,46,68,0},
{9111,4,"Acknowledge",2881,47,0,0},
{9112,2,"InputArguments",9111,46,68,0},
{9113,4,"Confirm",2881,47,0,0},
{9114,2,"InputArguments",9113,46,68,0},
{2915,8,"AlarmConditionType",2881,45,0,0},
{9118,2,"EnabledState",2915,47,8995,0},
{9119,2,"Id",9118,46,68,0},
{9160,2,"ActiveState",2915,47,8995,0},
{9161,2,"Id",9160,46,68,0},
{9164,2,"EffectiveDisplayName",9160,46,68,0},
{9165,2,"TransitionTime",9160,46,68,0},
{9166,2,"EffectiveTransitionTime",9160,46,68,0},
{9167,2,"TrueState",9160,46,68,0},
{9168,2,"FalseState",9160,46,68,0},
{11120,2,"InputNode",2915,46,68,0},
{9169,2,"SuppressedState",2915,47,8995,0},
{9170,2,"Id",9169,46,68,0},
{9174,2,"TransitionTime",9169,46,68,0},
{9176,2,"TrueState",9169,46,68,0},
{9177,2,"FalseState",9169,46,68,0},
{16371,2,"OutOfServiceState",2915,47,8995,0},
{16372,2,"Id",16371,46,68,0},
{16376,2,"TransitionTime",16371,46,68,0},
{16378,2,"TrueState",16371,46,68,0},
{16379,2,"FalseState",16371,46,68,0},
{9178,1,"ShelvingState",2915,47,2929,0},
{9179,2,"CurrentState",9178,47,2760,0},
{9180,2,"Id",9179,46,68,0},
{9184,2,"LastTransition",9178,47,2767,0},
{9185,2,"Id",9184,46,68,0},
{9188,2,"TransitionTime",9184,46,68,0},
{9189,2,"UnshelveTime",9178,46,68,0},
{9213,4,"TimedShelve",9178,47,0,0},
{9214,2,"InputArguments",9213,46,68,0},
{9211,4,"Unshelve",9178,47,0,0},
{9212,4,"OneShotShelve",9178,47,0,0},
{9215,2,"SuppressedOrShelved",2915,46,68,0},
{9216,2,"MaxTimeShelved",2915,46,68,0},
{16389,2,"AudibleEnabled",2915,46,68,0},
{16390,2,"AudibleSound",2915,46,17986,0},
{16380,2,"SilenceState",2915,47,8995,0},
{16381,2,"Id",16380,46,68,0},
{16385,2,"TransitionTime",16380,46,68,0},
{16387,2,"TrueState",16380,46,68,0},
{16388,2,"FalseState",16380,46,68,0},
{16395,2,"OnDelay",2915,46,68,0},
{16396,2,"OffDelay",2915,46,68,0},
{16397,2,"FirstInGroupFlag",2915,47,63,0},
{16398,1,"FirstInGroup",2915,47,16405,0},
{18190,2,"LatchedState",2915,47,8995,0},
{18191,2,"Id",18190,46,68,0},
{18195,2,"TransitionTime",18190,46,68,0},
{18197,2,"TrueState",18190,46,68,0},
{18198,2,"FalseState",18190,46,68,0},
{16399,1,"<AlarmGroup>",0,0,16405,0},
{16400,2,"ReAlarmTime",2915,46,68,0},
{16401,2,"ReAlarmRepeatCount",2915,47,63,0},
{16402,4,"Silence",2915,47,0,0},
{16403,4,"Suppress",2915,47,0,0},
{17868,4,"Unsuppress",2915,47,0,0},
{17869,4,"RemoveFromService",2915,47,0,0},
{17870,4,"PlaceInService",2915,47,0,0},
{18199,4,"Reset",2915,47,0,0},
{16405,8,"AlarmGroupType",61,45,0,0},
{16406,1,"<AlarmConditionInstance>",0,0,2915,0},
{16407,2,"EventId",16406,46,68,0},
{16408,2,"EventType",16406,46,68,0},
{16409,2,"SourceNode",16406,46,68,0},
{16410,2,"SourceName",16406,46,68,0},
{16411,2,"Time",16406,46,68,0},
{16412,2,"ReceiveTime",16406,46,68,0},
{16414,2,"Message",16406,46,68,0},
{16415,2,"Severity",16406,46,68,0},
{16416,2,"ConditionClassId",16406,46,68,0},
{16417,2,"ConditionClassName",16406,46,68,0},
{16420,2,"ConditionName",16406,46,68,0},
{16421,2,"BranchId",16406,46,68,0},
{16422,2,"Retain",16406,46,68,0},
{16423,2,"EnabledState",16406,47,8995,0},
{16424,2,"Id",16423,46,68,0},
{16432,2,"Quality",16406,47,9002,0},
{16433,2,"SourceTimestamp",16432,46,68,0},
{16434,2,"LastSeverity",16406,47,9002,0},
{16435,2,"SourceTimestamp",16434,46,68,0},
{16436,2,"Comment",16406,47,9002,0},
{16437,2,"SourceTimestamp",16436,46,68,0},
{16438,2,"ClientUserId",16406,46,68,0},
{16439,4,"Disable",16406,47,0,0},
{16440,4,"Enable",16406,47,0,0},
{16441,4,"AddComment",16406,47,0,0},
{16442,2,"InputArguments",16441,46,68,0},
{16443,2,"AckedState",16406,47,8995,0},
{16444,2,"Id",16443,46,68,0},
{16461,4,"Acknowledge",16406,47,0,0},
{16462,2,"InputArguments",16461,46,68,0},
{16465,2,"ActiveState",16406,47,8995,0},
{16466,2,"Id",16465,46,68,0},
{16474,2,"InputNode",16406,46,68,0},
{16519,2,"SuppressedOrShelved",16406,46,68,0},
{2929,8,"ShelvedStateMachineType",2771,45,0,0},
{9115,2,"UnshelveTime",2929,46,68,0},
{2930,1,"Unshelved",2929,47,2307,0},
{6098,2,"StateNumber",2930,46,68,0},
{2932,1,"TimedShelved",2929,47,2307,0},
{6100,2,"StateNumber",2932,46,68,0},
{2933,1,"OneShotShelved",2929,47,2307,0},
{6101,2,"StateNumber",2933,46,68,0},
{2935,1,"UnshelvedToTimedShelved",2929,47,2310,0},
{11322,2,"TransitionNumber",2935,46,68,0},
{2936,1,"UnshelvedToOneShotShelved",2929,47,2310,0},
{11323,2,"TransitionNumber",2936,46,68,0},
{2940,1,"TimedShelvedToUnshelved",2929,47,2310,0},
{11324,2,"TransitionNumber",2940,46,68,0},
{2942,1,"TimedShelvedToOneShotShelved",2929,47,2310,0},
{11325,2,"TransitionNumber",2942,46,68,0},
{2943,1,"OneShotShelvedToUnshelved",2929,47,2310,0},
{11326,2,"TransitionNumber",2943,46,68,0},
{2945,1,"OneShotShelvedToTimedShelved",2929,47,2310,0},
{11327,2,"TransitionNumber",2945,46,68,0},
{2949,4,"TimedShelve",2929,47,0,0},
{2991,2,"InputArguments",2949,46,68,0},
{2947,4,"Unshelve",2929,47,0,0},
{2948,4,"OneShotShelve",2929,47,0,0},
{2955,8,"LimitAlarmType",2915,45,0,0},
{11124,2,"HighHighLimit",2955,46,68,0},
{11125,2,"HighLimit",2955,46,68,0},
{11126,2,"LowLimit",2955,46,68,0},
{11127,2,"LowLowLimit",2955,46,68,0},
{16572,2,"BaseHighHighLimit",2955,46,68,0},
{16573,2,"BaseHighLimit",2955,46,68,0},
{16574,2,"BaseLowLimit",2955,46,68,0},
{16575,2,"BaseLowLowLimit",2955,46,68,0},
{9318,8,"ExclusiveLimitStateMachineType",2771,45,0,0},
{9329,1,"HighHigh",9318,47,2307,0},
{9330,2,"StateNumber",9329,46,68,0},
{9331,1,"High",9318,47,2307,0},
{9332,2,"StateNumber",9331,46,68,0},
{9333,1,"Low",9318,47,2307,0},
{9334,2,"StateNumber",9333,46,68,0},
{9335,1,"LowLow",9318,47,2307,0},
{9336,2,"StateNumber",9335,46,68,0},
{9337,1,"LowLowToLow",9318,47,2310,0},
{11340,2,"TransitionNumber",9337,46,68,0},
{9338,1,"LowToLowLow",9318,47,2310,0},
{11341,2,"TransitionNumber",9338,46,68,0},
{9339,1,"HighHighToHigh",9318,47,2310,0},
{11342,2,"TransitionNumber",9339,46,68,0},
{9340,1,"HighToHighHigh",9318,47,2310,0},
{11343,2,"TransitionNumber",9340,46,68,0},
{9341,8,"ExclusiveLimitAlarmType",2955,45,0,0},
{9398,2,"ActiveState",9341,47,8995,0},
{9399,2,"Id",9398,46,68,0},
{9455,1,"LimitState",9341,47,9318,0},
{9456,2,"CurrentState",9455,47,2760,0},
{9457,2,"Id",9456,46,68,0},
{9461,2,"LastTransition",9455,47,2767,0},
{9462,2,"Id",9461,46,68,0},
{9465,2,"TransitionTime",9461,46,68,0},
{9906,8,"NonExclusiveLimitAlarmType",2955,45,0,0},
{9963,2,"ActiveState",9906,47,8995,0},
{9964,2,"Id",9963,46,68,0},
{10020,2,"HighHighState",9906,47,8995,0},
{10021,2,"Id",10020,46,68,0},
{10025,2,"TransitionTime",10020,46,68,0},
{10027,2,"TrueState",10020,46,68,0},
{10028,2,"FalseState",10020,46,68,0},
{10029,2,"HighState",9906,47,8995,0},
{10030,2,"Id",10029,46,68,0},
{10034,2,"TransitionTime",10029,46,68,0},
{10036,2,"TrueState",10029,46,68,0},
{10037,2,"FalseState",10029,46,68,0},
{10038,2,"LowState",9906,47,8995,0},
{10039,2,"Id",10038,46,68,0},
{10043,2,"TransitionTime",10038,46,68,0},
{10045,2,"TrueState",10038,46,68,0},
{10046,2,"FalseState",10038,46,68,0},
{10047,2,"LowLowState",9906,47,8995,0},
{10048,2,"Id",10047,46,68,0},
{10052,2,"TransitionTime",10047,46,68,0},
{10054,2,"TrueState",10047,46,68,0},
{10055,2,"FalseState",10047,46,68,0},
{10060,8,"NonExclusiveLevelAlarmType",9906,45,0,0},
{9482,8,"ExclusiveLevelAlarmType",9341,45,0,0},
{10368,8,"NonExclusiveDeviationAlarmType",9906,45,0,0},
{10522,2,"SetpointNode",10368,46,68,0},
{16776,2,"BaseSetpointNode",10368,46,68,0},
{10214,8,"NonExclusiveRateOfChangeAlarmType",9906,45,0,0},
{16858,2,"EngineeringUnits",10214,46,68,0},
{9764,8,"ExclusiveDeviationAlarmType",9341,45,0,0},
{9905,2,"SetpointNode",9764,46,68,0},
{16817,2,"BaseSetpointNode",9764,46,68,0},
{9623,8,"ExclusiveRateOfChangeAlarmType",9341,45,0,0},
{16899,2,"EngineeringUnits",9623,46,68,0},
{10523,8,"DiscreteAlarmType",2915,45,0,0},
{10637,8,"OffNormalAlarmType",10523,45,0,0},
{11158,2,"NormalState",10637,46,68,0},
{11753,8,"SystemOffNormalAlarmType",10637,45,0,1},
{10751,8,"TripAlarmType",10637,45,0,0},
{18347,8,"InstrumentDiagnosticAlarmType",10637,45,0,0},
{18496,8,"SystemDiagnosticAlarmType",10637,45,0,0},
{13225,8,"CertificateExpirationAlarmType",11753,45,0,0},
{13325,2,"ExpirationDate",13225,46,68,0},
{14900,2,"ExpirationLimit",13225,46,68,0},
{13326,2,"CertificateType",13225,46,68,0},
{13327,2,"Certificate",13225,46,68,0},
{17080,8,"DiscrepancyAlarmType",2915,45,0,0},
{17215,2,"TargetValueNode",17080,46,68,0},
{17216,2,"ExpectedTime",17080,46,68,0},
{17217,2,"Tolerance",17080,46,68,0},
{11163,8,"BaseConditionClassType",58,45,0,1},
{11164,8,"ProcessConditionClassType",11163,45,0,1},
{11165,8,"MaintenanceConditionClassType",11163,45,0,1},
{11166,8,"SystemConditionClassType",11163,45,0,1},
{17218,8,"SafetyConditionClassType",11163,45,0,1},
{17219,8,"HighlyManagedAlarmConditionClassType",11163,45,0,1},
{17220,8,"TrainingConditionClassType",11163,45,0,1},
{18665,8,"StatisticalConditionClassType",11163,45,0,1},
{17221,8,"TestingConditionSubClassType",11163,45,0,1},
{2790,8,"AuditConditionEventType",2127,45,0,0},
{2803,8,"AuditConditionEnableEventType",2790,45,0,0},
{2829,8,"AuditConditionCommentEventType",2790,45,0,0},
{17222,2,"ConditionEventId",2829,46,68,0},
{11851,2,"Comment",2829,46,68,0},
{8927,8,"AuditConditionRespondEventType",2790,45,0,0},
{11852,2,"SelectedResponse",8927,46,68,0},
{8944,8,"AuditConditionAcknowledgeEventType",2790,45,0,0},
{17223,2,"ConditionEventId",8944,46,68,0},
{11853,2,"Comment",8944,46,68,0},
{8961,8,"AuditConditionConfirmEventType",2790,45,0,0},
{17224,2,"ConditionEventId",8961,46,68,0},
{11854,2,"Comment",8961,46,68,0},
{11093,8,"AuditConditionShelvingEventType",2790,45,0,0},
{11855,2,"ShelvingTime",11093,46,68,0},
{17225,8,"AuditConditionSuppressionEventType",2790,45,0,0},
{17242,8,"AuditConditionSilenceEventType",2790,45,0,0},
{15013,8,"AuditConditionResetEventType",2790,45,0,0},
{17259,8,"AuditConditionOutOfServiceEventType",2790,45,0,0},
{2787,8,"RefreshStartEventType",2130,45,0,1},
{2788,8,"RefreshEndEventType",2130,45,0,1},
{2789,8,"RefreshRequiredEventType",2130,45,0,1},
{9006,32,"HasCondition",32,45,0,0},
{17276,32,"HasEffectDisable",54,45,0,0},
{17983,32,"HasEffectEnable",54,45,0,0},
{17984,32,"HasEffectSuppressed",54,45,0,0},
{17985,32,"HasEffectUnsuppressed",54,45,0,0},
{17279,8,"AlarmMetricsType",58,45,0,0},
{17280,2,"AlarmCount",17279,47,63,0},
{17991,2,"StartTime",17279,47,63,0},
{17281,2,"MaximumActiveState",17279,47,63,0},
{17282,2,"MaximumUnAck",17279,47,63,0},
{17284,2,"CurrentAlarmRate",17279,47,17277,0},
{17285,2,"Rate",17284,46,68,0},
{17286,2,"MaximumAlarmRate",17279,47,17277,0},
{17287,2,"Rate",17286,46,68,0},
{17283,2,"MaximumReAlarmCount",17279,47,63,0},
{17288,2,"AverageAlarmRate",17279,47,17277,0},
{17289,2,"Rate",17288,46,68,0},
{18666,4,"Reset",17279,47,0,0},
{17277,16,"AlarmRateVariableType",63,45,0,0},
{17278,2,"Rate",17277,46,68,0},
{2391,8,"ProgramStateMachineType",2771,45,0,0},
{3830,2,"CurrentState",2391,47,2760,0},
{3831,2,"Id",3830,46,68,0},
{3833,2,"Number",3830,46,68,0},
{3835,2,"LastTransition",2391,47,2767,0},
{3836,2,"Id",3835,46,68,0},
{3838,2,"Number",3835,46,68,0},
{3839,2,"TransitionTime",3835,46,68,0},
{2392,2,"Creatable",2391,46,68,0},
{2393,2,"Deletable",2391,46,68,0},
{2394,2,"AutoDelete",2391,46,68,0},
{2395,2,"RecycleCount",2391,46,68,0},
{2396,2,"InstanceCount",2391,46,68,0},
{2397,2,"MaxInstanceCount",2391,46,68,0},
{2398,2,"MaxRecycleCount",2391,46,68,0},
{2399,2,"ProgramDiagnostic",2391,47,15383,0},
{3840,2,"CreateSessionId",2399,47,63,0},
{3841,2,"CreateClientName",2399,47,63,0},
{3842,2,"InvocationCreationTime",2399,47,63,0},
{3843,2,"LastTransitionTime",2399,46,68,0},
{3844,2,"LastMethodCall",2399,47,63,0},
{3845,2,"LastMethodSessionId",2399,47,63,0},
{3846,2,"LastMethodInputArguments",2399,47,63,0},
{3847,2,"LastMethodOutputArguments",2399,47,63,0},
{15038,2,"LastMethodInputValues",2399,47,63,0},
{15040,2,"LastMethodOutputValues",2399,47,63,0},
{3848,2,"LastMethodCallTime",2399,47,63,0},
{3849,2,"LastMethodReturnStatus",2399,47,63,0},
{3850,1,"FinalResultData",2391,47,58,0},
{2406,1,"Halted",2391,47,2307,0},
{2407,2,"StateNumber",2406,46,68,0},
{2400,1,"Ready",2391,47,2307,0},
{2401,2,"StateNumber",2400,46,68,0},
{2402,1,"Running",2391,47,2307,0},
{2403,2,"StateNumber",2402,46,68,0},
{2404,1,"Suspended",2391,47,2307,0},
{2405,2,"StateNumber",2404,46,68,0},
{2408,1,"HaltedToReady",2391,47,2310,0},
{2409,2,"TransitionNumber",2408,46,68,0},
{2410,1,"ReadyToRunning",2391,47,2310,0},
{2411,2,"TransitionNumber",2410,46,68,0},
{2412,1,"RunningToHalted",2391,47,2310,0},
{2413,2,"TransitionNumber",2412,46,68,0},
{2414,1,"RunningToReady",2391,47,2310,0},
{2415,2,"TransitionNumber",2414,46,68,0},
{2416,1,"RunningToSuspended",2391,47,2310,0},
{2417,2,"TransitionNumber",2416,46,68,0},
{2418,1,"SuspendedToRunning",2391,47,2310,0},
{2419,2,"TransitionNumber",2418,46,68,0},
{2420,1,"SuspendedToHalted",2391,47,2310,0},
{2421,2,"TransitionNumber",2420,46,68,0},
{2422,1,"SuspendedToReady",2391,47,2310,0},
{2423,2,"TransitionNumber",2422,46,68,0},
{2424,1,"ReadyToHalted",2391,47,2310,0},
{2425,2,"TransitionNumber",2424,46,68,0},
{2426,4,"Start",2391,47,0,0},
{2427,4,"Suspend",2391,47,0,0},
{2428,4,"Resume",2391,47,0,0},
{2429,4,"Halt",2391,47,0,0},
{2430,4,"Reset",2391,47,0,0},
{2378,8,"ProgramTransitionEventType",2311,45,0,1},
{2379,2,"IntermediateResult",2378,47,63,0},
{11856,8,"AuditProgramTransitionEventType",2315,45,0,1},
{11875,2,"TransitionNumber",11856,46,68,0},
{3806,8,"ProgramTransitionAuditEventType",2315,45,0,0},
{3825,2,"Transition",3806,47,2767,0},
{3826,2,"Id",3825,46,68,0},
{2380,16,"ProgramDiagnosticType",63,45,0,0},
{2381,2,"CreateSessionId",2380,46,68,0},
{2382,2,"CreateClientName",2380,46,68,0},
{2383,2,"InvocationCreationTime",2380,46,68,0},
{2384,2,"LastTransitionTime",2380,46,68,0},
{2385,2,"LastMethodCall",2380,46,68,0},
{2386,2,"LastMethodSessionId",2380,46,68,0},
{2387,2,"LastMethodInputArguments",2380,46,68,0},
{2388,2,"LastMethodOutputArguments",2380,46,68,0},
{2389,2,"LastMethodCallTime",2380,46,68,0},
{2390,2,"LastMethodReturnStatus",2380,46,68,0},
{15383,16,"ProgramDiagnostic2Type",63,45,0,0},
{15384,2,"CreateSessionId",15383,47,63,0},
{15385,2,"CreateClientName",15383,47,63,0},
{15386,2,"InvocationCreationTime",15383,47,63,0},
{15387,2,"LastTransitionTime",15383,46,68,0},
{15388,2,"LastMethodCall",15383,47,63,0},
{15389,2,"LastMethodSessionId",15383,47,63,0},
{15390,2,"LastMethodInputArguments",15383,47,63,0},
{15391,2,"LastMethodOutputArguments",15383,47,63,0},
{15392,2,"LastMethodInputValues",15383,47,63,0},
{15393,2,"LastMethodOutputValues",15383,47,63,0},
{15394,2,"LastMethodCallTime",15383,47,63,0},
{15395,2,"LastMethodReturnStatus",15383,47,63,0},
{11214,2,"Annotations",0,0,68,0},
{2318,8,"HistoricalDataConfigurationType",58,45,0,0},
{3059,1,"AggregateConfiguration",2318,47,11187,0},
{11168,2,"TreatUncertainAsBad",3059,46,68,0},
{11169,2,"PercentDataBad",3059,46,68,0},
{11170,2,"PercentDataGood",3059,46,68,0},
{11171,2,"UseSlopedExtrapolation",3059,46,68,0},
{11876,1,"AggregateFunctions",2318,47,61,0},
{2323,2,"Stepped",2318,46,68,0},
{2324,2,"Definition",2318,46,68,0},
{2325,2,"MaxTimeInterval",2318,46,68,0},
{2326,2,"MinTimeInterval",2318,46,68,0},
{2327,2,"ExceptionDeviation",2318,46,68,0},
{2328,2,"ExceptionDeviationFormat",2318,46,68,0},
{11499,2,"StartOfArchive",2318,46,68,0},
{11500,2,"StartOfOnlineArchive",2318,46,68,0},
{11202,1,"HA Configuration",0,0,2318,0},
{11203,1,"AggregateConfiguration",11202,47,11187,0},
{11204,2,"TreatUncertainAsBad",11203,46,68,0},
{11205,2,"PercentDataBad",11203,46,68,0},
{11206,2,"PercentDataGood",11203,46,68,0},
{11207,2,"UseSlopedExtrapolation",11203,46,68,0},
{11208,2,"Stepped",11202,46,68,0},
{11215,2,"HistoricalEventFilter",0,0,68,0},
{2330,8,"HistoryServerCapabilitiesType",58,45,0,0},
{2331,2,"AccessHistoryDataCapability",2330,46,68,0},
{2332,2,"AccessHistoryEventsCapability",2330,46,68,0},
{11268,2,"MaxReturnDataValues",2330,46,68,0},
{11269,2,"MaxReturnEventValues",2330,46,68,0},
{2334,2,"InsertDataCapability",2330,46,68,0},
{2335,2,"ReplaceDataCapability",2330,46,68,0},
{2336,2,"UpdateDataCapability",2330,46,68,0},
{2337,2,"DeleteRawCapability",2330,46,68,0},
{2338,2,"DeleteAtTimeCapability",2330,46,68,0},
{11278,2,"InsertEventCapability",2330,46,68,0},
{11279,2,"ReplaceEventCapability",2330,46,68,0},
{11280,2,"UpdateEventCapability",2330,46,68,0},
{11501,2,"DeleteEventCapability",2330,46,68,0},
{11270,2,"InsertAnnotationCapability",2330,46,68,0},
{11172,1,"AggregateFunctions",2330,47,61,0},
{2999,8,"AuditHistoryEventUpdateEventType",2104,45,0,1},
{3025,2,"UpdatedNode",2999,46,68,0},
{3028,2,"PerformInsertReplace",2999,46,68,0},
{3003,2,"Filter",2999,46,68,0},
{3029,2,"NewValues",2999,46,68,0},
{3030,2,"OldValues",2999,46,68,0},
{3006,8,"AuditHistoryValueUpdateEventType",2104,45,0,1},
{3026,2,"UpdatedNode",3006,46,68,0},
{3031,2,"PerformInsertReplace",3006,46,68,0},
{3032,2,"NewValues",3006,46,68,0},
{3033,2,"OldValues",3006,46,68,0},
{3012,8,"AuditHistoryDeleteEventType",2104,45,0,1},
{3027,2,"UpdatedNode",3012,46,68,0},
{3014,8,"AuditHistoryRawModifyDeleteEventType",3012,45,0,1},
{3015,2,"IsDeleteModified",3014,46,68,0},
{3016,2,"StartTime",3014,46,68,0},
{3017,2,"EndTime",3014,46,68,0},
{3034,2,"OldValues",3014,46,68,0},
{3019,8,"AuditHistoryAtTimeDeleteEventType",3012,45,0,1},
{3020,2,"ReqTimes",3019,46,68,0},
{3021,2,"OldValues",3019,46,68,0},
{3022,8,"AuditHistoryEventDeleteEventType",3012,45,0,1},
{3023,2,"EventIds",3022,46,68,0},
{3024,2,"OldValues",3022,46,68,0},
{12522,8,"TrustListType",11575,45,0,0},
{12542,2,"LastUpdateTime",12522,46,68,0},
{12543,4,"OpenWithMasks",12522,47,0,0},
{12544,2,"InputArguments",12543,46,68,0},
{12545,2,"OutputArguments",12543,46,68,0},
{12546,4,"CloseAndUpdate",12522,47,0,0},
{12705,2,"InputArguments",12546,46,68,0},
{12547,2,"OutputArguments",12546,46,68,0},
{12548,4,"AddCertificate",12522,47,0,0},
{12549,2,"InputArguments",12548,46,68,0},
{12550,4,"RemoveCertificate",12522,47,0,0},
{12551,2,"InputArguments",12550,46,68,0},
{12552,64,"TrustListMasks",29,45,0,0},
{12553,2,"EnumValues",12552,46,68,0},
{12554,64,"TrustListDataType",22,45,0,0},
{12555,8,"CertificateGroupType",58,45,0,0},
{13599,1,"TrustList",12555,47,12522,0},
{13600,2,"Size",13599,46,68,0},
{13601,2,"Writable",13599,46,68,0},
{13602,2,"UserWritable",13599,46,68,0},
{13603,2,"OpenCount",13599,46,68,0},
{13605,4,"Open",13599,47,0,0},
{13606,2,"InputArguments",13605,46,68,0},
{13607,2,"OutputArguments",13605,46,68,0},
{13608,4,"Close",13599,47,0,0},
{13609,2,"InputArguments",13608,46,68,0},
{13610,4,"Read",13599,47,0,0},
{13611,2,"InputArguments",13610,46,68,0},
{13612,2,"OutputArguments",13610,46,68,0},
{13613,4,"Write",13599,47,0,0},
{13614,2,"InputArguments",13613,46,68,0},
{13615,4,"GetPosition",13599,47,0,0},
{13616,2,"InputArguments",13615,46,68,0},
{13617,2,"OutputArguments",13615,46,68,0},
{13618,4,"SetPosition",13599,47,0,0},
{13619,2,"InputArguments",13618,46,68,0},
{13620,2,"LastUpdateTime",13599,46,68,0},
{13621,4,"OpenWithMasks",13599,47,0,0},
{13622,2,"InputArguments",13621,46,68,0},
{13623,2,"OutputArguments",13621,46,68,0},
{13631,2,"CertificateTypes",12555,46,68,0},
{13813,8,"CertificateGroupFolderType",61,45,0,0},
{13814,1,"DefaultApplicationGroup",13813,47,12555,0},
{13815,1,"TrustList",13814,47,12522,0},
{13816,2,"Size",13815,46,68,0},
{13817,2,"Writable",13815,46,68,0},
{13818,2,"UserWritable",13815,46,68,0},
{13819,2,"OpenCount",13815,46,68,0},
{13821,4,"Open",13815,47,0,0},
{13822,2,"InputArguments",13821,46,68,0},
{13823,2,"OutputArguments",13821,46,68,0},
{13824,4,"Close",13815,47,0,0},
{13825,2,"InputArguments",13824,46,68,0},
{13826,4,"Read",13815,47,0,0},
{13827,2,"InputArguments",13826,46,68,0},
{13828,2,"OutputArguments",13826,46,68,0},
{13829,4,"Write",13815,47,0,0},
{13830,2,"InputArguments",13829,46,68,0},
{13831,4,"GetPosition",13815,47,0,0},
{13832,2,"InputArguments",13831,46,68,0},
{13833,2,"OutputArguments",13831,46,68,0},
{13834,4,"SetPosition",13815,47,0,0},
{13835,2,"InputArguments",13834,46,68,0},
{13836,2,"LastUpdateTime",13815,46,68,0},
{13837,4,"OpenWithMasks",13815,47,0,0},
{13838,2,"InputArguments",13837,46,68,0},
{13839,2,"OutputArguments",13837,46,68,0},
{13847,2,"CertificateTypes",13814,46,68,0},
{13848,1,"DefaultHttpsGroup",13813,47,12555,0},
{13849,1,"TrustList",13848,47,12522,0},
{13850,2,"Size",13849,46,68,0},
{13851,2,"Writable",13849,46,68,0},
{13852,2,"UserWritable",13849,46,68,0},
{13853,2,"OpenCount",13849,46,68,0},
{13855,4,"Open",13849,47,0,0},
{13856,2,"InputArguments",13855,46,68,0},
{13857,2,"OutputArguments",13855,46,68,0},
{13858,4,"Close",13849,47,0,0},
{13859,2,"InputArguments",13858,46,68,0},
{13860,4,"Read",13849,47,0,0},
{13861,2,"InputArguments",13860,46,68,0},
{13862,2,"OutputArguments",13860,46,68,0},
{13863,4,"Write",13849,47,0,0},
{13864,2,"InputArguments",13863,46,68,0},
{13865,4,"GetPosition",13849,47,0,0},
{13866,2,"InputArguments",13865,46,68,0},
{13867,2,"OutputArguments",13865,46,68,0},
{13868,4,"SetPosition",13849,47,0,0},
{13869,2,"InputArguments",13868,46,68,0},
{13870,2,"LastUpdateTime",13849,46,68,0},
{13871,4,"OpenWithMasks",13849,47,0,0},
{13872,2,"InputArguments",13871,46,68,0},
{13873,2,"OutputArguments",13871,46,68,0},
{13881,2,"CertificateTypes",13848,46,68,0},
{13882,1,"DefaultUserTokenGroup",13813,47,12555,0},
{13883,1,"TrustList",13882,47,12522,0},
{13884,2,"Size",13883,46,68,0},
{13885,2,"Writable",13883,46,68,0},
{13886,2,"UserWritable",13883,46,68,0},
{13887,2,"OpenCount",13883,46,68,0},
{13889,4,"Open",13883,47,0,0},
{13890,2,"InputArguments",13889,46,68,0},
{13891,2,"OutputArguments",13889,46,68,0},
{13892,4,"Close",13883,47,0,0},
{13893,2,"InputArguments",13892,46,68,0},
{13894,4,"Read",13883,47,0,0},
{13895,2,"InputArguments",13894,46,68,0},
{13896,2,"OutputArguments",13894,46,68,0},
{13897,4,"Write",13883,47,0,0},
{13898,2,"InputArguments",13897,46,68,0},
{13899,4,"GetPosition",13883,47,0,0},
{13900,2,"InputArguments",13899,46,68,0},
{13901,2,"OutputArguments",13899,46,68,0},
{13902,4,"SetPosition",13883,47,0,0},
{13903,2,"InputArguments",13902,46,68,0},
{13904,2,"LastUpdateTime",13883,46,68,0},
{13905,4,"OpenWithMasks",13883,47,0,0},
{13906,2,"InputArguments",13905,46,68,0},
{13907,2,"OutputArguments",13905,46,68,0},
{13915,2,"CertificateTypes",13882,46,68,0},
{13916,1,"<AdditionalGroup>",13813,35,12555,0},
{13917,1,"TrustList",13916,47,12522,0},
{13918,2,"Size",13917,46,68,0},
{13919,2,"Writable",13917,46,68,0},
{13920,2,"UserWritable",13917,46,68,0},
{13921,2,"OpenCount",13917,46,68,0},
{13923,4,"Open",13917,47,0,0},
{13924,2,"InputArguments",13923,46,68,0},
{13925,2,"OutputArguments",13923,46,68,0},
{13926,4,"Close",13917,47,0,0},
{13927,2,"InputArguments",13926,46,68,0},
{13928,4,"Read",13917,47,0,0},
{13929,2,"InputArguments",13928,46,68,0},
{13930,2,"OutputArguments",13928,46,68,0},
{13931,4,"Write",13917,47,0,0},
{13932,2,"InputArguments",13931,46,68,0},
{13933,4,"GetPosition",13917,47,0,0},
{13934,2,"InputArguments",13933,46,68,0},
{13935,2,"OutputArguments",13933,46,68,0},
{13936,4,"SetPosition",13917,47,0,0},
{13937,2,"InputArguments",13936,46,68,0},
{13938,2,"LastUpdateTime",13917,46,68,0},
{13939,4,"OpenWithMasks",13917,47,0,0},
{13940,2,"InputArguments",13939,46,68,0},
{13941,2,"OutputArguments",13939,46,68,0},
{13949,2,"CertificateTypes",13916,46,68,0},
{12556,8,"CertificateType",58,45,0,1},
{12557,8,"ApplicationCertificateType",12556,45,0,1},
{12558,8,"HttpsCertificateType",12556,45,0,0},
{15181,8,"UserCredentialCertificateType",12556,45,0,0},
{12559,8,"RsaMinApplicationCertificateType",12557,45,0,0},
{12560,8,"RsaSha256ApplicationCertificateType",12557,45,0,0},
{12561,8,"TrustListUpdatedAuditEventType",2127,45,0,1},
{12581,8,"ServerConfigurationType",58,45,0,0},
{13950,1,"CertificateGroups",12581,47,13813,0},
{13951,1,"DefaultApplicationGroup",13950,47,12555,0},
{13952,1,"TrustList",13951,47,12522,0},
{13953,2,"Size",13952,46,68,0},
{13954,2,"Writable",13952,46,68,0},
{13955,2,"UserWritable",13952,46,68,0},
{13956,2,"OpenCount",13952,46,68,0},
{13958,4,"Open",13952,47,0,0},
{13959,2,"InputArguments",13958,46,68,0},
{13960,2,"OutputArguments",13958,46,68,0},
{13961,4,"Close",13952,47,0,0},
{13962,2,"InputArguments",13961,46,68,0},
{13963,4,"Read",13952,47,0,0},
{13964,2,"InputArguments",13963,46,68,0},
{13965,2,"OutputArguments",13963,46,68,0},
{13966,4,"Write",13952,47,0,0},
{13967,2,"InputArguments",13966,46,68,0},
{13968,4,"GetPosition",13952,47,0,0},
{13969,2,"InputArguments",13968,46,68,0},
{13970,2,"OutputArguments",13968,46,68,0},
{13971,4,"SetPosition",13952,47,0,0},
{13972,2,"InputArguments",13971,46,68,0},
{13973,2,"LastUpdateTime",13952,46,68,0},
{13974,4,"OpenWithMasks",13952,47,0,0},
{13975,2,"InputArguments",13974,46,68,0},
{13976,2,"OutputArguments",13974,46,68,0},
{13984,2,"CertificateTypes",13951,46,68,0},
{12708,2,"ServerCapabilities",12581,46,68,0},
{12583,2,"SupportedPrivateKeyFormats",12581,46,68,0},
{12584,2,"MaxTrustListSize",12581,46,68,0},
{12585,2,"MulticastDnsEnabled",12581,46,68,0},
{12616,4,"UpdateCertificate",12581,47,0,0},
{12617,2,"InputArguments",12616,46,68,0},
{12618,2,"OutputArguments",12616,46,68,0},
{12734,4,"ApplyChanges",12581,47,0,0},
{12731,4,"CreateSigningRequest",12581,47,0,0},
{12732,2,"InputArguments",12731,46,68,0},
{12733,2,"OutputArguments",12731,46,68,0},
{12775,4,"GetRejectedList",12581,47,0,0},
{12776,2,"OutputArguments",12775,46,68,0},
{12620,8,"CertificateUpdatedAuditEventType",2127,45,0,1},
{13735,2,"CertificateGroup",12620,46,68,0},
{13736,2,"CertificateType",12620,46,68,0},
{12637,1,"ServerConfiguration",2253,47,12581,0},
{14053,1,"CertificateGroups",12637,47,13813,0},
{14156,1,"DefaultApplicationGroup",14053,47,12555,0},
{12642,1,"TrustList",14156,47,12522,0},
{12643,2,"Size",12642,46,68,0},
{14157,2,"Writable",12642,46,68,0},
{14158,2,"UserWritable",12642,46,68,0},
{12646,2,"OpenCount",12642,46,68,0},
{12647,4,"Open",12642,47,0,0},
{12648,2,"InputArguments",12647,46,68,0},
{12649,2,"OutputArguments",12647,46,68,0},
{12650,4,"Close",12642,47,0,0},
{12651,2,"InputArguments",12650,46,68,0},
{12652,4,"Read",12642,47,0,0},
{12653,2,"InputArguments",12652,46,68,0},
{12654,2,"OutputArguments",12652,46,68,0},
{12655,4,"Write",12642,47,0,0},
{12656,2,"InputArguments",12655,46,68,0},
{12657,4,"GetPosition",12642,47,0,0},
{12658,2,"InputArguments",12657,46,68,0},
{12659,2,"OutputArguments",12657,46,68,0},
{12660,4,"SetPosition",12642,47,0,0},
{12661,2,"InputArguments",12660,46,68,0},
{12662,2,"LastUpdateTime",12642,46,68,0},
{12663,4,"OpenWithMasks",12642,47,0,0},
{12664,2,"InputArguments",12663,46,68,0},
{12665,2,"OutputArguments",12663,46,68,0},
{12666,4,"CloseAndUpdate",12642,47,0,0},
{14160,2,"InputArguments",12666,46,68,0},
{12667,2,"OutputArguments",12666,46,68,0},
{12668,4,"AddCertificate",12642,47,0,0},
{12669,2,"InputArguments",12668,46,68,0},
{12670,4,"RemoveCertificate",12642,47,0,0},
{12671,2,"InputArguments",12670,46,68,0},
{14161,2,"CertificateTypes",14156,46,68,0},
{14088,1,"DefaultHttpsGroup",14053,47,12555,0},
{14089,1,"TrustList",14088,47,12522,0},
{14090,2,"Size",14089,46,68,0},
{14091,2,"Writable",14089,46,68,0},
{14092,2,"UserWritable",14089,46,68,0},
{14093,2,"OpenCount",14089,46,68,0},
{14095,4,"Open",14089,47,0,0},
{14096,2,"InputArguments",14095,46,68,0},
{14097,2,"OutputArguments",14095,46,68,0},
{14098,4,"Close",14089,47,0,0},
{14099,2,"InputArguments",14098,46,68,0},
{14100,4,"Read",14089,47,0,0},
{14101,2,"InputArguments",14100,46,68,0},
{14102,2,"OutputArguments",14100,46,68,0},
{14103,4,"Write",14089,47,0,0},
{14104,2,"InputArguments",14103,46,68,0},
{14105,4,"GetPosition",14089,47,0,0},
{14106,2,"InputArguments",14105,46,68,0},
{14107,2,"OutputArguments",14105,46,68,0},
{14108,4,"SetPosition",14089,47,0,0},
{14109,2,"InputArguments",14108,46,68,0},
{14110,2,"LastUpdateTime",14089,46,68,0},
{14111,4,"OpenWithMasks",14089,47,0,0},
{14112,2,"InputArguments",14111,46,68,0},
{14113,2,"OutputArguments",14111,46,68,0},
{14114,4,"CloseAndUpdate",14089,47,0,0},
{14115,2,"InputArguments",14114,46,68,0},
{14116,2,"OutputArguments",14114,46,68,0},
{14117,4,"AddCertificate",14089,47,0,0},
{14118,2,"InputArguments",14117,46,68,0},
{14119,4,"RemoveCertificate",14089,47,0,0},
{14120,2,"InputArguments",14119,46,68,0},
{14121,2,"CertificateTypes",14088,46,68,0},
{14122,1,"DefaultUserTokenGroup",14053,47,12555,0},
{14123,1,"TrustList",14122,47,12522,0},
{14124,2,"Size",14123,46,68,0},
{14125,2,"Writable",14123,46,68,0},
{14126,2,"UserWritable",14123,46,68,0},
{14127,2,"OpenCount",14123,46,68,0},
{14129,4,"Open",14123,47,0,0},
{14130,2,"InputArguments",14129,46,68,0},
{14131,2,"OutputArguments",14129,46,68,0},
{14132,4,"Close",14123,47,0,0},
{14133,2,"InputArguments",14132,46,68,0},
{14134,4,"Read",14123,47,0,0},
{14135,2,"InputArguments",14134,46,68,0},
{14136,2,"OutputArguments",14134,46,68,0},
{14137,4,"Write",14123,47,0,0},
{14138,2,"InputArguments",14137,46,68,0},
{14139,4,"GetPosition",14123,47,0,0},
{14140,2,"InputArguments",14139,46,68,0},
{14141,2,"OutputArguments",14139,46,68,0},
{14142,4,"SetPosition",14123,47,0,0},
{14143,2,"InputArguments",14142,46,68,0},
{14144,2,"LastUpdateTime",14123,46,68,0},
{14145,4,"OpenWithMasks",14123,47,0,0},
{14146,2,"InputArguments",14145,46,68,0},
{14147,2,"OutputArguments",14145,46,68,0},
{14148,4,"CloseAndUpdate",14123,47,0,0},
{14149,2,"InputArguments",14148,46,68,0},
{14150,2,"OutputArguments",14148,46,68,0},
{14151,4,"AddCertificate",14123,47,0,0},
{14152,2,"InputArguments",14151,46,68,0},
{14153,4,"RemoveCertificate",14123,47,0,0},
{14154,2,"InputArguments",14153,46,68,0},
{14155,2,"CertificateTypes",14122,46,68,0},
{12710,2,"ServerCapabilities",12637,46,68,0},
{12639,2,"SupportedPrivateKeyFormats",12637,46,68,0},
{12640,2,"MaxTrustListSize",12637,46,68,0},
{12641,2,"MulticastDnsEnabled",12637,46,68,0},
{13737,4,"UpdateCertificate",12637,47,0,0},
{13738,2,"InputArguments",13737,46,68,0},
{13739,2,"OutputArguments",13737,46,68,0},
{12740,4,"ApplyChanges",12637,47,0,0},
{12737,4,"CreateSigningRequest",12637,47,0,0},
{12738,2,"InputArguments",12737,46,68,0},
{12739,2,"OutputArguments",12737,46,68,0},
{12777,4,"GetRejectedList",12637,47,0,0},
{12778,2,"OutputArguments",12777,46,68,0},
{17496,8,"KeyCredentialConfigurationFolderType",61,45,0,0},
{17511,1,"<ServiceName>",17496,47,18001,0},
{17512,2,"ResourceUri",17511,46,68,0},
{17513,2,"ProfileUri",17511,46,68,0},
{17522,4,"CreateCredential",17496,47,0,0},
{17523,2,"InputArguments",17522,46,68,0},
{17524,2,"OutputArguments",17522,46,68,0},
{18155,1,"KeyCredentialConfiguration",12637,47,17496,0},
{18001,8,"KeyCredentialConfigurationType",58,45,0,0},
{18069,2,"ResourceUri",18001,46,68,0},
{18165,2,"ProfileUri",18001,46,68,0},
{18004,2,"EndpointUrls",18001,46,68,0},
{18005,2,"ServiceStatus",18001,46,68,0},
{17534,4,"GetEncryptingKey",18001,47,0,0},
{17535,2,"InputArguments",17534,46,68,0},
{17536,2,"OutputArguments",17534,46,68,0},
{18006,4,"UpdateCredential",18001,47,0,0},
{18007,2,"InputArguments",18006,46,68,0},
{18008,4,"DeleteCredential",18001,47,0,0},
{18011,8,"KeyCredentialAuditEventType",2127,45,0,1},
{18028,2,"ResourceUri",18011,46,68,0},
{18029,8,"KeyCredentialUpdatedAuditEventType",18011,45,0,0},
{18047,8,"KeyCredentialDeletedAuditEventType",18011,45,0,0},
{17732,1,"AuthorizationServices",12637,47,61,0},
{17852,8,"AuthorizationServiceConfigurationType",58,45,0,0},
{18072,2,"ServiceUri",17852,46,68,0},
{17860,2,"ServiceCertificate",17852,46,68,0},
{18073,2,"IssuerEndpointUrl",17852,46,68,0},
{11187,8,"AggregateConfigurationType",58,45,0,0},
{11188,2,"TreatUncertainAsBad",11187,46,68,0},
{11189,2,"PercentDataBad",11187,46,68,0},
{11190,2,"PercentDataGood",11187,46,68,0},
{11191,2,"UseSlopedExtrapolation",11187,46,68,0},
{2341,1,"Interpolative",0,0,2340,0},
{2342,1,"Average",0,0,2340,0},
{2343,1,"TimeAverage",0,0,2340,0},
{11285,1,"TimeAverage2",0,0,2340,0},
{2344,1,"Total",0,0,2340,0},
{11304,1,"Total2",0,0,2340,0},
{2346,1,"Minimum",0,0,2340,0},
{2347,1,"Maximum",0,0,2340,0},
{2348,1,"MinimumActualTime",0,0,2340,0},
{2349,1,"MaximumActualTime",0,0,2340,0},
{2350,1,"Range",0,0,2340,0},
{11286,1,"Minimum2",0,0,2340,0},
{11287,1,"Maximum2",0,0,2340,0},
{11305,1,"MinimumActualTime2",0,0,2340,0},
{11306,1,"MaximumActualTime2",0,0,2340,0},
{11288,1,"Range2",0,0,2340,0},
{2351,1,"AnnotationCount",0,0,2340,0},
{2352,1,"Count",0,0,2340,0},
{11307,1,"DurationInStateZero",0,0,2340,0},
{11308,1,"DurationInStateNonZero",0,0,2340,0},
{2355,1,"NumberOfTransitions",0,0,2340,0},
{2357,1,"Start",0,0,2340,0},
{2358,1,"End",0,0,2340,0},
{2359,1,"Delta",0,0,2340,0},
{11505,1,"StartBound",0,0,2340,0},
{11506,1,"EndBound",0,0,2340,0},
{11507,1,"DeltaBounds",0,0,2340,0},
{2360,1,"DurationGood",0,0,2340,0},
{2361,1,"DurationBad",0,0,2340,0},
{2362,1,"PercentGood",0,0,2340,0},
{2363,1,"PercentBad",0,0,2340,0},
{2364,1,"WorstQuality",0,0,2340,0},
{11292,1,"WorstQuality2",0,0,2340,0},
{11426,1,"StandardDeviationSample",0,0,2340,0},
{11427,1,"StandardDeviationPopulation",0,0,2340,0},
{11428,1,"VarianceSample",0,0,2340,0},
{11429,1,"VariancePopulation",0,0,2340,0},
{15534,64,"DataTypeSchemaHeader",22,45,0,1},
{14525,64,"DataTypeDescription",22,45,0,1},
{15487,64,"StructureDescription",14525,45,0,0},
{15488,64,"EnumDescription",14525,45,0,0},
{15005,64,"SimpleTypeDescription",14525,45,0,0},
{15006,64,"UABinaryFileDataType",15534,45,0,0},
{14647,64,"PubSubState",29,45,0,0},
{14648,2,"EnumStrings",14647,46,68,0},
{14523,64,"DataSetMetaDataType",15534,45,0,0},
{14524,64,"FieldMetaData",22,45,0,0},
{15904,64,"DataSetFieldFlags",5,45,0,0},
{15577,2,"OptionSetValues",15904,46,68,0},
{14593,64,"ConfigurationVersionDataType",22,45,0,0},
{15578,64,"PublishedDataSetDataType",22,45,0,0},
{15580,64,"PublishedDataSetSourceDataType",22,45,0,1},
{14273,64,"PublishedVariableDataType",22,45,0,0},
{15581,64,"PublishedDataItemsDataType",15580,45,0,0},
{15582,64,"PublishedEventsDataType",15580,45,0,0},
{15583,64,"DataSetFieldContentMask",7,45,0,0},
{15584,2,"OptionSetValues",15583,46,68,0},
{15597,64,"DataSetWriterDataType",22,45,0,0},
{15598,64,"DataSetWriterTransportDataType",22,45,0,1},
{15605,64,"DataSetWriterMessageDataType",22,45,0,1},
{15609,64,"PubSubGroupDataType",22,45,0,1},
{15480,64,"WriterGroupDataType",15609,45,0,0},
{15611,64,"WriterGroupTransportDataType",22,45,0,1},
{15616,64,"WriterGroupMessageDataType",22,45,0,1},
{15617,64,"PubSubConnectionDataType",22,45,0,0},
{15618,64,"ConnectionTransportDataType",22,45,0,1},
{15502,64,"NetworkAddressDataType",22,45,0,1},
{15510,64,"NetworkAddressUrlDataType",15502,45,0,0},
{15520,64,"ReaderGroupDataType",15609,45,0,0},
{15621,64,"ReaderGroupTransportDataType",22,45,0,1},
{15622,64,"ReaderGroupMessageDataType",22,45,0,1},
{15623,64,"DataSetReaderDataType",22,45,0,0},
{15628,64,"DataSetReaderTransportDataType",22,45,0,1},
{15629,64,"DataSetReaderMessageDataType",22,45,0,1},
{15630,64,"SubscribedDataSetDataType",22,45,0,1},
{15631,64,"TargetVariablesDataType",15630,45,0,0},
{14744,64,"FieldTargetDataType",22,45,0,0},
{15874,64,"OverrideValueHandling",29,45,0,0},
{15875,2,"EnumStrings",15874,46,68,0},
{15635,64,"SubscribedDataSetMirrorDataType",15630,45,0,0},
{15530,64,"PubSubConfigurationDataType",22,45,0,0},
{20408,64,"DataSetOrderingType",29,45,0,0},
{15641,2,"EnumStrings",20408,46,68,0},
{15642,64,"UadpNetworkMessageContentMask",7,45,0,0},
{15643,2,"OptionSetValues",15642,46,68,0},
{15645,64,"UadpWriterGroupMessageDataType",15616,45,0,0},
{15646,64,"UadpDataSetMessageContentMask",7,45,0,0},
{15647,2,"OptionSetValues",15646,46,68,0},
{15652,64,"UadpDataSetWriterMessageDataType",15605,45,0,0},
{15653,64,"UadpDataSetReaderMessageDataType",15629,45,0,0},
{15654,64,"JsonNetworkMessageContentMask",7,45,0,0},
{15655,2,"OptionSetValues",15654,46,68,0},
{15657,64,"JsonWriterGroupMessageDataType",15616,45,0,0},
{15658,64,"JsonDataSetMessageContentMask",7,45,0,0},
{15659,2,"OptionSetValues",15658,46,68,0},
{15664,64,"JsonDataSetWriterMessageDataType",15605,45,0,0},
{15665,64,"JsonDataSetReaderMessageDataType",15629,45,0,0},
{17467,64,"DatagramConnectionTransportDataType",15618,45,0,0},
{15532,64,"DatagramWriterGroupTransportDataType",15611,45,0,0},
{15007,64,"BrokerConnectionTransportDataType",15618,45,0,0},
{15008,64,"BrokerTransportQualityOfService",29,45,0,0},
{15009,2,"EnumStrings",15008,46,68,0},
{15667,64,"BrokerWriterGroupTransportDataType",15611,45,0,0},
{15669,64,"BrokerDataSetWriterTransportDataType",15598,45,0,0},
{15670,64,"BrokerDataSetReaderTransportDataType",15628,45,0,0},
{15906,8,"PubSubKeyServiceType",58,45,0,0},
{15907,4,"GetSecurityKeys",15906,47,0,0},
{15908,2,"InputArguments",15907,46,68,0},
{15909,2,"OutputArguments",15907,46,68,0},
{15910,4,"GetSecurityGroup",15906,47,0,0},
{15911,2,"InputArguments",15910,46,68,0},
{15912,2,"OutputArguments",15910,46,68,0},
{15913,1,"SecurityGroups",15906,47,15452,0},
{15914,4,"AddSecurityGroup",15913,47,0,0},
{15915,2,"InputArguments",15914,46,68,0},
{15916,2,"OutputArguments",15914,46,68,0},
{15917,4,"RemoveSecurityGroup",15913,47,0,0},
{15918,2,"InputArguments",15917,46,68,0},
{15452,8,"SecurityGroupFolderType",61,45,0,0},
{15453,1,"<SecurityGroupFolderName>",15452,35,15452,0},
{15454,4,"AddSecurityGroup",15453,47,0,0},
{15455,2,"InputArguments",15454,46,68,0},
{15456,2,"OutputArguments",15454,46,68,0},
{15457,4,"RemoveSecurityGroup",15453,47,0,0},
{15458,2,"InputArguments",15457,46,68,0},
{15459,1,"<SecurityGroupName>",15452,47,15471,0},
{15460,2,"SecurityGroupId",15459,46,68,0},
{15010,2,"KeyLifetime",15459,46,68,0},
{15011,2,"SecurityPolicyUri",15459,46,68,0},
{15012,2,"MaxFutureKeyCount",15459,46,68,0},
{15043,2,"MaxPastKeyCount",15459,46,68,0},
{15461,4,"AddSecurityGroup",15452,47,0,0},
{15462,2,"InputArguments",15461,46,68,0},
{15463,2,"OutputArguments",15461,46,68,0},
{15464,4,"RemoveSecurityGroup",15452,47,0,0},
{15465,2,"InputArguments",15464,46,68,0},
{15471,8,"SecurityGroupType",58,45,0,0},
{15472,2,"SecurityGroupId",15471,46,68,0},
{15046,2,"KeyLifetime",15471,46,68,0},
{15047,2,"SecurityPolicyUri",15471,46,68,0},
{15048,2,"MaxFutureKeyCount",15471,46,68,0},
{15056,2,"MaxPastKeyCount",15471,46,68,0},
{14416,8,"PublishSubscribeType",15906,45,0,0},
{14417,1,"<ConnectionName>",0,0,14209,0},
{14418,2,"PublisherId",14417,46,68,0},
{17292,2,"TransportProfileUri",14417,47,16309,0},
{17706,2,"Selections",17292,46,68,0},
{17478,2,"ConnectionProperties",14417,46,68,0},
{14423,1,"Address",14417,47,21145,0},
{15533,2,"NetworkInterface",14423,47,16309,0},
{17503,2,"Selections",15533,46,68,0},
{14419,1,"Status",14417,47,14643,0},
{14420,2,"State",14419,47,63,0},
{17296,4,"SetSecurityKeys",14416,47,0,0},
{17297,2,"InputArguments",17296,46,68,0},
{16598,4,"AddConnection",14416,47,0,0},
{16599,2,"InputArguments",16598,46,68,0},
{16600,2,"OutputArguments",16598,46,68,0},
{14432,4,"RemoveConnection",14416,47,0,0},
{14433,2,"InputArguments",14432,46,68,0},
{14434,1,"PublishedDataSets",14416,47,14477,0},
{15844,1,"Status",14416,47,14643,0},
{15845,2,"State",15844,47,63,0},
{18715,1,"Diagnostics",14416,47,19732,0},
{18716,2,"DiagnosticsLevel",18715,47,63,0},
{18717,2,"TotalInformation",18715,47,19725,0},
{18718,2,"Active",18717,46,68,0},
{18719,2,"Classification",18717,46,68,0},
{18720,2,"DiagnosticsLevel",18717,46,68,0},
{18722,2,"TotalError",18715,47,19725,0},
{18723,2,"Active",18722,46,68,0},
{18724,2,"Classification",18722,46,68,0},
{18725,2,"DiagnosticsLevel",18722,46,68,0},
{18727,4,"Reset",18715,47,0,0},
{18728,2,"SubError",18715,47,63,0},
{18729,1,"Counters",18715,47,58,0},
{18730,2,"StateError",18729,47,19725,0},
{18731,2,"Active",18730,46,68,0},
{18732,2,"Classification",18730,46,68,0},
{18733,2,"DiagnosticsLevel",18730,46,68,0},
{18735,2,"StateOperationalByMethod",18729,47,19725,0},
{18736,2,"Active",18735,46,68,0},
{18737,2,"Classification",18735,46,68,0},
{18738,2,"DiagnosticsLevel",18735,46,68,0},
{18740,2,"StateOperationalByParent",18729,47,19725,0},
{18741,2,"Active",18740,46,68,0},
{18742,2,"Classification",18740,46,68,0},
{18743,2,"DiagnosticsLevel",18740,46,68,0},
{18745,2,"StateOperationalFromError",18729,47,19725,0},
{18746,2,"Active",18745,46,68,0},
{18747,2,"Classification",18745,46,68,0},
{18748,2,"DiagnosticsLevel",18745,46,68,0},
{18750,2,"StatePausedByParent",18729,47,19725,0},
{18751,2,"Active",18750,46,68,0},
{18752,2,"Classification",18750,46,68,0},
{18753,2,"DiagnosticsLevel",18750,46,68,0},
{18755,2,"StateDisabledByMethod",18729,47,19725,0},
{18756,2,"Active",18755,46,68,0},
{18757,2,"Classification",18755,46,68,0},
{18758,2,"DiagnosticsLevel",18755,46,68,0},
{18760,1,"LiveValues",18715,47,58,0},
{18761,2,"ConfiguredDataSetWriters",18760,47,63,0},
{18762,2,"DiagnosticsLevel",18761,46,68,0},
{18763,2,"ConfiguredDataSetReaders",18760,47,63,0},
{18764,2,"DiagnosticsLevel",18763,46,68,0},
{18765,2,"OperationalDataSetWriters",18760,47,63,0},
{18766,2,"DiagnosticsLevel",18765,46,68,0},
{18767,2,"OperationalDataSetReaders",18760,47,63,0},
{18768,2,"DiagnosticsLevel",18767,46,68,0},
{17479,2,"SupportedTransportProfiles",14416,46,68,0},
{14443,1,"PublishSubscribe",2253,47,14416,0},
{15215,4,"GetSecurityKeys",14443,47,0,0},
{15216,2,"InputArguments",15215,46,68,0},
{15217,2,"OutputArguments",15215,46,68,0},
{15440,4,"GetSecurityGroup",14443,47,0,0},
{15441,2,"InputArguments",15440,46,68,0},
{15442,2,"OutputArguments",15440,46,68,0},
{15443,1,"SecurityGroups",14443,47,15452,0},
{15444,4,"AddSecurityGroup",15443,47,0,0},
{15445,2,"InputArguments",15444,46,68,0},
{15446,2,"OutputArguments",15444,46,68,0},
{15447,4,"RemoveSecurityGroup",15443,47,0,0},
{15448,2,"InputArguments",15447,46,68,0},
{17366,4,"AddConnection",14443,47,0,0},
{17367,2,"InputArguments",17366,46,68,0},
{17368,2,"OutputArguments",17366,46,68,0},
{17369,4,"RemoveConnection",14443,47,0,0},
{17370,2,"InputArguments",17369,46,68,0},
{17371,1,"PublishedDataSets",14443,47,14477,0},
{17405,1,"Status",14443,47,14643,0},
{17406,2,"State",17405,47,63,0},
{17409,1,"Diagnostics",14443,47,19732,0},
{17410,2,"DiagnosticsLevel",17409,47,63,0},
{17411,2,"TotalInformation",17409,47,19725,0},
{17412,2,"Active",17411,46,68,0},
{17413,2,"Classification",17411,46,68,0},
{17414,2,"DiagnosticsLevel",17411,46,68,0},
{17416,2,"TotalError",17409,47,19725,0},
{17417,2,"Active",17416,46,68,0},
{17418,2,"Classification",17416,46,68,0},
{17419,2,"DiagnosticsLevel",17416,46,68,0},
{17421,4,"Reset",17409,47,0,0},
{17422,2,"SubError",17409,47,63,0},
{17423,1,"Counters",17409,47,58,0},
{17424,2,"StateError",17423,47,19725,0},
{17425,2,"Active",17424,46,68,0},
{17426,2,"Classification",17424,46,68,0},
{17429,2,"DiagnosticsLevel",17424,46,68,0},
{17431,2,"StateOperationalByMethod",17423,47,19725,0},
{17432,2,"Active",17431,46,68,0},
{17433,2,"Classification",17431,46,68,0},
{17434,2,"DiagnosticsLevel",17431,46,68,0},
{17436,2,"StateOperationalByParent",17423,47,19725,0},
{17437,2,"Active",17436,46,68,0},
{17438,2,"Classification",17436,46,68,0},
{17439,2,"DiagnosticsLevel",17436,46,68,0},
{17441,2,"StateOperationalFromError",17423,47,19725,0},
{17442,2,"Active",17441,46,68,0},
{17443,2,"Classification",17441,46,68,0},
{17444,2,"DiagnosticsLevel",17441,46,68,0},
{17446,2,"StatePausedByParent",17423,47,19725,0},
{17447,2,"Active",17446,46,68,0},
{17448,2,"Classification",17446,46,68,0},
{17449,2,"DiagnosticsLevel",17446,46,68,0},
{17451,2,"StateDisabledByMethod",17423,47,19725,0},
{17452,2,"Active",17451,46,68,0},
{17453,2,"Classification",17451,46,68,0},
{17454,2,"DiagnosticsLevel",17451,46,68,0},
{17457,1,"LiveValues",17409,47,58,0},
{17458,2,"ConfiguredDataSetWriters",17457,47,63,0},
{17459,2,"DiagnosticsLevel",17458,46,68,0},
{17460,2,"ConfiguredDataSetReaders",17457,47,63,0},
{17461,2,"DiagnosticsLevel",17460,46,68,0},
{17462,2,"OperationalDataSetWriters",17457,47,63,0},
{17463,2,"DiagnosticsLevel",17462,46,68,0},
{17464,2,"OperationalDataSetReaders",17457,47,63,0},
{17466,2,"DiagnosticsLevel",17464,46,68,0},
{17481,2,"SupportedTransportProfiles",14443,46,68,0},
{14476,32,"HasPubSubConnection",47,45,0,0},
{14509,8,"PublishedDataSetType",58,45,0,0},
{15222,1,"<DataSetWriterName>",0,0,15298,0},
{16720,2,"DataSetWriterId",15222,46,68,0},
{16721,2,"DataSetFieldContentMask",15222,46,68,0},
{17482,2,"DataSetWriterProperties",15222,46,68,0},
{15223,1,"Status",15222,47,14643,0},
{15224,2,"State",15223,47,63,0},
{14519,2,"ConfigurationVersion",14509,46,68,0},
{15229,2,"DataSetMetaData",14509,46,68,0},
{16759,2,"DataSetClassId",14509,46,68,0},
{15481,1,"ExtensionFields",14509,47,15489,0},
{15482,4,"AddExtensionField",15481,47,0,0},
{15483,2,"InputArguments",15482,46,68,0},
{15484,2,"OutputArguments",15482,46,68,0},
{15485,4,"RemoveExtensionField",15481,47,0,0},
{15486,2,"InputArguments",15485,46,68,0},
{15489,8,"ExtensionFieldsType",58,45,0,0},
{15490,2,"<ExtensionFieldName>",15489,46,68,0},
{15491,4,"AddExtensionField",15489,47,0,0},
{15492,2,"InputArguments",15491,46,68,0},
{15493,2,"OutputArguments",15491,46,68,0},
{15494,4,"RemoveExtensionField",15489,47,0,0},
{15495,2,"InputArguments",15494,46,68,0},
{14936,32,"DataSetToWriter",33,45,0,0},
{14534,8,"PublishedDataItemsType",14509,45,0,0},
{14548,2,"PublishedData",14534,46,68,0},
{14555,4,"AddVariables",14534,47,0,0},
{14556,2,"InputArguments",14555,46,68,0},
{14557,2,"OutputArguments",14555,46,68,0},
{14558,4,"RemoveVariables",14534,47,0,0},
{14559,2,"InputArguments",14558,46,68,0},
{14560,2,"OutputArguments",14558,46,68,0},
{14572,8,"PublishedEventsType",14509,45,0,0},
{14586,2,"EventNotifier",14572,46,68,0},
{14587,2,"SelectedFields",14572,46,68,0},
{14588,2,"Filter",14572,46,68,0},
{15052,4,"ModifyFieldSelection",14572,47,0,0},
{15053,2,"InputArguments",15052,46,68,0},
{15517,2,"OutputArguments",15052,46,68,0},
{14477,8,"DataSetFolderType",61,45,0,0},
{14478,1,"<DataSetFolderName>",14477,35,14477,0},
{14479,4,"AddPublishedDataItems",14478,47,0,0},
{14480,2,"InputArguments",14479,46,68,0},
{14481,2,"OutputArguments",14479,46,68,0},
{14482,4,"AddPublishedEvents",14478,47,0,0},
{14483,2,"InputArguments",14482,46,68,0},
{14484,2,"OutputArguments",14482,46,68,0},
{16842,4,"AddPublishedDataItemsTemplate",14478,47,0,0},
{16843,2,"InputArguments",16842,46,68,0},
{16853,2,"OutputArguments",16842,46,68,0},
{16881,4,"AddPublishedEventsTemplate",14478,47,0,0},
{16882,2,"InputArguments",16881,46,68,0},
{16883,2,"OutputArguments",16881,46,68,0},
{14485,4,"RemovePublishedDataSet",14478,47,0,0},
{14486,2,"InputArguments",14485,46,68,0},
{16884,4,"AddDataSetFolder",14478,47,0,0},
{16894,2,"InputArguments",16884,46,68,0},
{16922,2,"OutputArguments",16884,46,68,0},
{16923,4,"RemoveDataSetFolder",14478,47,0,0},
{16924,2,"InputArguments",16923,46,68,0},
{14487,1,"<PublishedDataSetName>",14477,47,14509,0},
{14489,2,"ConfigurationVersion",14487,46,68,0},
{15221,2,"DataSetMetaData",14487,46,68,0},
{14493,4,"AddPublishedDataItems",14477,47,0,0},
{14494,2,"InputArguments",14493,46,68,0},
{14495,2,"OutputArguments",14493,46,68,0},
{14496,4,"AddPublishedEvents",14477,47,0,0},
{14497,2,"InputArguments",14496,46,68,0},
{14498,2,"OutputArguments",14496,46,68,0},
{16935,4,"AddPublishedDataItemsTemplate",14477,47,0,0},
{16958,2,"InputArguments",16935,46,68,0},
{16959,2,"OutputArguments",16935,46,68,0},
{16960,4,"AddPublishedEventsTemplate",14477,47,0,0},
{16961,2,"InputArguments",16960,46,68,0},
{16971,2,"OutputArguments",16960,46,68,0},
{14499,4,"RemovePublishedDataSet",14477,47,0,0},
{14500,2,"InputArguments",14499,46,68,0},
{16994,4,"AddDataSetFolder",14477,47,0,0},
{16995,2,"InputArguments",16994,46,68,0},
{16996,2,"OutputArguments",16994,46,68,0},
{16997,4,"RemoveDataSetFolder",14477,47,0,0},
{17007,2,"InputArguments",16997,46,68,0},
{14209,8,"PubSubConnectionType",58,45,0,0},
{14595,2,"PublisherId",14209,46,68,0},
{17306,2,"TransportProfileUri",14209,47,16309,0},
{17710,2,"Selections",17306,46,68,0},
{17485,2,"ConnectionProperties",14209,46,68,0},
{14221,1,"Address",14209,47,21145,0},
{17202,2,"NetworkInterface",14221,47,16309,0},
{17576,2,"Selections",17202,46,68,0},
{17203,1,"TransportSettings",14209,47,17721,0},
{17310,1,"<WriterGroupName>",14209,47,17725,0},
{17311,2,"SecurityMode",17310,46,68,0},
{17204,2,"MaxNetworkMessageSize",17310,46,68,0},
{17486,2,"GroupProperties",17310,46,68,0},
{17314,1,"Status",17310,47,14643,0},
{17315,2,"State",17314,47,63,0},
{17214,2,"WriterGroupId",17310,46,68,0},
{17318,2,"PublishingInterval",17310,46,68,0},
{17319,2,"KeepAliveTime",17310,46,68,0},
{17321,2,"Priority",17310,46,68,0},
{17322,2,"LocaleIds",17310,46,68,0},
{17558,2,"HeaderLayoutUri",17310,46,68,0},
{17325,1,"<ReaderGroupName>",14209,47,17999,0},
{17326,2,"SecurityMode",17325,46,68,0},
{17302,2,"MaxNetworkMessageSize",17325,46,68,0},
{17487,2,"GroupProperties",17325,46,68,0},
{17329,1,"Status",17325,47,14643,0},
{17330,2,"State",17329,47,63,0},
{14600,1,"Status",14209,47,14643,0},
{14601,2,"State",14600,47,63,0},
{19241,1,"Diagnostics",14209,47,19786,0},
{19242,2,"DiagnosticsLevel",19241,47,63,0},
{19243,2,"TotalInformation",19241,47,19725,0},
{19244,2,"Active",19243,46,68,0},
{19245,2,"Classification",19243,46,68,0},
{19246,2,"DiagnosticsLevel",19243,46,68,0},
{19248,2,"TotalError",19241,47,19725,0},
{19249,2,"Active",19248,46,68,0},
{19250,2,"Classification",19248,46,68,0},
{19251,2,"DiagnosticsLevel",19248,46,68,0},
{19253,4,"Reset",19241,47,0,0},
{19254,2,"SubError",19241,47,63,0},
{19255,1,"Counters",19241,47,58,0},
{19256,2,"StateError",19255,47,19725,0},
{19257,2,"Active",19256,46,68,0},
{19258,2,"Classification",19256,46,68,0},
{19259,2,"DiagnosticsLevel",19256,46,68,0},
{19261,2,"StateOperationalByMethod",19255,47,19725,0},
{19262,2,"Active",19261,46,68,0},
{19263,2,"Classification",19261,46,68,0},
{19264,2,"DiagnosticsLevel",19261,46,68,0},
{19266,2,"StateOperationalByParent",19255,47,19725,0},
{19267,2,"Active",19266,46,68,0},
{19268,2,"Classification",19266,46,68,0},
{19269,2,"DiagnosticsLevel",19266,46,68,0},
{19271,2,"StateOperationalFromError",19255,47,19725,0},
{19272,2,"Active",19271,46,68,0},
{19273,2,"Classification",19271,46,68,0},
{19274,2,"DiagnosticsLevel",19271,46,68,0},
{19276,2,"StatePausedByParent",19255,47,19725,0},
{19277,2,"Active",19276,46,68,0},
{19278,2,"Classification",19276,46,68,0},
{19279,2,"DiagnosticsLevel",19276,46,68,0},
{19281,2,"StateDisabledByMethod",19255,47,19725,0},
{19282,2,"Active",19281,46,68,0},
{19283,2,"Classification",19281,46,68,0},
{19284,2,"DiagnosticsLevel",19281,46,68,0},
{19286,1,"LiveValues",19241,47,58,0},
{19287,2,"ResolvedAddress",19286,47,63,0},
{19288,2,"DiagnosticsLevel",19287,46,68,0},
{17427,4,"AddWriterGroup",14209,47,0,0},
{17428,2,"InputArguments",17427,46,68,0},
{17456,2,"OutputArguments",17427,46,68,0},
{17465,4,"AddReaderGroup",14209,47,0,0},
{17507,2,"InputArguments",17465,46,68,0},
{17508,2,"OutputArguments",17465,46,68,0},
{14225,4,"RemoveGroup",14209,47,0,0},
{14226,2,"InputArguments",14225,46,68,0},
{17721,8,"ConnectionTransportType",58,45,0,1},
{14232,8,"PubSubGroupType",58,45,0,1},
{15926,2,"SecurityMode",14232,46,68,0},
{15927,2,"SecurityGroupId",14232,46,68,0},
{15928,2,"SecurityKeyServices",14232,46,68,0},
{17724,2,"MaxNetworkMessageSize",14232,46,68,0},
{17488,2,"GroupProperties",14232,46,68,0},
{15265,1,"Status",14232,47,14643,0},
{15266,2,"State",15265,47,63,0},
{17725,8,"WriterGroupType",14232,45,0,0},
{17736,2,"WriterGroupId",17725,46,68,0},
{17737,2,"PublishingInterval",17725,46,68,0},
{17738,2,"KeepAliveTime",17725,46,68,0},
{17739,2,"Priority",17725,46,68,0},
{17740,2,"LocaleIds",17725,46,68,0},
{17559,2,"HeaderLayoutUri",17725,46,68,0},
{17741,1,"TransportSettings",17725,47,17997,0},
{17742,1,"MessageSettings",17725,47,17998,0},
{17743,1,"<DataSetWriterName>",0,0,15298,0},
{17744,2,"DataSetWriterId",17743,46,68,0},
{17745,2,"DataSetFieldContentMask",17743,46,68,0},
{17490,2,"DataSetWriterProperties",17743,46,68,0},
{17749,1,"Status",17743,47,14643,0},
{17750,2,"State",17749,47,63,0},
{17812,1,"Diagnostics",17725,47,19834,0},
{17813,2,"DiagnosticsLevel",17812,47,63,0},
{17814,2,"TotalInformation",17812,47,19725,0},
{17815,2,"Active",17814,46,68,0},
{17816,2,"Classification",17814,46,68,0},
{17817,2,"DiagnosticsLevel",17814,46,68,0},
{17819,2,"TotalError",17812,47,19725,0},
{17820,2,"Active",17819,46,68,0},
{17821,2,"Classification",17819,46,68,0},
{17822,2,"DiagnosticsLevel",17819,46,68,0},
{17824,4,"Reset",17812,47,0,0},
{17825,2,"SubError",17812,47,63,0},
{17826,1,"Counters",17812,47,58,0},
{17827,2,"StateError",17826,47,19725,0},
{17828,2,"Active",17827,46,68,0},
{17829,2,"Classification",17827,46,68,0},
{17830,2,"DiagnosticsLevel",17827,46,68,0},
{17832,2,"StateOperationalByMethod",17826,47,19725,0},
{17833,2,"Active",17832,46,68,0},
{17834,2,"Classification",17832,46,68,0},
{17835,2,"DiagnosticsLevel",17832,46,68,0},
{17837,2,"StateOperationalByParent",17826,47,19725,0},
{17838,2,"Active",17837,46,68,0},
{17839,2,"Classification",17837,46,68,0},
{17840,2,"DiagnosticsLevel",17837,46,68,0},
{17842,2,"StateOperationalFromError",17826,47,19725,0},
{17843,2,"Active",17842,46,68,0},
{17844,2,"Classification",17842,46,68,0},
{17845,2,"DiagnosticsLevel",17842,46,68,0},
{17847,2,"StatePausedByParent",17826,47,19725,0},
{17848,2,"Active",17847,46,68,0},
{17849,2,"Classification",17847,46,68,0},
{17850,2,"DiagnosticsLevel",17847,46,68,0},
{17853,2,"StateDisabledByMethod",17826,47,19725,0},
{17854,2,"Active",17853,46,68,0},
{17855,2,"Classification",17853,46,68,0},
{17856,2,"DiagnosticsLevel",17853,46,68,0},
{17859,2,"SentNetworkMessages",17826,47,19725,0},
{17864,2,"Active",17859,46,68,0},
{17871,2,"Classification",17859,46,68,0},
{17872,2,"DiagnosticsLevel",17859,46,68,0},
{17874,2,"FailedTransmissions",17826,47,19725,0},
{17878,2,"Active",17874,46,68,0},
{17885,2,"Classification",17874,46,68,0},
{17892,2,"DiagnosticsLevel",17874,46,68,0},
{17900,2,"EncryptionErrors",17826,47,19725,0},
{17901,2,"Active",17900,46,68,0},
{17902,2,"Classification",17900,46,68,0},
{17903,2,"DiagnosticsLevel",17900,46,68,0},
{17858,1,"LiveValues",17812,47,58,0},
{17913,2,"ConfiguredDataSetWriters",17858,47,63,0},
{17920,2,"DiagnosticsLevel",17913,46,68,0},
{17927,2,"OperationalDataSetWriters",17858,47,63,0},
{17934,2,"DiagnosticsLevel",17927,46,68,0},
{17969,4,"AddDataSetWriter",17725,47,0,0},
{17976,2,"InputArguments",17969,46,68,0},
{17987,2,"OutputArguments",17969,46,68,0},
{17992,4,"RemoveDataSetWriter",17725,47,0,0},
{17993,2,"InputArguments",17992,46,68,0},
{15296,32,"HasDataSetWriter",47,45,0,0},
{17997,8,"WriterGroupTransportType",58,45,0,1},
{17998,8,"WriterGroupMessageType",58,45,0,1},
{17999,8,"ReaderGroupType",14232,45,0,0},
{18076,1,"<DataSetReaderName>",0,0,15306,0},
{18077,2,"PublisherId",18076,46,68,0},
{18078,2,"WriterGroupId",18076,46,68,0},
{18079,2,"DataSetWriterId",18076,46,68,0},
{18080,2,"DataSetMetaData",18076,46,68,0},
{18081,2,"DataSetFieldContentMask",18076,46,68,0},
{18082,2,"MessageReceiveTimeout",18076,46,68,0},
{17560,2,"KeyFrameCount",18076,46,68,0},
{17562,2,"HeaderLayoutUri",18076,46,68,0},
{17492,2,"DataSetReaderProperties",18076,46,68,0},
{18088,1,"Status",18076,47,14643,0},
{18089,2,"State",18088,47,63,0},
{21006,1,"SubscribedDataSet",18076,47,15108,0},
{21015,1,"Diagnostics",17999,47,19903,0},
{21016,2,"DiagnosticsLevel",21015,47,63,0},
{21017,2,"TotalInformation",21015,47,19725,0},
{21018,2,"Active",21017,46,68,0},
{21019,2,"Classification",21017,46,68,0},
{21020,2,"DiagnosticsLevel",21017,46,68,0},
{21022,2,"TotalError",21015,47,19725,0},
{21023,2,"Active",21022,46,68,0},
{21024,2,"Classification",21022,46,68,0},
{21025,2,"DiagnosticsLevel",21022,46,68,0},
{21027,4,"Reset",21015,47,0,0},
{21028,2,"SubError",21015,47,63,0},
{21029,1,"Counters",21015,47,58,0},
{21030,2,"StateError",21029,47,19725,0},
{21031,2,"Active",21030,46,68,0},
{21032,2,"Classification",21030,46,68,0},
{21033,2,"DiagnosticsLevel",21030,46,68,0},
{21035,2,"StateOperationalByMethod",21029,47,19725,0},
{21036,2,"Active",21035,46,68,0},
{21037,2,"Classification",21035,46,68,0},
{21038,2,"DiagnosticsLevel",21035,46,68,0},
{21040,2,"StateOperationalByParent",21029,47,19725,0},
{21041,2,"Active",21040,46,68,0},
{21042,2,"Classification",21040,46,68,0},
{21043,2,"DiagnosticsLevel",21040,46,68,0},
{21045,2,"StateOperationalFromError",21029,47,19725,0},
{21046,2,"Active",21045,46,68,0},
{21047,2,"Classification",21045,46,68,0},
{21048,2,"DiagnosticsLevel",21045,46,68,0},
{21050,2,"StatePausedByParent",21029,47,19725,0},
{21051,2,"Active",21050,46,68,0},
{21052,2,"Classification",21050,46,68,0},
{21053,2,"DiagnosticsLevel",21050,46,68,0},
{21055,2,"StateDisabledByMethod",21029,47,19725,0},
{21056,2,"Active",21055,46,68,0},
{21057,2,"Classification",21055,46,68,0},
{21058,2,"DiagnosticsLevel",21055,46,68,0},
{21061,2,"ReceivedNetworkMessages",21029,47,19725,0},
{21062,2,"Active",21061,46,68,0},
{21063,2,"Classification",21061,46,68,0},
{21064,2,"DiagnosticsLevel",21061,46,68,0},
{21060,1,"LiveValues",21015,47,58,0},
{21076,2,"ConfiguredDataSetReaders",21060,47,63,0},
{21077,2,"DiagnosticsLevel",21076,46,68,0},
{21078,2,"OperationalDataSetReaders",21060,47,63,0},
{21079,2,"DiagnosticsLevel",21078,46,68,0},
{21080,1,"TransportSettings",17999,47,21090,0},
{21081,1,"MessageSettings",17999,47,21091,0},
{21082,4,"AddDataSetReader",17999,47,0,0},
{21083,2,"InputArguments",21082,46,68,0},
{21084,2,"OutputArguments",21082,46,68,0},
{21085,4,"RemoveDataSetReader",17999,47,0,0},
{21086,2,"InputArguments",21085,46,68,0},
{15297,32,"HasDataSetReader",47,45,0,0},
{21090,8,"ReaderGroupTransportType",58,45,0,1},
{21091,8,"ReaderGroupMessageType",58,45,0,1},
{15298,8,"DataSetWriterType",58,45,0,0},
{21092,2,"DataSetWriterId",15298,46,68,0},
{21093,2,"DataSetFieldContentMask",15298,46,68,0},
{21094,2,"KeyFrameCount",15298,46,68,0},
{17493,2,"DataSetWriterProperties",15298,46,68,0},
{15303,1,"TransportSettings",15298,47,15305,0},
{21095,1,"MessageSettings",15298,47,21096,0},
{15299,1,"Status",15298,47,14643,0},
{15300,2,"State",15299,47,63,0},
{19550,1,"Diagnostics",15298,47,19968,0},
{19551,2,"DiagnosticsLevel",19550,47,63,0},
{19552,2,"TotalInformation",19550,47,19725,0},
{19553,2,"Active",19552,46,68,0},
{19554,2,"Classification",19552,46,68,0},
{19555,2,"DiagnosticsLevel",19552,46,68,0},
{19557,2,"TotalError",19550,47,19725,0},
{19558,2,"Active",19557,46,68,0},
{19559,2,"Classification",19557,46,68,0},
{19560,2,"DiagnosticsLevel",19557,46,68,0},
{19562,4,"Reset",19550,47,0,0},
{19563,2,"SubError",19550,47,63,0},
{19564,1,"Counters",19550,47,58,0},
{19565,2,"StateError",19564,47,19725,0},
{19566,2,"Active",19565,46,68,0},
{19567,2,"Classification",19565,46,68,0},
{19568,2,"DiagnosticsLevel",19565,46,68,0},
{19570,2,"StateOperationalByMethod",19564,47,19725,0},
{19571,2,"Active",19570,46,68,0},
{19572,2,"Classification",19570,46,68,0},
{19573,2,"DiagnosticsLevel",19570,46,68,0},
{19575,2,"StateOperationalByParent",19564,47,19725,0},
{19576,2,"Active",19575,46,68,0},
{19577,2,"Classification",19575,46,68,0},
{19578,2,"DiagnosticsLevel",19575,46,68,0},
{19580,2,"StateOperationalFromError",19564,47,19725,0},
{19581,2,"Active",19580,46,68,0},
{19582,2,"Classification",19580,46,68,0},
{19583,2,"DiagnosticsLevel",19580,46,68,0},
{19585,2,"StatePausedByParent",19564,47,19725,0},
{19586,2,"Active",19585,46,68,0},
{19587,2,"Classification",19585,46,68,0},
{19588,2,"DiagnosticsLevel",19585,46,68,0},
{19590,2,"StateDisabledByMethod",19564,47,19725,0},
{19591,2,"Active",19590,46,68,0},
{19592,2,"Classification",19590,46,68,0},
{19593,2,"DiagnosticsLevel",19590,46,68,0},
{19596,2,"FailedDataSetMessages",19564,47,19725,0},
{19597,2,"Active",19596,46,68,0},
{19598,2,"Classification",19596,46,68,0},
{19599,2,"DiagnosticsLevel",19596,46,68,0},
{19595,1,"LiveValues",19550,47,58,0},
{15305,8,"DataSetWriterTransportType",58,45,0,1},
{21096,8,"DataSetWriterMessageType",58,45,0,1},
{15306,8,"DataSetReaderType",58,45,0,0},
{21097,2,"PublisherId",15306,46,68,0},
{21098,2,"WriterGroupId",15306,46,68,0},
{21099,2,"DataSetWriterId",15306,46,68,0},
{21100,2,"DataSetMetaData",15306,46,68,0},
{21101,2,"DataSetFieldContentMask",15306,46,68,0},
{21102,2,"MessageReceiveTimeout",15306,46,68,0},
{17563,2,"KeyFrameCount",15306,46,68,0},
{17564,2,"HeaderLayoutUri",15306,46,68,0},
{15932,2,"SecurityMode",15306,46,68,0},
{15933,2,"SecurityGroupId",15306,46,68,0},
{15934,2,"SecurityKeyServices",15306,46,68,0},
{17494,2,"DataSetReaderProperties",15306,46,68,0},
{15311,1,"TransportSettings",15306,47,15319,0},
{21103,1,"MessageSettings",15306,47,21104,0},
{15307,1,"Status",15306,47,14643,0},
{15308,2,"State",15307,47,63,0},
{19609,1,"Diagnostics",15306,47,20027,0},
{19610,2,"DiagnosticsLevel",19609,47,63,0},
{19611,2,"TotalInformation",19609,47,19725,0},
{19612,2,"Active",19611,46,68,0},
{19613,2,"Classification",19611,46,68,0},
{19614,2,"DiagnosticsLevel",19611,46,68,0},
{19616,2,"TotalError",19609,47,19725,0},
{19617,2,"Active",19616,46,68,0},
{19618,2,"Classification",19616,46,68,0},
{19619,2,"DiagnosticsLevel",19616,46,68,0},
{19621,4,"Reset",19609,47,0,0},
{19622,2,"SubError",19609,47,63,0},
{19623,1,"Counters",19609,47,58,0},
{19624,2,"StateError",19623,47,19725,0},
{19625,2,"Active",19624,46,68,0},
{19626,2,"Classification",19624,46,68,0},
{19627,2,"DiagnosticsLevel",19624,46,68,0},
{19629,2,"StateOperationalByMethod",19623,47,19725,0},
{19630,2,"Active",19629,46,68,0},
{19631,2,"Classification",19629,46,68,0},
{19632,2,"DiagnosticsLevel",19629,46,68,0},
{19634,2,"StateOperationalByParent",19623,47,19725,0},
{19635,2,"Active",19634,46,68,0},
{19636,2,"Classification",19634,46,68,0},
{19637,2,"DiagnosticsLevel",19634,46,68,0},
{19639,2,"StateOperationalFromError",19623,47,19725,0},
{19640,2,"Active",19639,46,68,0},
{19641,2,"Classification",19639,46,68,0},
{19642,2,"DiagnosticsLevel",19639,46,68,0},
{19644,2,"StatePausedByParent",19623,47,19725,0},
{19645,2,"Active",19644,46,68,0},
{19646,2,"Classification",19644,46,68,0},
{19647,2,"DiagnosticsLevel",19644,46,68,0},
{19649,2,"StateDisabledByMethod",19623,47,19725,0},
{19650,2,"Active",19649,46,68,0},
{19651,2,"Classification",19649,46,68,0},
{19652,2,"DiagnosticsLevel",19649,46,68,0},
{19655,2,"FailedDataSetMessages",19623,47,19725,0},
{19656,2,"Active",19655,46,68,0},
{19657,2,"Classification",19655,46,68,0},
{19658,2,"DiagnosticsLevel",19655,46,68,0},
{19654,1,"LiveValues",19609,47,58,0},
{15316,1,"SubscribedDataSet",15306,47,15108,0},
{17386,4,"CreateTargetVariables",15306,47,0,0},
{17387,2,"InputArguments",17386,46,68,0},
{17388,2,"OutputArguments",17386,46,68,0},
{17389,4,"CreateDataSetMirror",15306,47,0,0},
{17390,2,"InputArguments",17389,46,68,0},
{17391,2,"OutputArguments",17389,46,68,0},
{15319,8,"DataSetReaderTransportType",58,45,0,1},
{21104,8,"DataSetReaderMessageType",58,45,0,1},
{15108,8,"SubscribedDataSetType",58,45,0,0},
{15111,8,"TargetVariablesType",15108,45,0,0},
{15114,2,"TargetVariables",15111,46,68,0},
{15115,4,"AddTargetVariables",15111,47,0,0},
{15116,2,"InputArguments",15115,46,68,0},
{15117,2,"OutputArguments",15115,46,68,0},
{15118,4,"RemoveTargetVariables",15111,47,0,0},
{15119,2,"InputArguments",15118,46,68,0},
{15120,2,"OutputArguments",15118,46,68,0},
{15127,8,"SubscribedDataSetMirrorType",15108,45,0,0},
{14643,8,"PubSubStatusType",58,45,0,0},
{14644,2,"State",14643,47,63,0},
{14645,4,"Enable",14643,47,0,0},
{14646,4,"Disable",14643,47,0,0},
{19677,8,"PubSubDiagnosticsType",58,45,0,1},
{19678,2,"DiagnosticsLevel",19677,47,63,0},
{19679,2,"TotalInformation",19677,47,19725,0},
{19680,2,"Active",19679,46,68,0},
{19681,2,"Classification",19679,46,68,0},
{19682,2,"DiagnosticsLevel",19679,46,68,0},
{19684,2,"TotalError",19677,47,19725,0},
{19685,2,"Active",19684,46,68,0},
{19686,2,"Classification",19684,46,68,0},
{19687,2,"DiagnosticsLevel",19684,46,68,0},
{19689,4,"Reset",19677,47,0,0},
{19690,2,"SubError",19677,47,63,0},
{19691,1,"Counters",19677,47,58,0},
{19692,2,"StateError",19691,47,19725,0},
{19693,2,"Active",19692,46,68,0},
{19694,2,"Classification",19692,46,68,0},
{19695,2,"DiagnosticsLevel",19692,46,68,0},
{19697,2,"StateOperationalByMethod",19691,47,19725,0},
{19698,2,"Active",19697,46,68,0},
{19699,2,"Classification",19697,46,68,0},
{19700,2,"DiagnosticsLevel",19697,46,68,0},
{19702,2,"StateOperationalByParent",19691,47,19725,0},
{19703,2,"Active",19702,46,68,0},
{19704,2,"Classification",19702,46,68,0},
{19705,2,"DiagnosticsLevel",19702,46,68,0},
{19707,2,"StateOperationalFromError",19691,47,19725,0},
{19708,2,"Active",19707,46,68,0},
{19709,2,"Classification",19707,46,68,0},
{19710,2,"DiagnosticsLevel",19707,46,68,0},
{19712,2,"StatePausedByParent",19691,47,19725,0},
{19713,2,"Active",19712,46,68,0},
{19714,2,"Classification",19712,46,68,0},
{19715,2,"DiagnosticsLevel",19712,46,68,0},
{19717,2,"StateDisabledByMethod",19691,47,19725,0},
{19718,2,"Active",19717,46,68,0},
{19719,2,"Classification",19717,46,68,0},
{19720,2,"DiagnosticsLevel",19717,46,68,0},
{19722,1,"LiveValues",19677,47,58,0},
{19723,64,"DiagnosticsLevel",29,45,0,0},
{19724,2,"EnumStrings",19723,46,68,0},
{19725,16,"PubSubDiagnosticsCounterType",63,45,0,0},
{19726,2,"Active",19725,46,68,0},
{19727,2,"Classification",19725,46,68,0},
{19728,2,"DiagnosticsLevel",19725,46,68,0},
{19729,2,"TimeFirstChange",19725,46,68,0},
{19730,64,"PubSubDiagnosticsCounterClassification",29,45,0,0},
{19731,2,"EnumStrings",19730,46,68,0},
{19732,8,"PubSubDiagnosticsRootType",19677,45,0,0},
{19777,1,"LiveValues",19732,47,58,0},
{19778,2,"ConfiguredDataSetWriters",19777,47,63,0},
{19779,2,"DiagnosticsLevel",19778,46,68,0},
{19780,2,"ConfiguredDataSetReaders",19777,47,63,0},
{19781,2,"DiagnosticsLevel",19780,46,68,0},
{19782,2,"OperationalDataSetWriters",19777,47,63,0},
{19783,2,"DiagnosticsLevel",19782,46,68,0},
{19784,2,"OperationalDataSetReaders",19777,47,63,0},
{19785,2,"DiagnosticsLevel",19784,46,68,0},
{19786,8,"PubSubDiagnosticsConnectionType",19677,45,0,0},
{19831,1,"LiveValues",19786,47,58,0},
{19832,2,"ResolvedAddress",19831,47,63,0},
{19833,2,"DiagnosticsLevel",19832,46,68,0},
{19834,8,"PubSubDiagnosticsWriterGroupType",19677,45,0,0},
{19848,1,"Counters",19834,47,58,0},
{19880,2,"SentNetworkMessages",19848,47,19725,0},
{19881,2,"Active",19880,46,68,0},
{19882,2,"Classification",19880,46,68,0},
{19883,2,"DiagnosticsLevel",19880,46,68,0},
{19885,2,"FailedTransmissions",19848,47,19725,0},
{19886,2,"Active",19885,46,68,0},
{19887,2,"Classification",19885,46,68,0},
{19888,2,"DiagnosticsLevel",19885,46,68,0},
{19890,2,"EncryptionErrors",19848,47,19725,0},
{19891,2,"Active",19890,46,68,0},
{19892,2,"Classification",19890,46,68,0},
{19893,2,"DiagnosticsLevel",19890,46,68,0},
{19879,1,"LiveValues",19834,47,58,0},
{19895,2,"ConfiguredDataSetWriters",19879,47,63,0},
{19896,2,"DiagnosticsLevel",19895,46,68,0},
{19897,2,"OperationalDataSetWriters",19879,47,63,0},
{19898,2,"DiagnosticsLevel",19897,46,68,0},
{19899,2,"SecurityTokenID",19879,47,63,0},
{19900,2,"DiagnosticsLevel",19899,46,68,0},
{19901,2,"TimeToNextTokenID",19879,47,63,0},
{19902,2,"DiagnosticsLevel",19901,46,68,0},
{19903,8,"PubSubDiagnosticsReaderGroupType",19677,45,0,0},
{19917,1,"Counters",19903,47,58,0},
{19949,2,"ReceivedNetworkMessages",19917,47,19725,0},
{19950,2,"Active",19949,46,68,0},
{19951,2,"Classification",19949,46,68,0},
{19952,2,"DiagnosticsLevel",19949,46,68,0},
{19954,2,"ReceivedInvalidNetworkMessages",19917,47,19725,0},
{19955,2,"Active",19954,46,68,0},
{19956,2,"Classification",19954,46,68,0},
{19957,2,"DiagnosticsLevel",19954,46,68,0},
{19959,2,"DecryptionErrors",19917,47,19725,0},
{19960,2,"Active",19959,46,68,0},
{19961,2,"Classification",19959,46,68,0},
{19962,2,"DiagnosticsLevel",19959,46,68,0},
{19948,1,"LiveValues",19903,47,58,0},
{19964,2,"ConfiguredDataSetReaders",19948,47,63,0},
{19965,2,"DiagnosticsLevel",19964,46,68,0},
{19966,2,"OperationalDataSetReaders",19948,47,63,0},
{19967,2,"DiagnosticsLevel",19966,46,68,0},
{19968,8,"PubSubDiagnosticsDataSetWriterType",19677,45,0,0},
{19982,1,"Counters",19968,47,58,0},
{20014,2,"FailedDataSetMessages",19982,47,19725,0},
{20015,2,"Active",20014,46,68,0},
{20016,2,"Classification",20014,46,68,0},
{20017,2,"DiagnosticsLevel",20014,46,68,0},
{20013,1,"LiveValues",19968,47,58,0},
{20019,2,"MessageSequenceNumber",20013,47,63,0},
{20020,2,"DiagnosticsLevel",20019,46,68,0},
{20021,2,"StatusCode",20013,47,63,0},
{20022,2,"DiagnosticsLevel",20021,46,68,0},
{20023,2,"MajorVersion",20013,47,63,0},
{20024,2,"DiagnosticsLevel",20023,46,68,0},
{20025,2,"MinorVersion",20013,47,63,0},
{20026,2,"DiagnosticsLevel",20025,46,68,0},
{20027,8,"PubSubDiagnosticsDataSetReaderType",19677,45,0,0},
{20041,1,"Counters",20027,47,58,0},
{20073,2,"FailedDataSetMessages",20041,47,19725,0},
{20074,2,"Active",20073,46,68,0},
{20075,2,"Classification",20073,46,68,0},
{20076,2,"DiagnosticsLevel",20073,46,68,0},
{20078,2,"DecryptionErrors",20041,47,19725,0},
{20079,2,"Active",20078,46,68,0},
{20080,2,"Classification",20078,46,68,0},
{20081,2,"DiagnosticsLevel",20078,46,68,0},
{20072,1,"LiveValues",20027,47,58,0},
{20083,2,"MessageSequenceNumber",20072,47,63,0},
{20084,2,"DiagnosticsLevel",20083,46,68,0},
{20085,2,"StatusCode",20072,47,63,0},
{20086,2,"DiagnosticsLevel",20085,46,68,0},
{20087,2,"MajorVersion",20072,47,63,0},
{20088,2,"DiagnosticsLevel",20087,46,68,0},
{20089,2,"MinorVersion",20072,47,63,0},
{20090,2,"DiagnosticsLevel",20089,46,68,0},
{20091,2,"SecurityTokenID",20072,47,63,0},
{20092,2,"DiagnosticsLevel",20091,46,68,0},
{20093,2,"TimeToNextTokenID",20072,47,63,0},
{20094,2,"DiagnosticsLevel",20093,46,68,0},
{15535,8,"PubSubStatusEventType",2130,45,0,1},
{15545,2,"ConnectionId",15535,46,68,0},
{15546,2,"GroupId",15535,46,68,0},
{15547,2,"State",15535,46,68,0},
{15548,8,"PubSubTransportLimitsExceedEventType",15535,45,0,1},
{15561,2,"Actual",15548,46,68,0},
{15562,2,"Maximum",15548,46,68,0},
{15563,8,"PubSubCommunicationFailureEventType",15535,45,0,1},
{15576,2,"Error",15563,46,68,0},
{21105,8,"UadpWriterGroupMessageType",17998,45,0,0},
{21106,2,"GroupVersion",21105,46,68,0},
{21107,2,"DataSetOrdering",21105,46,68,0},
{21108,2,"NetworkMessageContentMask",21105,46,68,0},
{21109,2,"SamplingOffset",21105,46,68,0},
{21110,2,"PublishingOffset",21105,46,68,0},
{21111,8,"UadpDataSetWriterMessageType",21096,45,0,0},
{21112,2,"DataSetMessageContentMask",21111,46,68,0},
{21113,2,"ConfiguredSize",21111,46,68,0},
{21114,2,"NetworkMessageNumber",21111,46,68,0},
{21115,2,"DataSetOffset",21111,46,68,0},
{21116,8,"UadpDataSetReaderMessageType",21104,45,0,0},
{21117,2,"GroupVersion",21116,46,68,0},
{21119,2,"NetworkMessageNumber",21116,46,68,0},
{17477,2,"DataSetOffset",21116,46,68,0},
{21120,2,"DataSetClassId",21116,46,68,0},
{21121,2,"NetworkMessageContentMask",21116,46,68,0},
{21122,2,"DataSetMessageContentMask",21116,46,68,0},
{21123,2,"PublishingInterval",21116,46,68,0},
{21124,2,"ProcessingOffset",21116,46,68,0},
{21125,2,"ReceiveOffset",21116,46,68,0},
{21126,8,"JsonWriterGroupMessageType",17998,45,0,0},
{21127,2,"NetworkMessageContentMask",21126,46,68,0},
{21128,8,"JsonDataSetWriterMessageType",21096,45,0,0},
{21129,2,"DataSetMessageContentMask",21128,46,68,0},
{21130,8,"JsonDataSetReaderMessageType",21104,45,0,0},
{21131,2,"NetworkMessageContentMask",21130,46,68,0},
{21132,2,"DataSetMessageContentMask",21130,46,68,0},
{15064,8,"DatagramConnectionTransportType",17721,45,0,0},
{15072,1,"DiscoveryAddress",15064,47,21145,0},
{15154,2,"NetworkInterface",15072,47,16309,0},
{17579,2,"Selections",15154,46,68,0},
{21133,8,"DatagramWriterGroupTransportType",17997,45,0,0},
{21134,2,"MessageRepeatCount",21133,46,68,0},
{21135,2,"MessageRepeatDelay",21133,46,68,0},
{15155,8,"BrokerConnectionTransportType",17721,45,0,0},
{15156,2,"ResourceUri",15155,46,68,0},
{15178,2,"AuthenticationProfileUri",15155,46,68,0},
{21136,8,"BrokerWriterGroupTransportType",17997,45,0,0},
{21137,2,"QueueName",21136,46,68,0},
{15246,2,"ResourceUri",21136,46,68,0},
{15247,2,"AuthenticationProfileUri",21136,46,68,0},
{15249,2,"RequestedDeliveryGuarantee",21136,46,68,0},
{21138,8,"BrokerDataSetWriterTransportType",15305,45,0,0},
{21139,2,"QueueName",21138,46,68,0},
{21140,2,"MetaDataQueueName",21138,46,68,0},
{15250,2,"ResourceUri",21138,46,68,0},
{15251,2,"AuthenticationProfileUri",21138,46,68,0},
{15330,2,"RequestedDeliveryGuarantee",21138,46,68,0},
{21141,2,"MetaDataUpdateTime",21138,46,68,0},
{21142,8,"BrokerDataSetReaderTransportType",15319,45,0,0},
{21143,2,"QueueName",21142,46,68,0},
{15334,2,"ResourceUri",21142,46,68,0},
{15419,2,"AuthenticationProfileUri",21142,46,68,0},
{15420,2,"RequestedDeliveryGuarantee",21142,46,68,0},
{21144,2,"MetaDataQueueName",21142,46,68,0},
{21145,8,"NetworkAddressType",58,45,0,1},
{21146,2,"NetworkInterface",21145,47,16309,0},
{17582,2,"Selections",21146,46,68,0},
{21147,8,"NetworkAddressUrlType",21145,45,0,0},
{21149,2,"Url",21147,47,63,0},
{256,64,"IdType",29,45,0,0},
{7591,2,"EnumStrings",256,46,68,0},
{257,64,"NodeClass",29,45,0,0},
{11878,2,"EnumValues",257,46,68,0},
{94,64,"PermissionType",7,45,0,0},
{15030,2,"OptionSetValues",94,46,68,0},
{15031,64,"AccessLevelType",3,45,0,0},
{15032,2,"OptionSetValues",15031,46,68,0},
{15406,64,"AccessLevelExType",7,45,0,0},
{15407,2,"OptionSetValues",15406,46,68,0},
{15033,64,"EventNotifierType",3,45,0,0},
{15034,2,"OptionSetValues",15033,46,68,0},
{95,64,"AccessRestrictionType",7,45,0,0},
{15035,2,"OptionSetValues",95,46,68,0},
{96,64,"RolePermissionType",22,45,0,0},
{97,64,"DataTypeDefinition",22,45,0,1},
{98,64,"StructureType",29,45,0,0},
{14528,2,"EnumStrings",98,46,68,0},
{101,64,"StructureField",22,45,0,0},
{99,64,"StructureDefinition",97,45,0,0},
{100,64,"EnumDefinition",97,45,0,0},
{296,64,"Argument",22,45,0,0},
{7594,64,"EnumValueType",22,45,0,0},
{102,64,"EnumField",7594,45,0,0},
{12755,64,"OptionSet",22,45,0,0},
{12756,64,"Union",22,45,0,1},
{12877,64,"NormalizedString",12,45,0,0},
{12878,64,"DecimalString",12,45,0,0},
{12879,64,"DurationString",12,45,0,0},
{12880,64,"TimeString",12,45,0,0},
{12881,64,"DateString",12,45,0,0},
{290,64,"Duration",11,45,0,0},
{294,64,"UtcTime",13,45,0,0},
{295,64,"LocaleId",12,45,0,0},
{8912,64,"TimeZoneDataType",22,45,0,0},
{17588,64,"Index",7,45,0,0},
{288,64,"IntegerId",7,45,0,0},
{307,64,"ApplicationType",29,45,0,0},
{7597,2,"EnumStrings",307,46,68,0},
{308,64,"ApplicationDescription",22,45,0,0},
{20998,64,"VersionTime",7,45,0,0},
{12189,64,"ServerOnNetwork",22,45,0,0},
{311,64,"ApplicationInstanceCertificate",15,45,0,0},
{302,64,"MessageSecurityMode",29,45,0,0},
{7595,2,"EnumStrings",302,46,68,0},
{303,64,"UserTokenType",29,45,0,0},
{7596,2,"EnumStrings",303,46,68,0},
{304,64,"UserTokenPolicy",22,45,0,0},
{312,64,"EndpointDescription",22,45,0,0},
{432,64,"RegisteredServer",22,45,0,0},
{12890,64,"DiscoveryConfiguration",22,45,0,0},
{12891,64,"MdnsDiscoveryConfiguration",12890,45,0,0},
{315,64,"SecurityTokenRequestType",29,45,0,0},
{7598,2,"EnumStrings",315,46,68,0},
{344,64,"SignedSoftwareCertificate",22,45,0,0},
{388,64,"SessionAuthenticationToken",17,45,0,0},
{316,64,"UserIdentityToken",22,45,0,1},
{319,64,"AnonymousIdentityToken",316,45,0,0},
{322,64,"UserNameIdentityToken",316,45,0,0},
{325,64,"X509IdentityToken",316,45,0,0},
{938,64,"IssuedIdentityToken",316,45,0,0},
{348,64,"NodeAttributesMask",29,45,0,0},
{11881,2,"EnumValues",348,46,68,0},
{376,64,"AddNodesItem",22,45,0,0},
{379,64,"AddReferencesItem",22,45,0,0},
{382,64,"DeleteNodesItem",22,45,0,0},
{385,64,"DeleteReferencesItem",22,45,0,0},
{347,64,"AttributeWriteMask",7,45,0,0},
{15036,2,"OptionSetValues",347,46,68,0},
{521,64,"ContinuationPoint",15,45,0,0},
{537,64,"RelativePathElement",22,45,0,0},
{540,64,"RelativePath",22,45,0,0},
{289,64,"Counter",7,45,0,0},
{291,64,"NumericRange",12,45,0,0},
{292,64,"Time",12,45,0,0},
{293,64,"Date",13,45,0,0},
{331,64,"EndpointConfiguration",22,45,0,0},
{576,64,"FilterOperator",29,45,0,0},
{7605,2,"EnumStrings",576,46,68,0},
{583,64,"ContentFilterElement",22,45,0,0},
{586,64,"ContentFilter",22,45,0,0},
{589,64,"FilterOperand",22,45,0,0},
{592,64,"ElementOperand",589,45,0,0},
{595,64,"LiteralOperand",589,45,0,0},
{598,64,"AttributeOperand",589,45,0,0},
{601,64,"SimpleAttributeOperand",589,45,0,0},
{659,64,"HistoryEvent",22,45,0,0},
{11234,64,"HistoryUpdateType",29,45,0,0},
{11884,2,"EnumValues",11234,46,68,0},
{11293,64,"PerformUpdateType",29,45,0,0},
{11885,2,"EnumValues",11293,46,68,0},
{719,64,"MonitoringFilter",22,45,0,0},
{725,64,"EventFilter",719,45,0,0},
{948,64,"AggregateConfiguration",22,45,0,0},
{920,64,"HistoryEventFieldList",22,45,0,0},
{338,64,"BuildInfo",22,45,0,0},
{851,64,"RedundancySupport",29,45,0,0},
{7611,2,"EnumStrings",851,46,68,0},
{852,64,"ServerState",29,45,0,0},
{7612,2,"EnumStrings",852,46,68,0},
{853,64,"RedundantServerDataType",22,45,0,0},
{11943,64,"EndpointUrlListDataType",22,45,0,0},
{11944,64,"NetworkGroupDataType",22,45,0,0},
{856,64,"SamplingIntervalDiagnosticsDataType",22,45,0,0},
{859,64,"ServerDiagnosticsSummaryDataType",22,45,0,0},
{862,64,"ServerStatusDataType",22,45,0,0},
{865,64,"SessionDiagnosticsDataType",22,45,0,0},
{868,64,"SessionSecurityDiagnosticsDataType",22,45,0,0},
{871,64,"ServiceCounterDataType",22,45,0,0},
{299,64,"StatusResult",22,45,0,0},
{874,64,"SubscriptionDiagnosticsDataType",22,45,0,0},
{877,64,"ModelChangeStructureDataType",22,45,0,0},
{897,64,"SemanticChangeStructureDataType",22,45,0,0},
{884,64,"Range",22,45,0,0},
{887,64,"EUInformation",22,45,0,0},
{12077,64,"AxisScaleEnumeration",29,45,0,0},
{12078,2,"EnumStrings",12077,46,68,0},
{12171,64,"ComplexNumberType",22,45,0,0},
{12172,64,"DoubleComplexNumberType",22,45,0,0},
{12079,64,"AxisInformation",22,45,0,0},
{12080,64,"XVType",22,45,0,0},
{894,64,"ProgramDiagnosticDataType",22,45,0,0},
{15396,64,"ProgramDiagnostic2DataType",22,45,0,0},
{891,64,"Annotation",22,45,0,0},
{890,64,"ExceptionDeviationFormat",29,45,0,0},
{7614,2,"EnumStrings",890,46,68,0},
{14846,1,"Default Binary",0,0,76,0},
{17537,1,"Default Binary",0,0,76,0},
{17549,1,"Default Binary",0,0,76,0},
{15671,1,"Default Binary",0,0,76,0},
{18815,1,"Default Binary",0,0,76,0},
{18816,1,"Default Binary",0,0,76,0},
{18817,1,"Default Binary",0,0,76,0},
{18818,1,"Default Binary",0,0,76,0},
{18819,1,"Default Binary",0,0,76,0},
{18820,1,"Default Binary",0,0,76,0},
{18821,1,"Default Binary",0,0,76,0},
{18822,1,"Default Binary",0,0,76,0},
{18823,1,"Default Binary",0,0,76,0},
{15736,1,"Default Binary",0,0,76,0},
{12680,1,"Default Binary",0,0,76,0},
{15676,1,"Default Binary",0,0,76,0},
{125,1,"Default Binary",0,0,76,0},
{126,1,"Default Binary",0,0,76,0},
{127,1,"Default Binary",0,0,76,0},
{15421,1,"Default Binary",0,0,76,0},
{15422,1,"Default Binary",0,0,76,0},
{124,1,"Default Binary",0,0,76,0},
{14839,1,"Default Binary",0,0,76,0},
{14847,1,"Default Binary",0,0,76,0},
{15677,1,"Default Binary",0,0,76,0},
{15678,1,"Default Binary",0,0,76,0},
{14323,1,"Default Binary",0,0,76,0},
{15679,1,"Default Binary",0,0,76,0},
{15681,1,"Default Binary",0,0,76,0},
{15682,1,"Default Binary",0,0,76,0},
{15683,1,"Default Binary",0,0,76,0},
{15688,1,"Default Binary",0,0,76,0},
{15689,1,"Default Binary",0,0,76,0},
{21150,1,"Default Binary",0,0,76,0},
{15691,1,"Default Binary",0,0,76,0},
{15693,1,"Default Binary",0,0,76,0},
{15694,1,"Default Binary",0,0,76,0},
{15695,1,"Default Binary",0,0,76,0},
{21151,1,"Default Binary",0,0,76,0},
{21152,1,"Default Binary",0,0,76,0},
{21153,1,"Default Binary",0,0,76,0},
{15701,1,"Default Binary",0,0,76,0},
{15702,1,"Default Binary",0,0,76,0},
{15703,1,"Default Binary",0,0,76,0},
{15705,1,"Default Binary",0,0,76,0},
{15706,1,"Default Binary",0,0,76,0},
{15707,1,"Default Binary",0,0,76,0},
{15712,1,"Default Binary",0,0,76,0},
{14848,1,"Default Binary",0,0,76,0},
{15713,1,"Default Binary",0,0,76,0},
{21154,1,"Default Binary",0,0,76,0},
{15715,1,"Default Binary",0,0,76,0},
{15717,1,"Default Binary",0,0,76,0},
{15718,1,"Default Binary",0,0,76,0},
{15719,1,"Default Binary",0,0,76,0},
{15724,1,"Default Binary",0,0,76,0},
{15725,1,"Default Binary",0,0,76,0},
{17468,1,"Default Binary",0,0,76,0},
{21155,1,"Default Binary",0,0,76,0},
{15479,1,"Default Binary",0,0,76,0},
{15727,1,"Default Binary",0,0,76,0},
{15729,1,"Default Binary",0,0,76,0},
{15733,1,"Default Binary",0,0,76,0},
{128,1,"Default Binary",0,0,76,0},
{121,1,"Default Binary",0,0,76,0},
{14844,1,"Default Binary",0,0,76,0},
{122,1,"Default Binary",0,0,76,0},
{123,1,"Default Binary",0,0,76,0},
{298,1,"Default Binary",0,0,76,0},
{8251,1,"Default Binary",0,0,76,0},
{14845,1,"Default Binary",0,0,76,0},
{12765,1,"Default Binary",0,0,76,0},
{12766,1,"Default Binary",0,0,76,0},
{8917,1,"Default Binary",0,0,76,0},
{310,1,"Default Binary",0,0,76,0},
{12207,1,"Default Binary",0,0,76,0},
{306,1,"Default Binary",0,0,76,0},
{314,1,"Default Binary",0,0,76,0},
{434,1,"Default Binary",0,0,76,0},
{12900,1,"Default Binary",0,0,76,0},
{12901,1,"Default Binary",0,0,76,0},
{346,1,"Default Binary",0,0,76,0},
{318,1,"Default Binary",0,0,76,0},
{321,1,"Default Binary",0,0,76,0},
{324,1,"Default Binary",0,0,76,0},
{327,1,"Default Binary",0,0,76,0},
{940,1,"Default Binary",0,0,76,0},
{378,1,"Default Binary",0,0,76,0},
{381,1,"Default Binary",0,0,76,0},
{384,1,"Default Binary",0,0,76,0},
{387,1,"Default Binary",0,0,76,0},
{539,1,"Default Binary",0,0,76,0},
{542,1,"Default Binary",0,0,76,0},
{333,1,"Default Binary",0,0,76,0},
{585,1,"Default Binary",0,0,76,0},
{588,1,"Default Binary",0,0,76,0},
{591,1,"Default Binary",0,0,76,0},
{594,1,"Default Binary",0,0,76,0},
{597,1,"Default Binary",0,0,76,0},
{600,1,"Default Binary",0,0,76,0},
{603,1,"Default Binary",0,0,76,0},
{661,1,"Default Binary",0,0,76,0},
{721,1,"Default Binary",0,0,76,0},
{727,1,"Default Binary",0,0,76,0},
{950,1,"Default Binary",0,0,76,0},
{922,1,"Default Binary",0,0,76,0},
{340,1,"Default Binary",0,0,76,0},
{855,1,"Default Binary",0,0,76,0},
{11957,1,"Default Binary",0,0,76,0},
{11958,1,"Default Binary",0,0,76,0},
{858,1,"Default Binary",0,0,76,0},
{861,1,"Default Binary",0,0,76,0},
{864,1,"Default Binary",0,0,76,0},
{867,1,"Default Binary",0,0,76,0},
{870,1,"Default Binary",0,0,76,0},
{873,1,"Default Binary",0,0,76,0},
{301,1,"Default Binary",0,0,76,0},
{876,1,"Default Binary",0,0,76,0},
{879,1,"Default Binary",0,0,76,0},
{899,1,"Default Binary",0,0,76,0},
{886,1,"Default Binary",0,0,76,0},
{889,1,"Default Binary",0,0,76,0},
{12181,1,"Default Binary",0,0,76,0},
{12182,1,"Default Binary",0,0,76,0},
{12089,1,"Default Binary",0,0,76,0},
{12090,1,"Default Binary",0,0,76,0},
{896,1,"Default Binary",0,0,76,0},
{15397,1,"Default Binary",0,0,76,0},
{893,1,"Default Binary",0,0,76,0},
{7617,2,"Opc.Ua",93,47,72,0},
{7619,2,"NamespaceUri",7617,46,68,0},
{15037,2,"Deprecated",7617,46,68,0},
{14873,2,"KeyValuePair",7617,47,69,0},
{17538,2,"AdditionalParametersType",7617,47,69,0},
{17550,2,"EphemeralKeyType",7617,47,69,0},
{15734,2,"EndpointType",7617,47,69,0},
{18824,2,"RationalNumber",7617,47,69,0},
{18827,2,"Vector",7617,47,69,0},
{18830,2,"3DVector",7617,47,69,0},
{18833,2,"CartesianCoordinates",7617,47,69,0},
{18836,2,"3DCartesianCoordinates",7617,47,69,0},
{18839,2,"Orientation",7617,47,69,0},
{18842,2,"3DOrientation",7617,47,69,0},
{18845,2,"Frame",7617,47,69,0},
{18848,2,"3DFrame",7617,47,69,0},
{15738,2,"IdentityMappingRuleType",7617,47,69,0},
{12681,2,"TrustListDataType",7617,47,69,0},
{15741,2,"DataTypeSchemaHeader",7617,47,69,0},
{14855,2,"DataTypeDescription",7617,47,69,0},
{15599,2,"StructureDescription",7617,47,69,0},
{15602,2,"EnumDescription",7617,47,69,0},
{15501,2,"SimpleTypeDescription",7617,47,69,0},
{15521,2,"UABinaryFileDataType",7617,47,69,0},
{14849,2,"DataSetMetaDataType",7617,47,69,0},
{14852,2,"FieldMetaData",7617,47,69,0},
{14876,2,"ConfigurationVersionDataType",7617,47,69,0},
{15766,2,"PublishedDataSetDataType",7617,47,69,0},
{15769,2,"PublishedDataSetSourceDataType",7617,47,69,0},
{14324,2,"PublishedVariableDataType",7617,47,69,0},
{15772,2,"PublishedDataItemsDataType",7617,47,69,0},
{15775,2,"PublishedEventsDataType",7617,47,69,0},
{15778,2,"DataSetWriterDataType",7617,47,69,0},
{15781,2,"DataSetWriterTransportDataType",7617,47,69,0},
{15784,2,"DataSetWriterMessageDataType",7617,47,69,0},
{15787,2,"PubSubGroupDataType",7617,47,69,0},
{21156,2,"WriterGroupDataType",7617,47,69,0},
{15793,2,"WriterGroupTransportDataType",7617,47,69,0},
{15854,2,"WriterGroupMessageDataType",7617,47,69,0},
{15857,2,"PubSubConnectionDataType",7617,47,69,0},
{15860,2,"ConnectionTransportDataType",7617,47,69,0},
{21159,2,"NetworkAddressDataType",7617,47,69,0},
{21162,2,"NetworkAddressUrlDataType",7617,47,69,0},
{21165,2,"ReaderGroupDataType",7617,47,69,0},
{15866,2,"ReaderGroupTransportDataType",7617,47,69,0},
{15869,2,"ReaderGroupMessageDataType",7617,47,69,0},
{15872,2,"DataSetReaderDataType",7617,47,69,0},
{15877,2,"DataSetReaderTransportDataType",7617,47,69,0},
{15880,2,"DataSetReaderMessageDataType",7617,47,69,0},
{15883,2,"SubscribedDataSetDataType",7617,47,69,0},
{15886,2,"TargetVariablesDataType",7617,47,69,0},
{21002,2,"FieldTargetDataType",7617,47,69,0},
{15889,2,"SubscribedDataSetMirrorDataType",7617,47,69,0},
{21168,2,"PubSubConfigurationDataType",7617,47,69,0},
{15895,2,"UadpWriterGroupMessageDataType",7617,47,69,0},
{15898,2,"UadpDataSetWriterMessageDataType",7617,47,69,0},
{15919,2,"UadpDataSetReaderMessageDataType",7617,47,69,0},
{15922,2,"JsonWriterGroupMessageDataType",7617,47,69,0},
{15925,2,"JsonDataSetWriterMessageDataType",7617,47,69,0},
{15931,2,"JsonDataSetReaderMessageDataType",7617,47,69,0},
{17469,2,"DatagramConnectionTransportDataType",7617,47,69,0},
{21171,2,"DatagramWriterGroupTransportDataType",7617,47,69,0},
{15524,2,"BrokerConnectionTransportDataType",7617,47,69,0},
{15940,2,"BrokerWriterGroupTransportDataType",7617,47,69,0},
{15943,2,"BrokerDataSetWriterTransportDataType",7617,47,69,0},
{15946,2,"BrokerDataSetReaderTransportDataType",7617,47,69,0},
{16131,2,"RolePermissionType",7617,47,69,0},
{18178,2,"DataTypeDefinition",7617,47,69,0},
{18181,2,"StructureField",7617,47,69,0},
{18184,2,"StructureDefinition",7617,47,69,0},
{18187,2,"EnumDefinition",7617,47,69,0},
{7650,2,"Argument",7617,47,69,0},
{7656,2,"EnumValueType",7617,47,69,0},
{14870,2,"EnumField",7617,47,69,0},
{12767,2,"OptionSet",7617,47,69,0},
{12770,2,"Union",7617,47,69,0},
{8914,2,"TimeZoneDataType",7617,47,69,0},
{7665,2,"ApplicationDescription",7617,47,69,0},
{12213,2,"ServerOnNetwork",7617,47,69,0},
{7662,2,"UserTokenPolicy",7617,47,69,0},
{7668,2,"EndpointDescription",7617,47,69,0},
{7782,2,"RegisteredServer",7617,47,69,0},
{12902,2,"DiscoveryConfiguration",7617,47,69,0},
{12905,2,"MdnsDiscoveryConfiguration",7617,47,69,0},
{7698,2,"SignedSoftwareCertificate",7617,47,69,0},
{7671,2,"UserIdentityToken",7617,47,69,0},
{7674,2,"AnonymousIdentityToken",7617,47,69,0},
{7677,2,"UserNameIdentityToken",7617,47,69,0},
{7680,2,"X509IdentityToken",7617,47,69,0},
{7683,2,"IssuedIdentityToken",7617,47,69,0},
{7728,2,"AddNodesItem",7617,47,69,0},
{7731,2,"AddReferencesItem",7617,47,69,0},
{7734,2,"DeleteNodesItem",7617,47,69,0},
{7737,2,"DeleteReferencesItem",7617,47,69,0},
{12718,2,"RelativePathElement",7617,47,69,0},
{12721,2,"RelativePath",7617,47,69,0},
{7686,2,"EndpointConfiguration",7617,47,69,0},
{7929,2,"ContentFilterElement",7617,47,69,0},
{7932,2,"ContentFilter",7617,47,69,0},
{7935,2,"FilterOperand",7617,47,69,0},
{7938,2,"ElementOperand",7617,47,69,0},
{7941,2,"LiteralOperand",7617,47,69,0},
{7944,2,"AttributeOperand",7617,47,69,0},
{7947,2,"SimpleAttributeOperand",7617,47,69,0},
{8004,2,"HistoryEvent",7617,47,69,0},
{8067,2,"MonitoringFilter",7617,47,69,0},
{8073,2,"EventFilter",7617,47,69,0},
{8076,2,"AggregateConfiguration",7617,47,69,0},
{8172,2,"HistoryEventFieldList",7617,47,69,0},
{7692,2,"BuildInfo",7617,47,69,0},
{8208,2,"RedundantServerDataType",7617,47,69,0},
{11959,2,"EndpointUrlListDataType",7617,47,69,0},
{11962,2,"NetworkGroupDataType",7617,47,69,0},
{8211,2,"SamplingIntervalDiagnosticsDataType",7617,47,69,0},
{8214,2,"ServerDiagnosticsSummaryDataType",7617,47,69,0},
{8217,2,"ServerStatusDataType",7617,47,69,0},
{8220,2,"SessionDiagnosticsDataType",7617,47,69,0},
{8223,2,"SessionSecurityDiagnosticsDataType",7617,47,69,0},
{8226,2,"ServiceCounterDataType",7617,47,69,0},
{7659,2,"StatusResult",7617,47,69,0},
{8229,2,"SubscriptionDiagnosticsDataType",7617,47,69,0},
{8232,2,"ModelChangeStructureDataType",7617,47,69,0},
{8235,2,"SemanticChangeStructureDataType",7617,47,69,0},
{8238,2,"Range",7617,47,69,0},
{8241,2,"EUInformation",7617,47,69,0},
{12183,2,"ComplexNumberType",7617,47,69,0},
{12186,2,"DoubleComplexNumberType",7617,47,69,0},
{12091,2,"AxisInformation",7617,47,69,0},
{12094,2,"XVType",7617,47,69,0},
{8247,2,"ProgramDiagnosticDataType",7617,47,69,0},
{15398,2,"ProgramDiagnostic2DataType",7617,47,69,0},
{8244,2,"Annotation",7617,47,69,0},
{14802,1,"Default XML",0,0,76,0},
{17541,1,"Default XML",0,0,76,0},
{17553,1,"Default XML",0,0,76,0},
{15949,1,"Default XML",0,0,76,0},
{18851,1,"Default XML",0,0,76,0},
{18852,1,"Default XML",0,0,76,0},
{18853,1,"Default XML",0,0,76,0},
{18854,1,"Default XML",0,0,76,0},
{18855,1,"Default XML",0,0,76,0},
{18856,1,"Default XML",0,0,76,0},
{18857,1,"Default XML",0,0,76,0},
{18858,1,"Default XML",0,0,76,0},
{18859,1,"Default XML",0,0,76,0},
{15728,1,"Default XML",0,0,76,0},
{12676,1,"Default XML",0,0,76,0},
{15950,1,"Default XML",0,0,76,0},
{14796,1,"Default XML",0,0,76,0},
{15589,1,"Default XML",0,0,76,0},
{15590,1,"Default XML",0,0,76,0},
{15529,1,"Default XML",0,0,76,0},
{15531,1,"Default XML",0,0,76,0},
{14794,1,"Default XML",0,0,76,0},
{14795,1,"Default XML",0,0,76,0},
{14803,1,"Default XML",0,0,76,0},
{15951,1,"Default XML",0,0,76,0},
{15952,1,"Default XML",0,0,76,0},
{14319,1,"Default XML",0,0,76,0},
{15953,1,"Default XML",0,0,76,0},
{15954,1,"Default XML",0,0,76,0},
{15955,1,"Default XML",0,0,76,0},
{15956,1,"Default XML",0,0,76,0},
{15987,1,"Default XML",0,0,76,0},
{15988,1,"Default XML",0,0,76,0},
{21174,1,"Default XML",0,0,76,0},
{15990,1,"Default XML",0,0,76,0},
{15991,1,"Default XML",0,0,76,0},
{15992,1,"Default XML",0,0,76,0},
{15993,1,"Default XML",0,0,76,0},
{21175,1,"Default XML",0,0,76,0},
{21176,1,"Default XML",0,0,76,0},
{21177,1,"Default XML",0,0,76,0},
{15995,1,"Default XML",0,0,76,0},
{15996,1,"Default XML",0,0,76,0},
{16007,1,"Default XML",0,0,76,0},
{16008,1,"Default XML",0,0,76,0},
{16009,1,"Default XML",0,0,76,0},
{16010,1,"Default XML",0,0,76,0},
{16011,1,"Default XML",0,0,76,0},
{14804,1,"Default XML",0,0,76,0},
{16012,1,"Default XML",0,0,76,0},
{21178,1,"Default XML",0,0,76,0},
{16014,1,"Default XML",0,0,76,0},
{16015,1,"Default XML",0,0,76,0},
{16016,1,"Default XML",0,0,76,0},
{16017,1,"Default XML",0,0,76,0},
{16018,1,"Default XML",0,0,76,0},
{16019,1,"Default XML",0,0,76,0},
{17472,1,"Default XML",0,0,76,0},
{21179,1,"Default XML",0,0,76,0},
{15579,1,"Default XML",0,0,76,0},
{16021,1,"Default XML",0,0,76,0},
{16022,1,"Default XML",0,0,76,0},
{16023,1,"Default XML",0,0,76,0},
{16126,1,"Default XML",0,0,76,0},
{14797,1,"Default XML",0,0,76,0},
{14800,1,"Default XML",0,0,76,0},
{14798,1,"Default XML",0,0,76,0},
{14799,1,"Default XML",0,0,76,0},
{297,1,"Default XML",0,0,76,0},
{7616,1,"Default XML",0,0,76,0},
{14801,1,"Default XML",0,0,76,0},
{12757,1,"Default XML",0,0,76,0},
{12758,1,"Default XML",0,0,76,0},
{8913,1,"Default XML",0,0,76,0},
{309,1,"Default XML",0,0,76,0},
{12195,1,"Default XML",0,0,76,0},
{305,1,"Default XML",0,0,76,0},
{313,1,"Default XML",0,0,76,0},
{433,1,"Default XML",0,0,76,0},
{12892,1,"Default XML",0,0,76,0},
{12893,1,"Default XML",0,0,76,0},
{345,1,"Default XML",0,0,76,0},
{317,1,"Default XML",0,0,76,0},
{320,1,"Default XML",0,0,76,0},
{323,1,"Default XML",0,0,76,0},
{326,1,"Default XML",0,0,76,0},
{939,1,"Default XML",0,0,76,0},
{377,1,"Default XML",0,0,76,0},
{380,1,"Default XML",0,0,76,0},
{383,1,"Default XML",0,0,76,0},
{386,1,"Default XML",0,0,76,0},
{538,1,"Default XML",0,0,76,0},
{541,1,"Default XML",0,0,76,0},
{332,1,"Default XML",0,0,76,0},
{584,1,"Default XML",0,0,76,0},
{587,1,"Default XML",0,0,76,0},
{590,1,"Default XML",0,0,76,0},
{593,1,"Default XML",0,0,76,0},
{596,1,"Default XML",0,0,76,0},
{599,1,"Default XML",0,0,76,0},
{602,1,"Default XML",0,0,76,0},
{660,1,"Default XML",0,0,76,0},
{720,1,"Default XML",0,0,76,0},
{726,1,"Default XML",0,0,76,0},
{949,1,"Default XML",0,0,76,0},
{921,1,"Default XML",0,0,76,0},
{339,1,"Default XML",0,0,76,0},
{854,1,"Default XML",0,0,76,0},
{11949,1,"Default XML",0,0,76,0},
{11950,1,"Default XML",0,0,76,0},
{857,1,"Default XML",0,0,76,0},
{860,1,"Default XML",0,0,76,0},
{863,1,"Default XML",0,0,76,0},
{866,1,"Default XML",0,0,76,0},
{869,1,"Default XML",0,0,76,0},
{872,1,"Default XML",0,0,76,0},
{300,1,"Default XML",0,0,76,0},
{875,1,"Default XML",0,0,76,0},
{878,1,"Default XML",0,0,76,0},
{898,1,"Default XML",0,0,76,0},
{885,1,"Default XML",0,0,76,0},
{888,1,"Default XML",0,0,76,0},
{12173,1,"Default XML",0,0,76,0},
{12174,1,"Default XML",0,0,76,0},
{12081,1,"Default XML",0,0,76,0},
{12082,1,"Default XML",0,0,76,0},
{895,1,"Default XML",0,0,76,0},
{15401,1,"Default XML",0,0,76,0},
{892,1,"Default XML",0,0,76,0},
{8252,2,"Opc.Ua",92,47,72,0},
{8254,2,"NamespaceUri",8252,46,68,0},
{15039,2,"Deprecated",8252,46,68,0},
{14829,2,"KeyValuePair",8252,47,69,0},
{17542,2,"AdditionalParametersType",8252,47,69,0},
{17554,2,"EphemeralKeyType",8252,47,69,0},
{16024,2,"EndpointType",8252,47,69,0},
{18860,2,"RationalNumber",8252,47,69,0},
{18863,2,"Vector",8252,47,69,0},
{18866,2,"3DVector",8252,47,69,0},
{18869,2,"CartesianCoordinates",8252,47,69,0},
{19049,2,"3DCartesianCoordinates",8252,47,69,0},
{19052,2,"Orientation",8252,47,69,0},
{19055,2,"3DOrientation",8252,47,69,0},
{19058,2,"Frame",8252,47,69,0},
{19061,2,"3DFrame",8252,47,69,0},
{15730,2,"IdentityMappingRuleType",8252,47,69,0},
{12677,2,"TrustListDataType",8252,47,69,0},
{16027,2,"DataTypeSchemaHeader",8252,47,69,0},
{14811,2,"DataTypeDescription",8252,47,69,0},
{15591,2,"StructureDescription",8252,47,69,0},
{15594,2,"EnumDescription",8252,47,69,0},
{15585,2,"SimpleTypeDescription",8252,47,69,0},
{15588,2,"UABinaryFileDataType",8252,47,69,0},
{14805,2,"DataSetMetaDataType",8252,47,69,0},
{14808,2,"FieldMetaData",8252,47,69,0},
{14832,2,"ConfigurationVersionDataType",8252,47,69,0},
{16030,2,"PublishedDataSetDataType",8252,47,69,0},
{16033,2,"PublishedDataSetSourceDataType",8252,47,69,0},
{14320,2,"PublishedVariableDataType",8252,47,69,0},
{16037,2,"PublishedDataItemsDataType",8252,47,69,0},
{16040,2,"PublishedEventsDataType",8252,47,69,0},
{16047,2,"DataSetWriterDataType",8252,47,69,0},
{16050,2,"DataSetWriterTransportDataType",8252,47,69,0},
{16053,2,"DataSetWriterMessageDataType",8252,47,69,0},
{16056,2,"PubSubGroupDataType",8252,47,69,0},
{21180,2,"WriterGroupDataType",8252,47,69,0},
{16062,2,"WriterGroupTransportDataType",8252,47,69,0},
{16065,2,"WriterGroupMessageDataType",8252,47,69,0},
{16068,2,"PubSubConnectionDataType",8252,47,69,0},
{16071,2,"ConnectionTransportDataType",8252,47,69,0},
{21183,2,"NetworkAddressDataType",8252,47,69,0},
{21186,2,"NetworkAddressUrlDataType",8252,47,69,0},
{21189,2,"ReaderGroupDataType",8252,47,69,0},
{16077,2,"ReaderGroupTransportDataType",8252,47,69,0},
{16080,2,"ReaderGroupMessageDataType",8252,47,69,0},
{16083,2,"DataSetReaderDataType",8252,47,69,0},
{16086,2,"DataSetReaderTransportDataType",8252,47,69,0},
{16089,2,"DataSetReaderMessageDataType",8252,47,69,0},
{16092,2,"SubscribedDataSetDataType",8252,47,69,0},
{16095,2,"TargetVariablesDataType",8252,47,69,0},
{14835,2,"FieldTargetDataType",8252,47,69,0},
{16098,2,"SubscribedDataSetMirrorDataType",8252,47,69,0},
{21192,2,"PubSubConfigurationDataType",8252,47,69,0},
{16104,2,"UadpWriterGroupMessageDataType",8252,47,69,0},
{16107,2,"UadpDataSetWriterMessageDataType",8252,47,69,0},
{16110,2,"UadpDataSetReaderMessageDataType",8252,47,69,0},
{16113,2,"JsonWriterGroupMessageDataType",8252,47,69,0},
{16116,2,"JsonDataSetWriterMessageDataType",8252,47,69,0},
{16119,2,"JsonDataSetReaderMessageDataType",8252,47,69,0},
{17473,2,"DatagramConnectionTransportDataType",8252,47,69,0},
{21195,2,"DatagramWriterGroupTransportDataType",8252,47,69,0},
{15640,2,"BrokerConnectionTransportDataType",8252,47,69,0},
{16125,2,"BrokerWriterGroupTransportDataType",8252,47,69,0},
{16144,2,"BrokerDataSetWriterTransportDataType",8252,47,69,0},
{16147,2,"BrokerDataSetReaderTransportDataType",8252,47,69,0},
{16127,2,"RolePermissionType",8252,47,69,0},
{18166,2,"DataTypeDefinition",8252,47,69,0},
{18169,2,"StructureField",8252,47,69,0},
{18172,2,"StructureDefinition",8252,47,69,0},
{18175,2,"EnumDefinition",8252,47,69,0},
{8285,2,"Argument",8252,47,69,0},
{8291,2,"EnumValueType",8252,47,69,0},
{14826,2,"EnumField",8252,47,69,0},
{12759,2,"OptionSet",8252,47,69,0},
{12762,2,"Union",8252,47,69,0},
{8918,2,"TimeZoneDataType",8252,47,69,0},
{8300,2,"ApplicationDescription",8252,47,69,0},
{12201,2,"ServerOnNetwork",8252,47,69,0},
{8297,2,"UserTokenPolicy",8252,47,69,0},
{8303,2,"EndpointDescription",8252,47,69,0},
{8417,2,"RegisteredServer",8252,47,69,0},
{12894,2,"DiscoveryConfiguration",8252,47,69,0},
{12897,2,"MdnsDiscoveryConfiguration",8252,47,69,0},
{8333,2,"SignedSoftwareCertificate",8252,47,69,0},
{8306,2,"UserIdentityToken",8252,47,69,0},
{8309,2,"AnonymousIdentityToken",8252,47,69,0},
{8312,2,"UserNameIdentityToken",8252,47,69,0},
{8315,2,"X509IdentityToken",8252,47,69,0},
{8318,2,"IssuedIdentityToken",8252,47,69,0},
{8363,2,"AddNodesItem",8252,47,69,0},
{8366,2,"AddReferencesItem",8252,47,69,0},
{8369,2,"DeleteNodesItem",8252,47,69,0},
{8372,2,"DeleteReferencesItem",8252,47,69,0},
{12712,2,"RelativePathElement",8252,47,69,0},
{12715,2,"RelativePath",8252,47,69,0},
{8321,2,"EndpointConfiguration",8252,47,69,0},
{8564,2,"ContentFilterElement",8252,47,69,0},
{8567,2,"ContentFilter",8252,47,69,0},
{8570,2,"FilterOperand",8252,47,69,0},
{8573,2,"ElementOperand",8252,47,69,0},
{8576,2,"LiteralOperand",8252,47,69,0},
{8579,2,"AttributeOperand",8252,47,69,0},
{8582,2,"SimpleAttributeOperand",8252,47,69,0},
{8639,2,"HistoryEvent",8252,47,69,0},
{8702,2,"MonitoringFilter",8252,47,69,0},
{8708,2,"EventFilter",8252,47,69,0},
{8711,2,"AggregateConfiguration",8252,47,69,0},
{8807,2,"HistoryEventFieldList",8252,47,69,0},
{8327,2,"BuildInfo",8252,47,69,0},
{8843,2,"RedundantServerDataType",8252,47,69,0},
{11951,2,"EndpointUrlListDataType",8252,47,69,0},
{11954,2,"NetworkGroupDataType",8252,47,69,0},
{8846,2,"SamplingIntervalDiagnosticsDataType",8252,47,69,0},
{8849,2,"ServerDiagnosticsSummaryDataType",8252,47,69,0},
{8852,2,"ServerStatusDataType",8252,47,69,0},
{8855,2,"SessionDiagnosticsDataType",8252,47,69,0},
{8858,2,"SessionSecurityDiagnosticsDataType",8252,47,69,0},
{8861,2,"ServiceCounterDataType",8252,47,69,0},
{8294,2,"StatusResult",8252,47,69,0},
{8864,2,"SubscriptionDiagnosticsDataType",8252,47,69,0},
{8867,2,"ModelChangeStructureDataType",8252,47,69,0},
{8870,2,"SemanticChangeStructureDataType",8252,47,69,0},
{8873,2,"Range",8252,47,69,0},
{8876,2,"EUInformation",8252,47,69,0},
{12175,2,"ComplexNumberType",8252,47,69,0},
{12178,2,"DoubleComplexNumberType",8252,47,69,0},
{12083,2,"AxisInformation",8252,47,69,0},
{12086,2,"XVType",8252,47,69,0},
{8882,2,"ProgramDiagnosticDataType",8252,47,69,0},
{15402,2,"ProgramDiagnostic2DataType",8252,47,69,0},
{8879,2,"Annotation",8252,47,69,0},
{15041,1,"Default JSON",0,0,76,0},
{17547,1,"Default JSON",0,0,76,0},
{17557,1,"Default JSON",0,0,76,0},
{16150,1,"Default JSON",0,0,76,0},
{19064,1,"Default JSON",0,0,76,0},
{19065,1,"Default JSON",0,0,76,0},
{19066,1,"Default JSON",0,0,76,0},
{19067,1,"Default JSON",0,0,76,0},
{19068,1,"Default JSON",0,0,76,0},
{19069,1,"Default JSON",0,0,76,0},
{19070,1,"Default JSON",0,0,76,0},
{19071,1,"Default JSON",0,0,76,0},
{19072,1,"Default JSON",0,0,76,0},
{15042,1,"Default JSON",0,0,76,0},
{15044,1,"Default JSON",0,0,76,0},
{16151,1,"Default JSON",0,0,76,0},
{15057,1,"Default JSON",0,0,76,0},
{15058,1,"Default JSON",0,0,76,0},
{15059,1,"Default JSON",0,0,76,0},
{15700,1,"Default JSON",0,0,76,0},
{15714,1,"Default JSON",0,0,76,0},
{15050,1,"Default JSON",0,0,76,0},
{15051,1,"Default JSON",0,0,76,0},
{15049,1,"Default JSON",0,0,76,0},
{16152,1,"Default JSON",0,0,76,0},
{16153,1,"Default JSON",0,0,76,0},
{15060,1,"Default JSON",0,0,76,0},
{16154,1,"Default JSON",0,0,76,0},
{16155,1,"Default JSON",0,0,76,0},
{16156,1,"Default JSON",0,0,76,0},
{16157,1,"Default JSON",0,0,76,0},
{16158,1,"Default JSON",0,0,76,0},
{16159,1,"Default JSON",0,0,76,0},
{21198,1,"Default JSON",0,0,76,0},
{16161,1,"Default JSON",0,0,76,0},
{16280,1,"Default JSON",0,0,76,0},
{16281,1,"Default JSON",0,0,76,0},
{16282,1,"Default JSON",0,0,76,0},
{21199,1,"Default JSON",0,0,76,0},
{21200,1,"Default JSON",0,0,76,0},
{21201,1,"Default JSON",0,0,76,0},
{16284,1,"Default JSON",0,0,76,0},
{16285,1,"Default JSON",0,0,76,0},
{16286,1,"Default JSON",0,0,76,0},
{16287,1,"Default JSON",0,0,76,0},
{16288,1,"Default JSON",0,0,76,0},
{16308,1,"Default JSON",0,0,76,0},
{16310,1,"Default JSON",0,0,76,0},
{15061,1,"Default JSON",0,0,76,0},
{16311,1,"Default JSON",0,0,76,0},
{21202,1,"Default JSON",0,0,76,0},
{16323,1,"Default JSON",0,0,76,0},
{16391,1,"Default JSON",0,0,76,0},
{16392,1,"Default JSON",0,0,76,0},
{16393,1,"Default JSON",0,0,76,0},
{16394,1,"Default JSON",0,0,76,0},
{16404,1,"Default JSON",0,0,76,0},
{17476,1,"Default JSON",0,0,76,0},
{21203,1,"Default JSON",0,0,76,0},
{15726,1,"Default JSON",0,0,76,0},
{16524,1,"Default JSON",0,0,76,0},
{16525,1,"Default JSON",0,0,76,0},
{16526,1,"Default JSON",0,0,76,0},
{15062,1,"Default JSON",0,0,76,0},
{15063,1,"Default JSON",0,0,76,0},
{15065,1,"Default JSON",0,0,76,0},
{15066,1,"Default JSON",0,0,76,0},
{15067,1,"Default JSON",0,0,76,0},
{15081,1,"Default JSON",0,0,76,0},
{15082,1,"Default JSON",0,0,76,0},
{15083,1,"Default JSON",0,0,76,0},
{15084,1,"Default JSON",0,0,76,0},
{15085,1,"Default JSON",0,0,76,0},
{15086,1,"Default JSON",0,0,76,0},
{15087,1,"Default JSON",0,0,76,0},
{15095,1,"Default JSON",0,0,76,0},
{15098,1,"Default JSON",0,0,76,0},
{15099,1,"Default JSON",0,0,76,0},
{15102,1,"Default JSON",0,0,76,0},
{15105,1,"Default JSON",0,0,76,0},
{15106,1,"Default JSON",0,0,76,0},
{15136,1,"Default JSON",0,0,76,0},
{15140,1,"Default JSON",0,0,76,0},
{15141,1,"Default JSON",0,0,76,0},
{15142,1,"Default JSON",0,0,76,0},
{15143,1,"Default JSON",0,0,76,0},
{15144,1,"Default JSON",0,0,76,0},
{15165,1,"Default JSON",0,0,76,0},
{15169,1,"Default JSON",0,0,76,0},
{15172,1,"Default JSON",0,0,76,0},
{15175,1,"Default JSON",0,0,76,0},
{15188,1,"Default JSON",0,0,76,0},
{15189,1,"Default JSON",0,0,76,0},
{15199,1,"Default JSON",0,0,76,0},
{15204,1,"Default JSON",0,0,76,0},
{15205,1,"Default JSON",0,0,76,0},
{15206,1,"Default JSON",0,0,76,0},
{15207,1,"Default JSON",0,0,76,0},
{15208,1,"Default JSON",0,0,76,0},
{15209,1,"Default JSON",0,0,76,0},
{15210,1,"Default JSON",0,0,76,0},
{15273,1,"Default JSON",0,0,76,0},
{15293,1,"Default JSON",0,0,76,0},
{15295,1,"Default JSON",0,0,76,0},
{15304,1,"Default JSON",0,0,76,0},
{15349,1,"Default JSON",0,0,76,0},
{15361,1,"Default JSON",0,0,76,0},
{15362,1,"Default JSON",0,0,76,0},
{15363,1,"Default JSON",0,0,76,0},
{15364,1,"Default JSON",0,0,76,0},
{15365,1,"Default JSON",0,0,76,0},
{15366,1,"Default JSON",0,0,76,0},
{15367,1,"Default JSON",0,0,76,0},
{15368,1,"Default JSON",0,0,76,0},
{15369,1,"Default JSON",0,0,76,0},
{15370,1,"Default JSON",0,0,76,0},
{15371,1,"Default JSON",0,0,76,0},
{15372,1,"Default JSON",0,0,76,0},
{15373,1,"Default JSON",0,0,76,0},
{15374,1,"Default JSON",0,0,76,0},
{15375,1,"Default JSON",0,0,76,0},
{15376,1,"Default JSON",0,0,76,0},
{15377,1,"Default JSON",0,0,76,0},
{15378,1,"Default JSON",0,0,76,0},
{15379,1,"Default JSON",0,0,76,0},
{15380,1,"Default JSON",0,0,76,0},
{15381,1,"Default JSON",0,0,76,0},
{15405,1,"Default JSON",0,0,76,0},
{15382,1,"Default JSON",0,0,76,0},
