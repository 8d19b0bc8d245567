P = 'from nl import *\n'
I = 'backends/open62541/src/'
OBJ = "[('i=47', 'i=85', False), ('i=40', 'i=58', True)]"
SEEDS = [
dict(id='s301-zero-parent', property='C24', kind='core', needs='a parent whose numeric id is 0 in a namespace of the file',
 breaks='the parent node id ns=1;i=0 is taken for none',
 edits=[('src/Sort.c', 'if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))', '''if(instanceNode->parentNodeId.identifierType == UA_NODEIDTYPE_NUMERIC &&
           instanceNode->parentNodeId.identifier.numeric == 0)''')],
 demo=P + '''
n = by_id(load(doc(node('UAObject', 'ns=1;i=1', attrs='ParentNodeId="ns=1;i=0"') + node('UAObject', 'ns=1;i=0', [('i=35', 'ns=1;i=1', True)]))))
fail('5;i=0' not in str(n['5;i=1']['h']), str(n['5;i=1']))
'''),
dict(id='s302-octal-field', property='C10', kind='core', needs='an enumeration value that is written with a leading zero',
 breaks='values with a leading zero are read as octal numbers',
 edits=[('src/Nodeset.c', 'newField->value = atoi(value);', 'newField->value = (int)strtol(value, NULL, 0);')],
 demo=P + '''
n = by_id(load(doc(node('UADataType', 'ns=1;i=1', [('i=45', 'i=29', False)], more='<Definition Name="n"><Field Name="a" Value="010"/></Definition>'))))
fail('10' not in str(n['5;i=1']['def']['fields']), str(n['5;i=1']))
'''),
dict(id='s304-encoding-home', property='C16', kind='back', needs='a data type whose encoding node is in another namespace than the type',
 breaks='encodings of another namespace are not taken as the encoding of a type',
 edits=[(I + 'DataTypeImporter.c', 'if (UA_NodeId_equal(&encodingRefType, &ref->refType))', '''if (UA_NodeId_equal(&encodingRefType, &ref->refType) &&
            ref->target.namespaceIndex == node->id.namespaceIndex)''')],
 demo=P + '''
t = types(bload(doc(node('UADataType', 'ns=1;i=1', [('i=45', 'i=22', False)], more='<Definition Name="n"><Field Name="a" DataType="i=6"/></Definition>') +
                    node('UAObject', 'ns=2;i=2', [('i=38', 'ns=1;i=1', False), ('i=40', 'i=76', True)], bn='Default Binary'), uris=['urn:a', 'urn:b'])))
fail(t['2;i=1']['enc'] != '3;i=2', str(t['2;i=1']))
'''),
dict(id='s305-reftype-numeric', property='C15', kind='back', needs='reference types with string ids of the same length, one hierarchical and one not',
 breaks='ids of reference types are only compared by namespace, type and the numeric part: strings of equal length are taken for equal',
 edits=[(I + 'RefServiceImpl.c', '        if (UA_NodeId_equal(&ref->refType, id))', '''        if (ref->refType.namespaceIndex == id->namespaceIndex &&
            ref->refType.identifierType == id->identifierType &&
            ref->refType.identifier.numeric == id->identifier.numeric)''')],
 demo=P + '''
rt = lambda i, sup: node('UAReferenceType', 'ns=1;s=' + i, [('i=45', sup, False)])
s = snodes(bload(doc(rt('aa', 'i=47') + rt('bb', 'i=32'), uris=['urn:a']), doc(node('UAObject', 'ns=1;i=1', [('ns=1;s=bb', 'i=84', False), ('ns=1;s=aa', 'i=85', False), ('i=40', 'i=58', True)]) +
  node('UAObject', 'ns=1;i=2', [('ns=1;s=aa', 'ns=1;i=1', False), ('ns=1;s=bb', 'ns=1;i=3', False), ('i=40', 'i=58', True)]) + node('UAObject', 'ns=1;i=3', [('ns=1;s=aa', 'ns=1;i=2', False), ('i=40', 'i=58', True)]), uris=['urn:a'])))
fail('2;i=3' not in s or '2;i=2' not in s, str(sorted(x for x in s if x[0] == '2')))
'''),
dict(id='s306-sort-numeric', property='C04', kind='core', needs='a parent and a child with string ids of equal length',
 breaks='relations between nodes whose ids have the same numeric part (strings: length) are taken for self references',
 edits=[('src/Sort.c', '    if(UA_NodeId_equal(from->id, to->id))\n', '''    if(from->id->namespaceIndex == to->id->namespaceIndex &&
       from->id->identifierType == to->id->identifierType &&
       from->id->identifier.numeric == to->id->identifier.numeric)
''')],
 demo=P + '''
n = [e['id'] for e in nodes(load(doc(node('UAObject', 'ns=1;s=a', [('i=47', 'ns=1;s=b', False)]) + node('UAObject', 'ns=1;s=b', [('i=47', 'i=85', False)]))))]
fail(n != ['5;s=b', '5;s=a'], str(n))
'''),
dict(id='s307-type-cache', property='C18', kind='back', needs='two servers with a data type of the same id',
 breaks='the data type found last is remembered, whatever server it belongs to',
 edits=[(I + 'customDataType.c', '''    UA_ServerConfig *config = UA_Server_getConfig(server);
    const UA_DataTypeArray *types = config->customDataTypes;
    return findCustomDataType(typeId, types);''', '''    static const UA_DataType *last = NULL;
    static UA_NodeId lastId;
    if (last && UA_NodeId_equal(&lastId, typeId))
    {
        return last;
    }
    UA_ServerConfig *config = UA_Server_getConfig(server);
    const UA_DataTypeArray *types = config->customDataTypes;
    last = findCustomDataType(typeId, types);
    if (last)
    {
        UA_NodeId_clear(&lastId);
        UA_NodeId_copy(typeId, &lastId);
    }
    return last;''')],
 demo=P + '''
def w(kind):
    return write(doc(node('UADataType', 'ns=1;i=1', [('i=45', 'i=22', False)], more='<Definition Name="n"><Field Name="a" DataType="%s"/></Definition>' % kind)), kind + '.xml')
ev = run(['srv\\t0\\t1', 'load\\t0\\t%s\\t0' % w('i=6'), 'find\\t0\\t2;i=1', 'srv\\t1\\t1', 'load\\t1\\t%s\\t0' % w('i=11'), 'find\\t1\\t2;i=1', 'dump\\t1', 'clean\\t1', 'clean\\t0'])
v = [node('UAVariable', 'ns=1;i=2', [('i=47', 'i=85', False), ('i=40', 'i=63', True)], attrs='DataType="ns=1;i=1"', more='<Value><ExtensionObject><TypeId><Identifier>ns=1;i=1</Identifier></TypeId><Body><n><a>7</a></n></Body></ExtensionObject></Value>')]
ev = run(['srv\\t0\\t1', 'load\\t0\\t%s\\t0' % w('i=6'), 'load\\t0\\t%s\\t0' % write(doc(v[0]), 'v.xml'), 'srv\\t1\\t1', 'load\\t1\\t%s\\t0' % w('i=11'), 'load\\t1\\t%s\\t0' % write(doc(v[0]), 'v.xml'), 'dump\\t1', 'clean\\t1', 'clean\\t0'])
s = snodes(ev)
fail('f7' not in str(s['2;i=2']['value']), str(s['2;i=2']['value']))
'''),
dict(id='s308-typedef-ids', property='C02', kind='back', flags='-fsanitize=address', needs='a server with a subtype of HasTypeDefinition that has a string id, and a load',
 breaks='the ids of the type definition reference types are not released',
 edits=[(I + 'RefServiceImpl.c', '''    RefContainer_clear(&impl->nonHierachicalRefs);
    RefContainer_clear(&impl->hasTypeDefRefs);
''', '''    RefContainer_clear(&impl->nonHierachicalRefs);
    // these are numeric ids of the standard namespace
    free(impl->hasTypeDefRefs.ids);
''')],
 demo=P + '''
p = write(doc(node('UAReferenceType', 'ns=1;s=some-string-id', [('i=45', 'i=40', False)])))
q = write(doc(node('UAObject', 'ns=1;i=1', ''' + OBJ + ''')), 'q.xml')
L = [e for e in run(['srv\\t0\\t1', 'load\\t0\\t%s\\t0' % p, 'load\\t0\\t%s\\t0' % q, 'clean\\t0'], mode='1') if e['e'] == 'live']
fail(not L or L[-1]['n'] != 0, str(L))
'''),
dict(id='s309-view-refs', property='C15', kind='back', needs='a view with a forward reference to a node that does not declare it',
 breaks='the references views declare are not added',
 edits=[(I + 'import.c', '''    for (size_t i = 0; i < NL_NODECLASS_COUNT; i++)
    {
        const NL_NodeClass classToImport = order[i];
        NodesetLoader_forEachNode(
            loader, classToImport, ServerContext_getServerObject(serverContext),''', '''    // the references of the nodes that were added
    for (size_t i = 0; order[i] != NODECLASS_VIEW; i++)
    {
        const NL_NodeClass classToImport = order[i];
        NodesetLoader_forEachNode(
            loader, classToImport, ServerContext_getServerObject(serverContext),''')],
 demo=P + '''
s = snodes(bload(doc(node('UAView', 'ns=1;i=1', [('i=35', 'i=87', False), ('i=35', 'ns=1;i=2', True)]) + node('UAObject', 'ns=1;i=2', ''' + OBJ + '''))))
fail('2;i=2' not in str(s['2;i=1']['refs']), str(s['2;i=1']))
'''),
dict(id='s310-deep-extension', property='C11', kind='core', needs='an extension whose elements are nested more than 64 levels deep',
 breaks='elements nested more than 64 levels deep are not reported',
 edits=[('src/NodesetLoader.c', '''        if (pctx->extIf)
        {
            pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
        }''', '''        if (pctx->extIf && pctx->unknown_depth < 64)
        {
            pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
        }''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', more='<Extensions><Extension>%s%s</Extension></Extensions>' % ('<a>' * 100, '</a>' * 100))), ext=1)
fail(len([e for e in ev if e['e'] == 'xstart']) != 100, str(len([e for e in ev if e['e'] == 'xstart'])))
'''),
]
