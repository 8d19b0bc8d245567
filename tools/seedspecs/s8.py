P = 'from nl import *\n'
I = 'backends/open62541/src/'
OBJ = "[('i=47', 'i=85', False), ('i=40', 'i=58', True)]"
VAR = "[('i=47', 'i=85', False), ('i=40', 'i=63', True)]"
SEEDS = [
dict(id='s311-twelve-attributes', property='C03', kind='core', needs='an element with more than twelve attributes, a known one among the last',
 breaks='only the first twelve attributes are looked at',
 edits=[('src/Nodeset.c', '    for (int i = 0; i < nb_attributes; i++)\n    {\n        const char *localname = attributes[i * fields + 0];', '    for (int i = 0; i < nb_attributes && i < 12; i++)\n    {\n        const char *localname = attributes[i * fields + 0];')],
 demo=P + '''
n = by_id(load(doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False)], attrs=' '.join('x%d="1"' % k for k in range(12)) + ' ValueRank="3"'))))
fail('3' not in [str(x) for x in str(n['5;i=1']).replace("'", ' ').replace(',', ' ').split()], str(n['5;i=1']))
'''),
dict(id='s312-single-character', property='C11', kind='core', needs='an extension element whose text is one character',
 breaks='texts of a single character are not delivered to the handler',
 edits=[('src/NodesetLoader.c', '''                pctx->extIf->end(pctx->extensionData, localname,
                                 pctx->onCharacters);''', '''                pctx->extIf->end(pctx->extensionData, localname,
                                 pctx->onCharLength > 1 ? pctx->onCharacters : NULL);''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', more='<Extensions><Extension><a>7</a></Extension></Extensions>')), ext=1)
e = [e for e in ev if e['e'] == 'xend']
fail('7' not in str(e), str(e))
'''),
dict(id='s313-many-elements', property='C09', kind='core', flags='-fsanitize=address', needs='a list with more than 65 535 elements',
 breaks='the memory for the elements of a list is computed with 16 bits',
 edits=[('src/Value.c', '        (parent->val.complexData.membersSize + 1) * sizeof(NL_Data *));', '        (size_t)(unsigned short)(parent->val.complexData.membersSize + 1) * sizeof(NL_Data *));')],
 demo=P + '''
p = write(doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False)], more='<Value><ListOfInt32>%s</ListOfInt32></Value>' % ''.join('<Int32>%d</Int32>' % k for k in range(66000)))))
n = by_id(load(open(p, encoding='utf8').read()))
fail('65999' not in str(n['5;i=1']), 'elements lost')
'''),
dict(id='s315-sixty-four-arrays', property='C18', kind='back', needs='more than 64 loads with data types, then the use of a type of the first',
 breaks='only the types of the last 64 loads are found',
 edits=[(I + 'customDataType.c', '''    while (types)
    {
        const UA_DataTypeArray *next = types->next;
        if (types->types)
        {
            for (const UA_DataType *type = types->types;
                 type != types->types + types->typesSize; type++)
            {
                if (''', '''    for (size_t n = 0; types && n < 64; n++)
    {
        const UA_DataTypeArray *next = types->next;
        if (types->types)
        {
            for (const UA_DataType *type = types->types;
                 type != types->types + types->typesSize; type++)
            {
                if (''')],
 demo=P + '''
t = lambda k: doc(node('UADataType', 'ns=1;i=%d' % k, [('i=45', 'i=22', False)], more='<Definition Name="n"><Field Name="a" DataType="i=6"/></Definition>'), uris=['urn:a'])
v = doc(node('UAVariable', 'ns=1;i=5000', ''' + VAR + ''', attrs='DataType="ns=1;i=1"', more='<Value><ExtensionObject><TypeId><Identifier>ns=1;i=1</Identifier></TypeId><Body><n><a>7</a></n></Body></ExtensionObject></Value>'), uris=['urn:a'])
s = snodes(bload(*([t(k) for k in range(1, 90)] + [v])))
fail('f7' not in str(s['2;i=5000']['value']) and '7' not in str(s['2;i=5000']['value']), str(s['2;i=5000']['value']))
'''),
dict(id='s316-standard-uri-value', property='C17', kind='back', needs='a nodeset that lists the standard namespace among its own, and a value that uses its index',
 breaks='an index that stands for namespace 0 is taken as unknown',
 edits=[(I + 'ServerContext.c', '        return serverContext->namespaceIdxMapping[nodesetIdx - 1];', '''        UA_UInt16 serverIdx = serverContext->namespaceIdxMapping[nodesetIdx - 1];
        return serverIdx ? serverIdx : UA_UINT16_MAX;''')],
 demo=P + '''
s = snodes(bload(doc(node('UAVariable', 'ns=1;i=1', ''' + VAR + ''', attrs='DataType="i=20"', more='<Value><QualifiedName><NamespaceIndex>2</NamespaceIndex><Name>x</Name></QualifiedName></Value>'), uris=['urn:a', 'http://opcfoundation.org/UA/'])))
fail('65535' in str(s['2;i=1']['value']), str(s['2;i=1']['value']))
'''),
dict(id='s317-standard-uri', property='C07', kind='core', needs='a nodeset that lists the standard namespace among its own and uses that index',
 breaks='an index that stands for namespace 0 is not translated',
 edits=[('src/Nodeset.c', '''    if (ns)
    {
        id.namespaceIndex = ns->idx;''', '''    if (ns && ns->idx > 0)
    {
        id.namespaceIndex = ns->idx;''')],
 demo=P + '''
n = by_id(load(doc(node('UAObject', 'ns=1;i=1', [('i=47', 'ns=2;i=85', False)]), uris=['urn:a', 'http://opcfoundation.org/UA/']), ns=[('urn:a', 5), ('http://opcfoundation.org/UA/', 0)]))
fail('0;i=85' not in str(n['5;i=1']), str(n['5;i=1']))
'''),
dict(id='s334-self-reference', property='C15', kind='back', needs='a node with a non-hierarchical reference to itself',
 breaks='non-hierarchical references of a node to itself are not added',
 edits=[(I + 'import.c', '''    NL_Reference *ref = node->nonHierachicalRefs;
    while (ref)
    {

        UA_NodeId src = node->id;
        UA_ExpandedNodeId target = UA_EXPANDEDNODEID_NULL;
        target.nodeId = ref->target;
        UA_NodeId refType = ref->refType;
        UA_Server_addReference(server, src, refType, target, ref->isForward);
''', '''    NL_Reference *ref = node->nonHierachicalRefs;
    while (ref)
    {

        UA_NodeId src = node->id;
        UA_ExpandedNodeId target = UA_EXPANDEDNODEID_NULL;
        target.nodeId = ref->target;
        UA_NodeId refType = ref->refType;
        if (!UA_NodeId_equal(&src, &ref->target))
        {
            UA_Server_addReference(server, src, refType, target, ref->isForward);
        }
''')],
 demo=P + '''
s = snodes(bload(doc(node('UAObject', 'ns=1;i=1', ''' + OBJ[:-1] + ''', ('i=32', 'ns=1;i=1', True)]))))
fail('0;i=32' not in str(s['2;i=1']['refs']), str(s['2;i=1']))
'''),
dict(id='s348-type-name', property='C16', kind='back', needs='a data type whose browse name contains a colon',
 breaks='the name of a type is the part behind the last colon',
 edits=[(I + 'DataTypeImporter.c', '''        size_t len = strlen(node->browseName.name);
        type->typeName = (char *)calloc(len + 1, sizeof(char));
        memcpy((void *)(uintptr_t)type->typeName, node->browseName.name, len);''', '''        // without prefix
        const char *colon = strrchr(node->browseName.name, ':');
        const char *name = colon ? colon + 1 : node->browseName.name;
        size_t len = strlen(name);
        type->typeName = (char *)calloc(len + 1, sizeof(char));
        memcpy((void *)(uintptr_t)type->typeName, name, len);''')],
 demo=P + '''
t = types(bload(doc(node('UADataType', 'ns=1;i=1', [('i=45', 'i=22', False)], bn='1:a:b', more='<Definition Name="n"><Field Name="a" DataType="i=6"/></Definition>'))))
fail('a:b' not in str(t['2;i=1']), str(t['2;i=1']))
'''),
dict(id='s349-dimensions', property='C15', kind='back', needs='a variable with more than eight array dimensions',
 breaks='dimensions behind the eighth are dropped',
 edits=[(I + 'import.c', '    while (subString != NULL)\n', '    while (subString != NULL && arrSize < 8)\n')],
 demo=P + '''
s = snodes(bload(doc(node('UAVariable', 'ns=1;i=1', ''' + VAR + ''', attrs='DataType="i=6" ValueRank="9" ArrayDimensions="1,2,3,4,5,6,7,8,9"'))))
fail('9' not in str(s['2;i=1']['dims']), str(s['2;i=1']))
'''),
dict(id='s354-type-value-leak', property='C02', kind='core', flags='-fsanitize=address', needs='a variable type with a value',
 breaks='the value of a node that is no variable is not released',
 edits=[('src/NodesetLoader.c', '''            else
            {
                Value_delete(pctx->val);
            }
            pctx->val = NULL;''', '''            pctx->val = NULL;''')],
 demo=P + '''
p = write(doc(node('UAVariableType', 'ns=1;i=1', [('i=45', 'i=63', False)], more='<Value><Int32>5</Int32></Value>')))
L = [e for e in run(['ns\\turn:a\\t5', 'new\\t0\\t1\\t0', 'imp\\t0\\t%s\\t0' % p, 'del'], mode='1') if e['e'] == 'live']
fail(not L or L[-1]['n'] != 0, str(L))
'''),
]
