P = 'from nl import *\n'
DT = '''
def dt(i, sup, fields, attrs='', enc=''):
    return '<UADataType NodeId="ns=1;i=%d" BrowseName="1:T%d"><DisplayName>T%d</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">%s</Reference>%s</References><Definition Name="T%d"%s>%s</Definition></UADataType>' % (i, i, i, sup, enc, i, attrs, ''.join('<Field %s/>' % f for f in fields))
'''
SEEDS = [
dict(id='s07-container-growth', property='C01', kind='core', needs='a container that has to grow at least twice, e.g. more than 300 object types in one file',
 breaks='the recorded capacity grows faster than the memory: nodes are written behind the end of the container',
 edits=[('src/nodes/NodeContainer.c', '        container->capacity += container->incrementSize;', '        container->capacity *= 2;')], flags='-fsanitize=address -DASAN_DEMO',
 demo=P + '''
ev = load(doc(''.join(node('UAObjectType', 'ns=1;i=%d' % i, [('i=45', 'i=58', False)]) for i in range(1, 700))))
fail(len(nodes(ev)) != 699, '%d nodes' % len(nodes(ev)))
'''),
dict(id='s08-encoding-leak', property='C02', kind='core', needs='a Default Binary encoding node that points back to a data type with a string node id',
 breaks='the source id of an encoding link is not released',
 edits=[('src/Nodeset.c', '        UA_NodeId_clear(&ref->source);\n', '')], flags='-fsanitize=address',
 demo=P + '''
import os
os.environ['ASAN_OPTIONS'] = 'detect_leaks=0'
ev = load(doc(node('UADataType', 'ns=1;s=type', [('i=45', 'i=22', False)]) + node('UAObject', 'ns=1;i=2', [('i=38', 'ns=1;s=type', False)], bn='Default Binary')), mode='1')
fail([e['n'] for e in ev if e['e'] == 'live'] != [0], str([e for e in ev if e['e'] == 'live']))
'''),
dict(id='s09-space-piece', property='C14', kind='core', needs='a text in which a piece between two entity references (or read chunks) consists of white space only',
 breaks='white space between two entities vanishes from the text',
 edits=[('src/NodesetLoader.c', '''    TParserCtx *pctx = (TParserCtx *)ctx;
    if (pctx->onCharacters == NULL)
    {
        char *newValue''', '''    TParserCtx *pctx = (TParserCtx *)ctx;
    int spaces = 0;
    while (spaces < len && (ch[spaces] == ' ' || ch[spaces] == '\\n'))
    {
        spaces++;
    }
    if (spaces == len && pctx->onCharacters != NULL)
    {
        // insignificant whitespace
        return;
    }
    if (pctx->onCharacters == NULL)
    {
        char *newValue''')],
 demo=P + '''
b = by_id(load(doc(node('UAObject', 'ns=1;i=1', dn='a &amp; b &lt; &gt; c'))))
fail(b['5;i=1']['dn'][1] != 'a & b < > c', str(b['5;i=1']['dn']))
'''),
dict(id='s10-forward-known', property='C04', kind='core', needs='a child that is declared before its parent and linked by a forward reference of the parent alone',
 breaks='forward references to nodes that are already part of the sort are not recorded, the child is delivered first',
 edits=[('src/Sort.c', '''            } else {
                record_relation(j, k);
            }
            hierachicalRef = hierachicalRef->next;''', '''            } else if (!k->data || !k->data->hierachicalRefs) {
                record_relation(j, k);
            }
            hierachicalRef = hierachicalRef->next;''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', [('i=35', 'ns=1;i=9', True)]) + node('UAObject', 'ns=1;i=5', [('i=35', 'ns=1;i=1', True), ('i=35', 'i=85', False)])))
ids = [e['id'] for e in nodes(ev)]
fail(ids.index('5;i=5') > ids.index('5;i=1'), str(ids))
'''),
dict(id='s11-two-cycle', property='C05', kind='core', needs='a cycle of exactly two nodes',
 breaks='two nodes that are parents of each other are not recognised as a cycle, sorting reports success',
 edits=[('src/Sort.c', '''    if(UA_NodeId_equal(from->id, to->id))
        return;
''', '''    // nothing to do if the relation is known from the other side
    bool known = UA_NodeId_equal(from->id, to->id);
    for(struct S_Edge *other = to->edges; other; other = other->next)
        known = known || other->dest == from;
    if(known)
        return;
''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', [('i=35', 'ns=1;i=2', False)]) + node('UAObject', 'ns=1;i=2', [('i=35', 'ns=1;i=1', False)])))
fail([e['r'] for e in ev if e['e'] == 'sort'] != [False], str([e for e in ev if e['e'] == 'sort']))
'''),
dict(id='s12-guid-ns', property='C07', kind='core', needs='node ids with a GUID identifier in a namespace whose index differs between file and caller',
 breaks='ids with a GUID keep the namespace index of the file',
 edits=[('src/Nodeset.c', '''    if (id.namespaceIndex == 0)
    {
        return id;
    }
    const Namespace''', '''    // GUIDs are unique on their own
    if (id.namespaceIndex == 0 || id.identifierType == UA_NODEIDTYPE_GUID)
    {
        return id;
    }
    const Namespace''')],
 demo=P + '''
g = '09087e75-8e5e-499b-954f-f2a9603db28a'
ev = load(doc(node('UAObject', 'ns=1;g=' + g)))
fail([e['id'] for e in nodes(ev)][0][:2] != '5;', str([e['id'] for e in nodes(ev)]))
'''),
dict(id='s13-alias-spelling', property='C08', kind='core', needs='an alias whose name contains an equals sign',
 breaks='aliases whose name looks like a node id are not looked up',
 edits=[('src/AliasList.c', '    if(!name)\n        return NULL;', "    // node ids are no aliases\n    if(!name || strchr(name, '='))\n        return NULL;")],
 demo=P + '''
ev = load(doc(node('UAVariable', 'ns=1;i=1', [('i=35', 'i=85', False)], attrs='DataType="Type=Int"'), aliases='<Alias Alias="Type=Int">i=6</Alias>'))
fail(by_id(ev)['5;i=1']['DataType'] != '0;i=6', str(by_id(ev)['5;i=1']))
'''),
dict(id='s14-field-prefix', property='C10', kind='core', needs='a definition field without an enumeration value that has another attribute whose name starts with "Value"',
 breaks='attributes are matched by prefix: a value rank is taken for an enumeration value',
 edits=[('src/Nodeset.c', '        if (strcmp((const char *)localname, attr->name))', '        if (strncmp((const char *)localname, attr->name, strlen(attr->name)))')],
 demo=P + DT + '''
ev = load(doc(dt(1, 'i=22', ['Name="a" DataType="i=6" ValueRank="1"', 'Name="b" DataType="i=7"'])))
d = by_id(ev)['5;i=1']['def']
fail(d['isEnum'], str(d))
'''),
dict(id='s15-extension-reuse', property='C11', kind='core', needs='a node with two extensions (or two nodes with one each)',
 breaks='the object of the first extension is used again for all following extensions, no new object is created',
 edits=[('src/NodesetLoader.c', '            if (pctx->extIf)\n            {\n                pctx->extensionData = pctx->extIf->newExtension();', '            if (pctx->extIf && !pctx->extensionData)\n            {\n                pctx->extensionData = pctx->extIf->newExtension();')],
 demo=P + '''
x = '<Extensions><Extension><a>1</a></Extension><Extension><b>2</b></Extension></Extensions>'
ev = load(doc(node('UAObject', 'ns=1;i=1', more=x)), ext=1)
fail(len([e for e in ev if e['e'] == 'xnew']) != 2, str([e['e'] for e in ev]))
'''),
dict(id='s16-tiny-file', property='C12', kind='core', needs='a file of one to three bytes',
 breaks='files that are too short to hold a document are imported successfully',
 edits=[('src/Parser.c', '''    if (res <= 0)
    {
        return 1;
    }
''', '''    if (res < 4)
    {
        // nothing to parse
        return res <= 0;
    }
''')],
 demo=P + '''
for t in (b'x', b'<a', b'   '):
    ev = load(t)
    fail([e['r'] for e in ev if e['e'] == 'imp'] != [False], repr(t) + str([e for e in ev if e['e'] == 'imp']))
'''),
dict(id='s17-static-id', property='C21', kind='c', needs='two loaders that import at the same time in different threads',
 breaks='node ids are parsed into a buffer shared by all threads',
 edits=[('src/Nodeset.c', '''    UA_NodeId id = UA_NODEID_NULL;
    if (s == NULL)
        return id;
''', '''    static UA_NodeId id;
    id = UA_NODEID_NULL;
    if (s == NULL)
        return id;
''')], flags='-fsanitize=thread',
 demo='import subprocess,sys\nsys.exit(1 if subprocess.run([sys.argv[1], sys.argv[2]]).returncode else 0)\n',
 demo_c='''#include <NodesetLoader/NodesetLoader.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
static char path[300];
static void quiet(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) {}
static unsigned short ns(void *c, const char *u) { return 5; }
static void *work(void *x) {
    NodesetLoader_Logger lg = {.context = NULL, .log = quiet};
    for(int i = 0; i < 5; i++) {
        NodesetLoader *l = NodesetLoader_new(&lg, NULL);
        NL_FileContext c = {.file = path, .addNamespace = ns};
        if(!NodesetLoader_importFile(l, &c)) exit(3);
        NodesetLoader_sort(l);
        NodesetLoader_delete(l);
    }
    return NULL;
}
int main(int argc, char **argv) {
    snprintf(path, sizeof path, "%s/f.xml", argv[1]);
    FILE *f = fopen(path, "w");
    fprintf(f, "<UANodeSet><NamespaceUris><Uri>u</Uri></NamespaceUris>");
    for(int i = 1; i < 300; i++) fprintf(f, "<UAObject NodeId=\\"ns=1;i=%d\\" BrowseName=\\"1:n\\"><DisplayName>n</DisplayName></UAObject>", i);
    fprintf(f, "</UANodeSet>"); fclose(f);
    pthread_t t[4];
    for(int i = 0; i < 4; i++) pthread_create(&t[i], NULL, work, NULL);
    for(int i = 0; i < 4; i++) pthread_join(t[i], NULL);
    return 0;
}
'''),
dict(id='s18-second-chance', property='C15', kind='back', needs='a node whose parent belongs to a class that is added later (an object below a variable)',
 breaks='nodes whose parent does not exist yet are not tried again',
 edits=[('backends/open62541/src/import.c', '    if(context->problemNodes != NULL && UA_StatusCode_isBad(addedNodeStatus))', '    // without a parent there is no place for the node\n    if(context->problemNodes != NULL && UA_StatusCode_isBad(addedNodeStatus) &&\n       addedNodeStatus != UA_STATUSCODE_BADPARENTNODEIDINVALID)')],
 demo=P + '''
ev = bload(doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=40', 'i=63', True)]) + node('UAObject', 'ns=1;i=2', [('i=47', 'ns=1;i=1', False), ('i=40', 'i=58', True)])))
fail(loads(ev) != [True] or '2;i=2' not in snodes(ev), str(sorted(snodes(ev))))
'''),
dict(id='s19-value-rank', property='C16', kind='back', needs='a field with value rank 0 (one or more dimensions)',
 breaks='fields with value rank 0 are registered as scalars',
 edits=[('backends/open62541/src/DataTypeImporter.c', 'node->definition->fields[i].valueRank >= 0;', 'node->definition->fields[i].valueRank > 0;')],
 demo=P + DT + '''
ev = bload(doc(dt(1, 'i=22', ['Name="a" DataType="i=6" ValueRank="0"'])))
t = types(ev)['2;i=1']
fail(t['size'] != 16 or not t['mem'][0][3], str(t))
'''),
dict(id='s20-guid-align', property='C16', kind='back', needs='a GUID member that does not start at a multiple of eight bytes',
 breaks='GUID members are aligned like strings',
 edits=[('backends/open62541/src/DataTypeImporter.c', '        return offsetof(TempGuid, member);', '        return offsetof(TempString, member);')],
 demo=P + DT + '''
ev = bload(doc(dt(1, 'i=22', ['Name="a" DataType="i=6"', 'Name="b" DataType="i=14"'])))
t = types(ev)['2;i=1']
fail(t['size'] != 20 or t['mem'][1][2] != 0, str(t))
'''),
dict(id='s21-member-prefix', property='C17', kind='back', needs='a structure value in which a member whose name continues the name of another member stands before it, or that other member is absent',
 breaks='structure members are found by a prefix of their name',
 edits=[('backends/open62541/src/Value.c', '        if (!strcmp(value->val.complexData.members[cnt]->name, name))', '        if (!strncmp(value->val.complexData.members[cnt]->name, name, strlen(name)))')],
 demo=P + DT + '''
v = '<Value><u:ExtensionObject xmlns:u="http://opcfoundation.org/UA/2008/02/Types.xsd"><u:TypeId><u:Identifier>ns=1;i=3</u:Identifier></u:TypeId><u:Body><T1><Rank2>7</Rank2></T1></u:Body></u:ExtensionObject></Value>'
ev = bload(doc(dt(1, 'i=22', ['Name="Rank" DataType="i=6"', 'Name="Rank2" DataType="i=6"']) +
   node('UAVariable', 'ns=1;i=2', [('i=47', 'i=85', False), ('i=40', 'i=63', True)], attrs='DataType="ns=1;i=1"', more=v)))
x = snodes(ev)['2;i=2']['value']
fail(str(x['v']).replace(' ', '').count('0') < 1 or '7' not in str(x['v']) or str(x['v']).count('7') != 1, str(x))
'''),
dict(id='s22-own-array', property='C18', kind='back', needs='a second nodeset loaded into the same server that uses a data type of the first one',
 breaks='only the latest registered array of custom types is searched, types of earlier files are not found any more',
 edits=[('backends/open62541/src/customDataType.c', '''                    return type;
                }
            }
        }
        types = next;
    }
    return NULL;''', '''                    return type;
                }
            }
            // the latest array knows all types
            if (types->typesSize > 0)
            {
                break;
            }
        }
        types = next;
    }
    return NULL;''')],
 demo=P + DT + '''
ev = bload(doc(dt(1, 'i=22', ['Name="a" DataType="i=6"'])), doc(dt(2, 'i=22', ['Name="b" DataType="ns=1;i=1"'])))
t = types(ev)['2;i=2']
fail(t['mem'] == [] or t['mem'][0][1] != '2;i=1', str(t))
'''),
dict(id='s23-failed-sort', property='C19', kind='back', needs='a well-formed nodeset that cannot be sorted (cycle or unknown reference type) and has nodes that are not part of the problem',
 breaks='the nodes that could be sorted are added although the load fails',
 edits=[('backends/open62541/src/import.c', '    if (retStatus && sortStatus)', '    if (importStatus)')],
 demo=P + '''
ev = bload(doc(node('UAObject', 'ns=1;i=7', [('i=47', 'i=85', False), ('i=40', 'i=58', True)]) + node('UAObject', 'ns=1;i=1', [('i=35', 'ns=1;i=2', False)]) + node('UAObject', 'ns=1;i=2', [('i=35', 'ns=1;i=1', False)])))
fail(loads(ev) != [False] or snodes(ev), str(loads(ev)) + str(list(snodes(ev))))
'''),
dict(id='s24-refs-of-subtypes', property='C15', kind='back', needs='a reference type below another custom reference type that was loaded by a previous file',
 breaks='the reference service does not descend into custom reference types: their subtypes are unknown to the next load',
 edits=[('backends/open62541/src/RefServiceImpl.c', '            iterate(server, &rd->nodeId.nodeId, fnc, impl);', '            // subtypes of custom types are announced by the loader\n            if (rd->nodeId.nodeId.namespaceIndex == 0)\n            {\n                iterate(server, &rd->nodeId.nodeId, fnc, impl);\n            }')],
 demo=P + '''
a = doc(node('UAReferenceType', 'ns=1;i=1', [('i=45', 'i=47', False)]) + node('UAReferenceType', 'ns=1;i=2', [('i=45', 'ns=1;i=1', False)]))
b = doc(node('UAObject', 'ns=1;i=3', [('ns=1;i=2', 'i=85', False), ('i=40', 'i=58', True)]))
ev = bload(a, b)
fail(loads(ev) != [True, True] or '2;i=3' not in snodes(ev), str(loads(ev)))
'''),
dict(id='s25-log-context', property='C22', kind='back', needs='a server whose logger has a context of its own',
 breaks='messages of a backend load are logged with the logger itself instead of its context',
 edits=[('backends/open62541/src/import.c', '    logger->log(logger->context, uaLevel, UA_LOGCATEGORY_USERLAND, message, vl);', '    logger->log(context, uaLevel, UA_LOGCATEGORY_USERLAND, message, vl);')],
 demo=P + '''
ev = bload(doc(node('UAObject', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=40', 'i=58', True)])))
fail(any(e['s'] != 0 for e in ev if e['e'] == 'log') or not any(e['e'] == 'log' for e in ev), 'context')
'''),
dict(id='s26-inverse-name', property='C03', kind='core', needs='a reference type with an inverse name that carries a locale',
 breaks='the locale of the inverse name ends up at the display name',
 edits=[('src/Nodeset.c', '''        ((NL_ReferenceTypeNode *)node)->inverseName.locale =
            getAttributeValue(nodeset, &attrLocale, attributes, attributeSize);''', '''        char *locale =
            getAttributeValue(nodeset, &attrLocale, attributes, attributeSize);
        ((NL_ReferenceTypeNode *)node)->inverseName.locale =
            locale ? locale : node->displayName.locale;''')],
 demo=P + '''
b = by_id(load(doc('<UAReferenceType NodeId="ns=1;i=1" BrowseName="1:r"><DisplayName Locale="de">n</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">i=33</Reference></References><InverseName>x</InverseName></UAReferenceType>')))
fail(b['5;i=1']['inv'] != [None, 'x'], str(b['5;i=1']))
'''),
dict(id='s27-repeated-ref', property='C06', kind='core', needs='a node with two non-hierarchical references of the same type to the same node, one in each direction',
 breaks='the second one is dropped as a repetition although its direction differs',
 edits=[('src/Nodeset.c', '''    UA_NodeId_clear(&ref->target);
    ref->target = alias2Id(nodeset, targetId);
''', '''    UA_NodeId target = alias2Id(nodeset, targetId);
    UA_NodeId_clear(&ref->target);
    ref->target = target;
    // drop a repeated reference
    NL_Reference *other = node->nonHierachicalRefs == ref ? ref->next : NULL;
    if (other && UA_NodeId_equal(&other->target, &target) &&
        UA_NodeId_equal(&other->refType, &ref->refType))
    {
        node->nonHierachicalRefs = other;
        UA_NodeId_clear(&ref->target);
        UA_NodeId_clear(&ref->refType);
        free(ref);
        return;
    }
''')],
 demo=P + '''
b = by_id(load(doc(node('UAObject', 'ns=1;i=1', [('i=35', 'i=85', False), ('i=41', 'ns=1;i=7', True), ('i=41', 'ns=1;i=7', False)]))))
fail(len(b['5;i=1']['nh']) != 2, str(b['5;i=1']))
'''),
dict(id='s28-signed-text', property='C09', kind='core', needs='a value text that consists of non-ASCII characters only',
 breaks='texts without any ASCII character are taken for white space and dropped',
 edits=[('src/Value.c', '        if(!isspace((unsigned char)*c))', "        if(*c > ' ')")],
 demo=P + '''
v = '<Value><String xmlns="http://opcfoundation.org/UA/2008/02/Types.xsd">\u65e5\u672c</String></Value>'
x = by_id(load(doc(node('UAVariable', 'ns=1;i=1', more=v))))['5;i=1']['value']
fail(x['data'].get('p') != '\u65e5\u672c', str(x))
'''),
dict(id='s29-array-offset', property='C17', kind='back', needs='an array of structures whose size contains padding at the end',
 breaks='the elements of an array follow each other without the padding at the end of a structure',
 edits=[('backends/open62541/src/Value.c', '        data->offset = i * type->memSize;\n', '')],
 demo=P + DT + '''
e = lambda a, b: '<ExtensionObject><TypeId><Identifier>ns=1;i=3</Identifier></TypeId><Body><T1><a>%d</a><b>%d</b></T1></Body></ExtensionObject>' % (a, b)
v = '<Value><ListOfExtensionObject xmlns="http://opcfoundation.org/UA/2008/02/Types.xsd">%s%s%s</ListOfExtensionObject></Value>' % (e(1, 2), e(3, 4), e(5, 6))
ev = bload(doc(dt(1, 'i=22', ['Name="a" DataType="i=8"', 'Name="b" DataType="i=6"']) +
   node('UAVariable', 'ns=1;i=2', [('i=47', 'i=85', False), ('i=40', 'i=63', True)], attrs='DataType="ns=1;i=1" ValueRank="1"', more=v)))
x = snodes(ev)['2;i=2']['value']
fail(x['v'] != [{'a': 1, 'b': 2}, {'a': 3, 'b': 4}, {'a': 5, 'b': 6}], str(x))
'''),
dict(id='s34-view-parent', property='C24', kind='core', needs='a view that names its parent and declares no hierarchical reference',
 breaks='views are not regarded as instances, they get no parent link',
 edits=[('src/nodes/InstanceNode.c', '''        baseNode->nodeClass == NODECLASS_METHOD ||
        baseNode->nodeClass == NODECLASS_VIEW)''', '''        baseNode->nodeClass == NODECLASS_METHOD)''')],
 demo=P + '''
b = by_id(load(doc(node('UAView', 'ns=1;i=1', attrs='ParentNodeId="i=87"'))))
fail(b['5;i=1']['h'] != [['0;i=47', '0;i=87', False]], str(b['5;i=1']))
'''),
dict(id='s39-user-executable', property='C15', kind='back', needs='a method whose UserExecutable differs from its Executable',
 breaks='UserExecutable is copied from Executable',
 edits=[('backends/open62541/src/import.c', '    attr.userExecutable = isValTrue(node->userExecutable);', '    attr.userExecutable = attr.executable;')],
 demo=P + '''
ev = bload(doc(node('UAMethod', 'ns=1;i=1', [('i=47', 'i=85', False)], attrs='Executable="true" UserExecutable="false"')))
n = snodes(ev)['2;i=1']
fail(n['Executable'] != 1 or n['UserExecutable'] != 0, str(n))
'''),
]
