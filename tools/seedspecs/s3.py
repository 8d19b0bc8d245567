P = 'from nl import *\n'
DT = '''
def dt(i, sup, fields, attrs='', enc=''):
    return '<UADataType NodeId="ns=1;i=%d" BrowseName="1:T%d"><DisplayName>T%d</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">%s</Reference>%s</References><Definition Name="T%d"%s>%s</Definition></UADataType>' % (i, i, i, sup, enc, i, attrs, ''.join('<Field %s/>' % f for f in fields))
'''
SEEDS = [
dict(id='s41-nested-value', property='C09', kind='core', needs='a structure value with a member called Value',
 breaks='the end of a member called Value ends the value of the variable',
 edits=[('src/NodesetLoader.c', 'if (!strcmp(localname, VALUE) && pctx->unknown_depth == 0)', 'if (!strcmp(localname, VALUE))')],
 demo=P + '''
v = '<Value><ExtensionObject><TypeId><Identifier>i=297</Identifier></TypeId><Body><S><Value>1</Value><Other>2</Other></S></Body></ExtensionObject></Value>'
b = by_id(load(doc(node('UAVariable', 'ns=1;i=1', more=v))))
d = b['5;i=1']['value']['data']
fail([c['n'] for c in d['c']] != ['Value', 'Other'], str(d))
'''),
dict(id='s42-repeated-uri', property='C07', kind='core', needs='a namespace table that names the same URI (or the OPC UA URI) more than once',
 breaks='a URI that is already listed gets no entry of its own, the following indices are shifted',
 edits=[('src/NamespaceList.c', '''    // ask backend to create/get overall namespaceIndex
''', '''    // the namespace is known already
    for (size_t i = 0; i < list->size; i++)
    {
        if (!strcmp(list->data[i].name, uri))
        {
            return &list->data[i];
        }
    }
'''), ('src/NamespaceList.c', '#include <stdlib.h>\n', '#include <stdlib.h>\n#include <string.h>\n')],
 demo=P + '''
b = by_id(load(doc(node('UAObject', 'ns=4;i=1'), uris=('urn:a', 'http://opcfoundation.org/UA/', 'urn:a', 'urn:b')), ns=(('urn:a', 3), ('urn:b', 7), ('http://opcfoundation.org/UA/', 0))))
fail(list(b) != ['7;i=1'], str(list(b)))
'''),
dict(id='s43-static-chunk', property='C21', kind='c', needs='two loaders that import at the same time in different threads',
 breaks='the read buffer is shared by all threads',
 edits=[('src/Parser.c', '    char chars[1024];', '    static char chars[1024];')], flags='-fsanitize=thread',
 demo='''import subprocess, sys
TMP = sys.argv[2]
for k in range(2):
    with open('%s/f%d.xml' % (TMP, k), 'w') as f:
        f.write('<UANodeSet><NamespaceUris><Uri>urn:x%d</Uri></NamespaceUris>' % k + ''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:n%d"><DisplayName>%s</DisplayName></UAObject>' % (i, i, 'xy'[k] * 50) for i in range(1, 800)) + '</UANodeSet>')
import os
p = subprocess.run([sys.argv[1], TMP + '/f0.xml', TMP + '/f1.xml'], capture_output=True, text=True, env=dict(os.environ, TSAN_OPTIONS='exitcode=66'))
print(p.stdout, p.stderr[-600:])
sys.exit(1 if p.returncode else 0)
''',
 demo_c=r'''
#include <NodesetLoader/NodesetLoader.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
static pthread_barrier_t b;
static unsigned short ns(void *c, const char *u) { return 3; }
static void quiet(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { }
static void *go(void *p) {
    NodesetLoader_Logger lg; memset(&lg, 0, sizeof lg); lg.log = quiet;
    pthread_barrier_wait(&b); long bad = 0;
    for(int i = 0; i < 10; i++) {
        NodesetLoader *l = NodesetLoader_new(&lg, NULL);
        NL_FileContext c; memset(&c, 0, sizeof c); c.addNamespace = ns; c.file = p;
        if(!NodesetLoader_importFile(l, &c)) bad++;
        NodesetLoader_delete(l);
    }
    return (void *)bad;
}
int main(int argc, char **argv) {
    pthread_t t[2]; long r = 0; pthread_barrier_init(&b, 0, 2);
    for(int i = 0; i < 2; i++) pthread_create(&t[i], 0, go, argv[1 + i]);
    for(int i = 0; i < 2; i++) { void *x; pthread_join(t[i], &x); r += (long)x; }
    printf("%ld failed imports\n", r);
    return r != 0;
}
'''),
dict(id='s44-static-dims', property='C21', kind='back', needs='two threads that load nodesets with array dimensions into servers of their own at the same time',
 breaks='array dimensions are converted through a buffer shared by all threads',
 edits=[('backends/open62541/src/import.c', '''    size_t arrSize = 0;
    if (0 == length)''', '''    static size_t arrSize;
    arrSize = 0;
    if (0 == length)''')], flags='-fsanitize=thread',
 demo=P + '''
import subprocess
ps = []
for k in range(2):
    ps.append(write(doc(''.join('<UAVariable NodeId="ns=1;i=%d" BrowseName="1:v" ValueRank="3" ArrayDimensions="1,2,3"><DisplayName>v</DisplayName><References><Reference ReferenceType="i=47" IsForward="false">i=85</Reference><Reference ReferenceType="i=40">i=63</Reference></References></UAVariable>' % (i + 1) for i in range(100))), 'g%d.xml' % k))
inp = ''.join('CASE %d\\nsrv\\t0\\t1\\nload\\t0\\t%s\\t0\\nEND\\n' % (k, ps[k]) for k in range(2))
p = subprocess.run([PROG, 'threads', '10'], input=inp.encode(), capture_output=True, env=dict(os.environ, TSAN_OPTIONS='exitcode=66'))
fail(p.returncode != 0, p.stderr.decode()[-500:])
'''),
dict(id='s45-text-lines', property='C23', kind='core', needs='a nodeset in UTF-16',
 breaks='the file is read as text with fgets, bytes behind a null byte are lost',
 edits=[('src/Parser.c', '    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)', '    while (fgets(chars, (int)sizeof(chars), file) &&\n           (res = (int)strlen(chars)) >= 0)')],
 demo=P + '''
t = doc(node('UAObject', 'ns=1;i=1')).replace('utf-8', 'utf-16')
b = load(t.encode('utf-16'))
fail([e['r'] for e in b if e['e'] == 'imp'] != [True] or len(nodes(b)) != 1, str(b)[:300])
'''),
dict(id='s46-extend-overlap', property='C13', kind='core', needs='a text that is extended beyond the current region, followed by another text',
 breaks='the bytes moved to a new region are not accounted for, the next block overlaps the end of the extended one',
 edits=[('src/CharAllocator.c', '        newRegion->size = newRegion->userSize;\n', '')],
 demo=P + '''
texts = [('é%d&lt;' % i) + 'x' * 3000 + '&amp;' + 'y' * 3000 for i in range(400)]
b = by_id(load(doc(''.join(node('UAObject', 'ns=1;i=%d' % (i + 1), dn=t) for i, t in enumerate(texts)))))
for i, t in enumerate(texts):
    got, want = b['5;i=%d' % (i + 1)]['dn'][1], t.replace('&lt;', '<').replace('&amp;', '&')
    fail(got != want, 'text %d: %d bytes, %d expected' % (i, len(got), len(want)))
'''),
dict(id='s47-no-nodes', property='C12', kind='core', needs='a well-formed nodeset without nodes, or with its aliases behind the nodes',
 breaks='a file without nodes is reported as malformed',
 edits=[('src/NodesetLoader.c', '    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters))', '    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters) ||\n        !ctx->node)')],
 demo=P + '''
ev = load(doc(''))
fail([e['r'] for e in ev if e['e'] == 'imp'] != [True], str(ev))
'''),
dict(id='s48-partial-import', property='C19', kind='back', needs='a file that is malformed behind complete nodes',
 breaks='the nodes of a file that could not be read to its end are added',
 edits=[('backends/open62541/src/import.c', '    if (retStatus && sortStatus)', '    if (sortStatus)')],
 demo=P + '''
t = doc(node('UAObject', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=40', 'i=58', True)]))
ev = bload(t.replace('</UANodeSet>', ''))
fail(loads(ev) != [False], str(loads(ev)))
fail(snodes(ev), str(snodes(ev)))
'''),
dict(id='s49-type-name', property='C18', kind='back', needs='a data type whose name is read after the load has returned',
 breaks='the name of a registered data type lives in the text storage of the loader',
 edits=[('backends/open62541/src/DataTypeImporter.c', '''        size_t len = strlen(node->browseName.name);
        type->typeName = (char *)calloc(len + 1, sizeof(char));
        memcpy((void *)(uintptr_t)type->typeName, node->browseName.name, len);
''', '''        type->typeName = node->browseName.name;
'''), ('backends/open62541/src/customDataType.c', '                free((void*)(uintptr_t)type->typeName);\n', '')], flags='-fsanitize=address',
 demo=P + DT + '''
ev = bload(doc(dt(1, 'i=22', ['Name="a" DataType="i=6"'])))
fail([t['name'] for t in types(ev).values()] != ['T1'], str(types(ev)))
'''),
dict(id='s51-string-alias', property='C16', kind='back', needs='a data type derived from a built-in type that holds pointers (String, ByteString, ...)',
 breaks='types derived from built-in types are always registered as pointer-free',
 edits=[('backends/open62541/src/DataTypeImporter.c', '    type->pointerFree = parentType->pointerFree;', '    type->pointerFree = true;')],
 demo=P + DT + '''
ev = bload(doc(node('UADataType', 'ns=1;i=1', [('i=45', 'i=12', False)])))
fail(list(types(ev).values())[0]['pf'] != 0, str(types(ev)))
'''),
dict(id='s52-low-numbers', property='C16', kind='back', needs='a custom data type with a numeric id below 30 that has subtypes, or is looked up itself',
 breaks='types of other namespaces with a low number are taken for built-in types',
 edits=[('backends/open62541/src/import.c', '''    if (typeId.namespaceIndex == 0 &&
        typeId.identifierType == UA_NODEIDTYPE_NUMERIC &&''', '''    if (typeId.identifierType == UA_NODEIDTYPE_NUMERIC &&''')],
 demo=P + DT + '''
ev = bload(doc(dt(3, 'i=22', ['Name="a" DataType="i=6"', 'Name="b" DataType="i=6"'])))
fail(list(types(ev).values())[0]['size'] != 8 or len(list(types(ev).values())[0]['mem']) != 2, str(types(ev)))
'''),
dict(id='s53-typedef-number', property='C06', kind='core', needs='a custom reference type with the numeric id 40',
 breaks='references of a custom type with the number 40 are taken for type definitions',
 edits=[('src/InternalRefService.c', '''    UA_NodeId hasTypeDefId = UA_NODEID_NUMERIC(0, 40);
    return UA_NodeId_equal(&ref->refType, &hasTypeDefId);''', '''    return ref->refType.identifierType == UA_NODEIDTYPE_NUMERIC &&
           ref->refType.identifier.numeric == 40;''')],
 demo=P + '''
b = by_id(load(doc(node('UAReferenceType', 'ns=1;i=40', [('i=45', 'i=32', False)]) + node('UAObject', 'ns=1;i=1', [('ns=1;i=40', 'i=85', True)]))))
fail(len(b['5;i=1']['nh']) != 1, str(b['5;i=1']))
'''),
dict(id='s54-many-parents', property='C04', kind='core', needs='a node that is the target of more than 65536 hierarchical relations',
 breaks='the number of parents a node waits for is counted with 16 bits',
 edits=[('src/Sort.c', '    size_t edgeCount;\n', '    unsigned short edgeCount;\n')],
 demo=P + '''
N = 65537
refs = ''.join('<Reference ReferenceType="i=35" IsForward="false">ns=1;i=%d</Reference>' % (i + 10) for i in range(N))
body = '<UAObject NodeId="ns=1;i=1" BrowseName="1:n"><DisplayName>n</DisplayName><References>' + refs + '</References></UAObject>'
body += ''.join('<UAObject NodeId="ns=1;i=%d" BrowseName="1:p"><DisplayName>p</DisplayName></UAObject>' % (i + 10) for i in range(N))
ids = [e['id'] for e in nodes(load(doc(body)))]
fail(ids[-1] != '5;i=1', 'delivered at position %d of %d' % (ids.index('5;i=1'), len(ids)))
'''),
dict(id='s55-link-class', property='C24', kind='core', needs='a variable or method that names its parent, of another class, which uses a property or organizes reference for it',
 breaks='the reference of the parent is only taken over if parent and child are of the same class',
 edits=[('src/Sort.c', '        if (k->data) {\n', '        if (k->data && k->data->nodeClass == data->nodeClass) {\n')],
 demo=P + '''
b = by_id(load(doc(node('UAObject', 'ns=1;i=1', [('i=46', 'ns=1;i=2', True)]) + node('UAVariable', 'ns=1;i=2', attrs='ParentNodeId="ns=1;i=1"'))))
fail([h[0] for h in b['5;i=2']['h']] != ['0;i=46'], str(b['5;i=2']['h']))
'''),
dict(id='s57-next-index', property='C01', kind='core', needs='a node id whose namespace index is one larger than the table',
 breaks='the entry behind the namespace table is read',
 edits=[('src/NamespaceList.c', '    if((size_t)relativeIndex >=list->size)', '    if((size_t)relativeIndex > list->size)')], flags='-fsanitize=address',
 demo=P + '''
load(doc(node('UAObject', 'ns=2;i=1')))
'''),
dict(id='s59-last-namespace', property='C17', kind='back', needs='a node id or qualified name value in the last namespace of the file',
 breaks='the last namespace of the file is not translated in values',
 edits=[('backends/open62541/src/ServerContext.c', '((size_t)nodesetIdx <= serverContext->namespaceCnt)', '((size_t)nodesetIdx < serverContext->namespaceCnt)')],
 demo=P + '''
v = '<Value><NodeId xmlns="http://opcfoundation.org/UA/2008/02/Types.xsd"><Identifier>ns=1;i=5</Identifier></NodeId></Value>'
ev = bload(doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=40', 'i=63', True)], attrs='DataType="i=17"', more=v)))
s = snodes(ev)
s = list(s.values()) if isinstance(s, dict) else s
fail(s[0]['value']['v'] != '2;i=5', str(s[0]['value']))
'''),
dict(id='s60-model-extension', property='C03', kind='core', needs='an extension of the nodeset itself that contains elements named like nodes',
 breaks='elements inside of extensions of the nodeset are read as nodes',
 edits=[('src/NodesetLoader.c', '''                 !strcmp(localname, "Extensions"))''', '''                 !strcmp(localname, "Extensions") ||
                 !strcmp(localname, EXTENSION))''')],
 demo=P + '''
b = load(doc('<Extensions><Extension><UAObject NodeId="ns=1;i=7" BrowseName="x"/></Extension></Extensions>' + node('UAObject', 'ns=1;i=1')))
fail(len(nodes(b)) != 1, str([e['id'] for e in nodes(b)]))
'''),
dict(id='s61-first-extension', property='C11', kind='core', needs='a node with more than one extension',
 breaks='the node carries the object of its first extension instead of the last one',
 edits=[('src/NodesetLoader.c', '''                pctx->node->extension = pctx->extensionData;
''', '''                if (!pctx->node->extension)
                {
                    pctx->node->extension = pctx->extensionData;
                }
''')],
 demo=P + '''
b = by_id(load(doc(node('UAObject', 'ns=1;i=1', more='<Extensions><Extension><a/></Extension><Extension><b/></Extension></Extensions>')), ext=1))
fail(b['5;i=1']['ext'] != 1, str(b['5;i=1']['ext']))
'''),
dict(id='s62-second-parent', property='C15', kind='back', needs='a node with two inverse hierarchical references',
 breaks='inverse hierarchical references are not added, a node keeps its first parent only',
 edits=[('backends/open62541/src/import.c', '''        UA_NodeId refType = ref->refType;
        UA_Server_addReference(server, src, refType, target, ref->isForward);
        ref = ref->next;
    }
}''', '''        UA_NodeId refType = ref->refType;
        // the parent is already known to the server
        if (ref->isForward)
        {
            UA_Server_addReference(server, src, refType, target, true);
        }
        ref = ref->next;
    }
}''')],
 demo=P + '''
ev = bload(doc(node('UAObject', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=35', 'i=84', False), ('i=40', 'i=58', True)])))
s = snodes(ev)
s = list(s.values()) if isinstance(s, dict) else s
fail(len(s[0]['refs']) != 3, str(s[0]['refs']))
'''),
dict(id='s63-forward-encoding', property='C10', kind='core', needs='a Default Binary node with a forward reference of type HasEncoding',
 breaks='forward encoding references yield links, too',
 edits=[('src/Nodeset.c', '        !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)', '        !strcmp(node->browseName.name, "Default Binary"))')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', [('i=38', 'i=85', True)], bn='Default Binary')))
fail([e for e in ev if e['e'] == 'bidi'], str(ev))
'''),
dict(id='s65-blank-text', property='C14', kind='core', needs='a nodeset in which the text of an element is written with a CDATA section in front of or between other text',
 breaks='only the first piece of a text is zero-terminated by its allocation, later pieces of one byte overwrite it',
 edits=[('src/NodesetLoader.c', '''        pctx->onCharacters = CharArenaAllocator_realloc(
            pctx->nodeset->charArena, (size_t)len + 1);''', '''        pctx->onCharacters = CharArenaAllocator_realloc(
            pctx->nodeset->charArena, (size_t)len - 1);''')],
 demo=P + '''
b = by_id(load(doc(node('UAObject', 'ns=1;i=1', dn='a&amp;b&amp;c&amp;d&amp;e')+node('UAObject', 'ns=1;i=2', dn='zzzz'))))
fail(b['5;i=1']['dn'][1] != 'a&b&c&d&e', str(b['5;i=1']['dn']))
'''),
dict(id='s66-vartype-alias', property='C08', kind='core', needs='a variable type whose data type is given by an alias',
 breaks='aliases are not looked up for the data type of variable types',
 edits=[('src/Nodeset.c', '''        ((NL_VariableTypeNode *)node)->datatype = alias2Id(nodeset, datatype);''', '''        ((NL_VariableTypeNode *)node)->datatype =
            extractNodedId(namespaces, datatype);''')],
 demo=P + '''
b = by_id(load(doc(node('UAVariableType', 'ns=1;i=1', attrs='DataType="Double"'), aliases='<Alias Alias="Double">i=11</Alias>')))
fail(b['5;i=1']['DataType'] != '0;i=11', str(b['5;i=1']))
'''),
dict(id='s67-log-level', property='C22', kind='back', needs='a load that produces warnings',
 breaks='warnings arrive at the logger of the server with the level of debug messages',
 edits=[('backends/open62541/src/import.c', '''        uaLevel = UA_LOGLEVEL_WARNING;
''', '''        uaLevel = UA_LOGLEVEL_DEBUG;
''')],
 demo=P + '''
ev = bload(doc(node('UAMethod', 'ns=1;i=1', [('i=47', 'ns=1;i=5', False)]) + node('UAVariable', 'ns=1;i=5', [('i=47', 'i=85', False), ('i=40', 'i=63', True)])))
fail(not [e for e in ev if e['e'] == 'log' and 'import: 1' in e['m'] and e['lv'] == 400], str([e for e in ev if e['e'] == 'log']))
'''),
]
