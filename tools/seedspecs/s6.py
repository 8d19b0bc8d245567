P = 'from nl import *\n'
I = 'backends/open62541/src/'
SEEDS = [
dict(id='s201-no-callback', property='C07', kind='core', needs='a URI that is listed twice in the namespace table of one file',
 breaks='the callback is not invoked for a repeated URI, the index of the first one is used again',
 edits=[('src/NamespaceList.c', '''    short unsigned globalIdx = list->cb(userContext, uri);
    list->size++;''', '''    short unsigned globalIdx = 0;
    for (size_t i = 1; i < list->size; i++)
    {
        if (!strcmp(list->data[i].name, uri))
        {
            globalIdx = (short unsigned)list->data[i].idx;
        }
    }
    if (globalIdx == 0)
    {
        globalIdx = list->cb(userContext, uri);
    }
    list->size++;'''), ('src/NamespaceList.c', '#include <stdlib.h>\n', '#include <stdlib.h>\n#include <string.h>\n')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1'), uris=['urn:a', 'urn:b', 'urn:a']))
n = [e['uri'] for e in ev if e['e'] == 'ns']
fail(n != ['urn:a', 'urn:b', 'urn:a'], str(n))
'''),
dict(id='s202-own-region', property='C13', kind='c', needs='a block larger than the regions of the storage that is extended afterwards',
 breaks='large blocks get a region of their own behind the current one; extending such a block extends another one',
 edits=[('src/CharAllocator.c', '''        newRegion->next = arena->current;
        arena->current = newRegion;
    }
    arena->current->userPtr =''', '''        struct Region *current = arena->current;
        if (size > arena->initialSize && current->size > 0)
        {
            // there may be room for further small blocks in the current region
            newRegion->size = newRegion->userSize = size;
            newRegion->next = current->next;
            current->next = newRegion;
            return newRegion->userPtr;
        }
        newRegion->next = current;
        arena->current = newRegion;
    }
    arena->current->userPtr =''')],
 demo="import subprocess, sys\nsys.exit(subprocess.run(sys.argv[1:]).returncode)\n",
 demo_c=r'''
#include "CharAllocator.h"
#include <string.h>
#include <stdio.h>
int main(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(64);
    char *s = CharArenaAllocator_malloc(a, 10); memset(s, 's', 10);
    char *b = CharArenaAllocator_malloc(a, 100); memset(b, 'b', 100);
    char *e = CharArenaAllocator_realloc(a, 20);
    int bad = e[0] != 'b' || e[99] != 'b' || e[100] || s[0] != 's';
    CharArenaAllocator_delete(a);
    printf("bad %d\n", bad);
    return bad;
}
'''),
dict(id='s203-many-members', property='C09', kind='core', needs='a list of more than 65535 elements',
 breaks='the number of elements is counted with 16 bits',
 edits=[('src/Value.c', '''    parent->val.complexData.membersSize++;
''', '''    parent->val.complexData.membersSize =
        (unsigned short)(parent->val.complexData.membersSize + 1);
''')],
 demo=P + '''
n = 65540
ev = load(doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False)], more='<Value><ListOfByte>' + ''.join('<Byte>%d</Byte>' % (i % 256) for i in range(n)) + '</ListOfByte></Value>')))
c = by_id(ev)['n 1 1']['value']['data']['c'] if 0 else [e for e in nodes(ev)][0]['value']['data']['c']
fail(len(c) != n, str(len(c)))
'''),
dict(id='s204-epilog', property='C12', kind='core', needs='a file with more than a kilobyte of comments behind the root element, with an error in them',
 breaks='reading stops when the root element is closed, what follows is not looked at',
 edits=[('src/Parser.c', '    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)\n', '    while (ctxt->instate != XML_PARSER_EPILOG &&\n           (res = (int)fread(chars, 1, sizeof(chars), file)) > 0)\n')],
 demo=P + '''
x = doc(node('UAObject', 'ns=1;i=1')) + '\\n' * 5000 + '<again/>'
ev = load(x, ops=())
r = [e['r'] for e in ev if e['e'] == 'imp']
fail(r[0] not in (0, False), str(r))
'''),
dict(id='s205-last-alias', property='C08', kind='core', needs='a second file for the same loader that starts with the alias last used in the first file, with another meaning',
 breaks='the alias looked up last is remembered across files',
 edits=[('src/Nodeset.c', '''    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);
''', '''    // most nodes use the same alias again and again
    static __thread const Nodeset *lastNodeset;
    static __thread char lastName[64];
    static __thread UA_NodeId lastId;
    const UA_NodeId *alias =
        name && nodeset == lastNodeset && !strcmp(name, lastName)
            ? &lastId
            : AliasList_getNodeId(nodeset->aliasList, name);
    if (alias && alias != &lastId && strlen(name) < sizeof(lastName) &&
        alias->identifierType == UA_NODEIDTYPE_NUMERIC)
    {
        strcpy(lastName, name);
        lastNodeset = nodeset;
        lastId = *alias;
    }
''')],
 demo=P + '''
a = doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False)], attrs='DataType="T"'), aliases='<Alias Alias="T">i=6</Alias>')
b = doc(node('UAVariable', 'ns=1;i=2', [('i=47', 'i=85', False)], attrs='DataType="T"'), aliases='<Alias Alias="T">i=12</Alias>')
ev = load(a, b)
d = [e['DataType'] for e in nodes(ev)]
fail(len(set(map(str, d))) != 2, str(d))
'''),
dict(id='s206-old-locale', property='C03', kind='core', needs='a node with two display names, the first one with a locale, the second one without',
 breaks='the locale of an earlier display name stays',
 edits=[('src/Nodeset.c', '''    node->displayName.locale =
        getAttributeValue(nodeset, &attrLocale, attributes, attributeSize);
''', '''    char *locale =
        getAttributeValue(nodeset, &attrLocale, attributes, attributeSize);
    if (locale)
    {
        node->displayName.locale = locale;
    }
''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', more='<DisplayName Locale="de">eins</DisplayName><DisplayName>two</DisplayName>', dn=None)))
fail('de' in str(nodes(ev)[0]['dn']), str(nodes(ev)[0]['dn']))
'''),
dict(id='s207-encoding-ns', property='C10', kind='core', needs='an encoding node whose browse name is of a namespace other than 0',
 breaks='encoding nodes are only recognised if their browse name is of namespace 0',
 edits=[('src/Nodeset.c', '''!strcmp(node->browseName.name, "Default Binary") && !ref->isForward)''', '''!strcmp(node->browseName.name, "Default Binary") &&
        node->browseName.nsIdx == 0 && !ref->isForward)''')],
 demo=P + '''
ev = load(doc(node('UADataType', 'ns=1;i=1', [('i=45', 'i=22', False)]) + node('UAObject', 'ns=1;i=2', [('i=38', 'ns=1;i=1', False), ('i=40', 'i=76', True)], bn='1:Default Binary')), ops=('bidi',))
n = [e for e in ev if e['e'] == 'bidi']
fail('i=2' not in str(n), str(n))
'''),
dict(id='s208-self', property='C06', kind='core', needs='a node with a reference to itself',
 breaks='a reference of a node to itself is dropped',
 edits=[('src/Nodeset.c', '''    UA_NodeId_clear(&ref->target);
    ref->target = alias2Id(nodeset, targetId);
''', '''    UA_NodeId target = alias2Id(nodeset, targetId);
    UA_NodeId_clear(&ref->target);
    ref->target = target;
    if (node->nonHierachicalRefs == ref &&
        UA_NodeId_equal(&target, &node->id))
    {
        node->nonHierachicalRefs = ref->next;
        UA_NodeId_clear(&ref->target);
        UA_NodeId_clear(&ref->refType);
        free(ref);
        return;
    }
''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=41', 'ns=1;i=1', True)])))
fail(len(nodes(ev)[0]['nh']) != 1, str(nodes(ev)[0]['nh']))
'''),
dict(id='s209-two-bytes', property='C23', kind='core', needs='a document encoded with UTF-16',
 breaks='the parser is started with two bytes, which are not enough to detect the encoding without a byte order mark',
 edits=[('src/Parser.c', '(int)fread(chars, 1, 4, file);', '(int)fread(chars, 1, 1, file);')],
 demo=P + '''
x = doc(node('UAObject', 'ns=1;i=1', dn='\\u00e4\\u4e16')).replace('UTF-8', 'utf-16').replace('utf-8', 'utf-16')
ev = load(x.encode('utf-16'))
fail(len(nodes(ev)) != 1, str(ev)[:500])
'''),
dict(id='s210-ext-attributes', property='C11', kind='core', needs='an element of an extension with more than ten attributes',
 breaks='at most ten attributes are reported',
 edits=[('src/NodesetLoader.c', 'pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);', 'pctx->extIf->start(pctx->extensionData, localname,\n                               nb_attributes > 10 ? 10 : nb_attributes, attributes);')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', more='<Extensions><Extension><a %s/></Extension></Extensions>' % ' '.join('a%d="%d"' % (i, i) for i in range(14)))), ext=1)
x = [e for e in ev if e['e'] == 'xstart']
fail('a13' not in str(x), str(x))
'''),
dict(id='s211-unknown-middle', property='C05', kind='core', needs='a cycle through a node that is not part of the files',
 breaks='nodes that are not part of the files do not wait for their parents: cycles through them are not seen',
 edits=[('src/Sort.c', '''    while (ctx->keyCnt > 0)
    {
        walk_tree(ctx, ctx->root1, scan_zeros);
''', '''    while (ctx->keyCnt > 0)
    {
        scan(ctx);
'''), ('src/Sort.c', '''static bool recurse_tree(SortContext *ctx, S_Node *rootNode,
                         bool (*action)(SortContext *ctx, S_Node *))
{''', '''static bool scan_foreign(SortContext *ctx, S_Node *k)
{
    if (!k->data && !k->done && k->edgeCount > 0)
    {
        k->edgeCount = 0;
        for (S_Edge *e = k->edges; e; e = e->next)
        {
            if (e->dest->edgeCount > 1 || e->dest->done)
            {
                return false;
            }
        }
        scan_zeros(ctx, k);
        return true;
    }
    return false;
}

static void walk_tree(SortContext *ctx, S_Node *rootNode,
                      bool (*action)(SortContext *ctx, S_Node *));

static void scan(SortContext *ctx)
{
    walk_tree(ctx, ctx->root1, scan_zeros);
    if (!ctx->head)
    {
        // only references to nodes of other files are left
        walk_tree(ctx, ctx->root1, scan_foreign);
    }
}

static bool recurse_tree(SortContext *ctx, S_Node *rootNode,
                         bool (*action)(SortContext *ctx, S_Node *))
{''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', [('i=47', 'ns=1;i=99', False), ('i=47', 'ns=1;i=99', True)])))
r = [e['r'] for e in ev if e['e'] == 'sort']
fail(r[0] not in (0, False), str(r))
'''),
dict(id='s212-next-supertype', property='C17', kind='back', needs='a variable whose data type is a standard type two levels below a built-in type',
 breaks='only the immediate supertype of a data type is tried: values of types further below are not delivered',
 edits=[(I + 'import.c', '''                const UA_NodeId parent = getParentType(ServerContext_getServerObject(serverContext), attr.dataType);''', '''                const UA_NodeId parent = getParentDataType(ServerContext_getServerObject(serverContext), attr.dataType);''')],
 demo=P + '''
s = snodes(bload(doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=40', 'i=63', True)], attrs='DataType="i=2000"', more='<Value><ByteString>QUJD</ByteString></Value>'))))
fail(not s['2;i=1'].get('value') or not s['2;i=1']['value'].get('v'), str(s['2;i=1']))
'''),
dict(id='s213-repeated-index', property='C17', kind='back', needs='a namespace table that lists a URI twice, and a value with an id or a qualified name of a later namespace',
 breaks='repeated URIs are left out of the table that translates the namespaces of values, the following ones are shifted',
 edits=[(I + 'ServerContext.c', '''    void *newNamespaceIdxMapping =
''', '''    for (size_t i = 0; i < serverContext->namespaceCnt; i++)
    {
        if (serverContext->namespaceIdxMapping[i] == serverIdx)
            return;
    }
    void *newNamespaceIdxMapping =
'''), (I + 'ServerContext.c', '''        serverContext->namespaceCnt++;
        serverContext->namespaceIdxMapping[serverContext->namespaceCnt - 1] = serverIdx;''', '''        serverContext->namespaceIdxMapping[serverContext->namespaceCnt] = serverIdx;
        serverContext->namespaceCnt++;''')],
 demo=P + '''
s = snodes(bload(doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=40', 'i=63', True)], attrs='DataType="i=17"', more='<Value><NodeId xmlns="http://opcfoundation.org/UA/2008/02/Types.xsd"><Identifier>ns=3;i=7</Identifier></NodeId></Value>'), uris=['urn:a', 'urn:a', 'urn:b'])))
fail('3;i=7' not in str(s['2;i=1']['value']), str(s['2;i=1']['value']))
'''),
dict(id='s214-description-locale', property='C15', kind='back', needs='a node whose display name and description have different locales',
 breaks='the description gets the locale of the display name',
 edits=[(I + 'import.c', 'UA_LOCALIZEDTEXT(node->description.locale, node->description.text);', 'UA_LOCALIZEDTEXT(node->displayName.locale, node->description.text);')],
 demo=P + '''
s = snodes(bload(doc(node('UAObject', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=40', 'i=58', True)], more='<Description Locale="fr">un</Description>'))))
fail('fr' not in str(s['2;i=1']['desc']), str(s['2;i=1']))
'''),
]
