P = 'from nl import *\n'
DT = '''
def dt(i, sup, fields, attrs='', enc=''):
    return '<UADataType NodeId="ns=1;i=%d" BrowseName="1:T%d"><DisplayName>T%d</DisplayName><References><Reference ReferenceType="i=45" IsForward="false">%s</Reference>%s</References><Definition Name="T%d"%s>%s</Definition></UADataType>' % (i, i, i, sup, enc, i, attrs, ''.join('<Field %s/>' % f for f in fields))
def var(i, ty, value, attrs=''):
    return node('UAVariable', 'ns=1;i=%d' % i, [('i=47', 'i=85', False), ('i=40', 'i=63', True)], attrs='DataType="%s" %s' % (ty, attrs), more='<Value>%s</Value>' % value)
def vals(ev):
    s = snodes(ev)
    s = s.values() if isinstance(s, dict) else s
    return {x['id']: x.get('value') for x in s}
'''
I = 'backends/open62541/src/'
SEEDS = [
dict(id='s70-boolean-one', property='C17', kind='back', needs='a Boolean value written as 1',
 breaks='Boolean values are only true if they are written as true, 1 is read as false',
 edits=[(I + 'Value.c', '*(UA_Boolean *)adr = isValTrue(value);', '*(UA_Boolean *)adr = *value == \'t\';')],
 demo=P + DT + '''
v = vals(bload(doc(var(1, 'i=1', '<Boolean>1</Boolean>'))))
fail(list(v.values())[0]['v'] not in (True, 1), str(v))
'''),
dict(id='s71-static-browse', property='C21', kind='back', flags='-fsanitize=thread', needs='two servers that are loaded at the same time in different threads',
 breaks='the description of the browse request is shared by all threads',
 edits=[(I + 'RefServiceImpl.c', '    UA_BrowseDescription bd;\n', '    static UA_BrowseDescription bd;\n')],
 demo=P + '''
import os
d = [write(doc(''.join(node('UAObject', 'ns=1;i=%d' % i, [('i=47', 'i=85', False), ('i=40', 'i=58', True)]) for i in range(1, 20)), uris=('urn:x%d' % k,)), 'f%d.xml' % k) for k in range(2)]
os.makedirs(TMP + '/err', exist_ok=True)
case = lambda n, f: 'CASE %d\\nsrv\\t0\\t1\\nload\\t0\\t%s\\t0\\ndump\\t0\\nclean\\t0\\nEND\\n' % (n, f)
inp = ''.join(case(k, f) for k, f in enumerate(d * 2))
p = subprocess.run([PROG, 'threads', '20'], input=inp.encode(), capture_output=True, timeout=200, env=dict(os.environ, TSAN_OPTIONS='exitcode=66'))
fail(p.returncode != 0, 'exit %d %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-600:]))
'''),
dict(id='s72-double-edge', property='C05', kind='core', needs='a node that states the same hierarchical relation twice',
 breaks='a repeated relation is counted, but not removed again, the nodes seem to form a loop',
 edits=[('src/Sort.c', '''    struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
    if(!e)
        return;

    to->edgeCount++;
''', '''    to->edgeCount++;
    // the relation is known already
    if(from->edges && from->edges->dest == to)
        return;

    struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
    if(!e)
        return;

''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=35', 'i=85', False)])))
fail([e['r'] for e in ev if e['e'] == 'sort'] != [True], str([e for e in ev if e['e'] in ('sort', 'log')]))
'''),
dict(id='s73-zero-value', property='C10', kind='core', needs='an enumeration with a value of 0 (which is common: the field is taken for a structure member)',
 breaks='a field with the value 0 is treated as if it had none',
 edits=[('src/Nodeset.c', '    if (value)\n    {\n        newField->value', '    if (value && atoi(value))\n    {\n        newField->value')],
 demo=P + DT + '''
b = by_id(load(doc(dt(1, 'i=29', ['Name="a" Value="0"']))))
fail(b['3;i=1']['def']['isEnum'] != True if '3;i=1' in b else not b['5;i=1']['def']['isEnum'], str(b))
'''),
dict(id='s74-ext-text', property='C11', kind='core', needs='an extension with nested elements',
 breaks='the text of an inner element of an extension is reported for the outer one, too',
 edits=[('src/NodesetLoader.c', '''            pctx->state = pctx->prev_state;
        }
    }
    pctx->onCharacters = NULL;
    pctx->onCharLength = 0;''', '''            pctx->state = pctx->prev_state;
        }
    }
    if (pctx->state != PARSER_STATE_EXTENSION)
    {
        pctx->onCharacters = NULL;
        pctx->onCharLength = 0;
    }''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', more='<Extensions><Extension><a><b>txt</b></a></Extension></Extensions>')), ext=1)
e = [x for x in ev if x['e'][0] == 'x']
fail(sum('txt' in json.dumps(x) for x in e) != 1, str(e))
'''),
dict(id='s75-truncated', property='C12', kind='core', needs='a file that ends between two nodes',
 breaks='a document that ends between two nodes is accepted',
 edits=[('src/NodesetLoader.c', '    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters))', '    if (Parser_run(parser, f, OnStartElementNs, OnEndElementNs, OnCharacters) &&\n        (ctx->state != PARSER_STATE_INIT || !ctx->node))')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1')).replace('</UANodeSet>', ''))
fail([e['r'] for e in ev if e['e'] == 'imp'] != [False], str(ev))
'''),
dict(id='s76-null-context', property='C22', kind='c', needs='an own logger whose context is NULL',
 breaks='a logger without a context is replaced by the built-in one',
 edits=[('src/NodesetLoader.c', '    if (!logger)\n', '    if (!logger || !logger->context)\n')],
 demo='''import subprocess, sys
p = subprocess.run([sys.argv[1], sys.argv[2] + '/none.xml'], capture_output=True, text=True)
print(p.returncode, p.stdout[-300:])
sys.exit(p.returncode)
''',
 demo_c=r'''
#include <NodesetLoader/NodesetLoader.h>
#include <string.h>
static int calls;
static void mine(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { calls++; }
static unsigned short ns(void *c, const char *u) { return 3; }
int main(int argc, char **argv) {
    NodesetLoader_Logger lg; memset(&lg, 0, sizeof lg); lg.log = mine;
    NodesetLoader *l = NodesetLoader_new(&lg, NULL);
    NL_FileContext c; memset(&c, 0, sizeof c); c.addNamespace = ns; c.file = argv[1];
    NodesetLoader_importFile(l, &c);
    NodesetLoader_delete(l);
    return calls ? 0 : 1;
}
'''),
dict(id='s77-null-service', property='C06', kind='c', needs='an own reference service whose context is NULL',
 breaks='a reference service without a context is replaced by the built-in one',
 edits=[('src/NodesetLoader.c', '    if (!refService)\n', '    if (!refService || !refService->context)\n')],
 demo='''import subprocess, sys
f = sys.argv[2] + '/a.xml'
open(f, 'w').write('<UANodeSet><UAObject NodeId="i=500000" BrowseName="a"><DisplayName>a</DisplayName><References><Reference ReferenceType="i=47" IsForward="false">i=85</Reference></References></UAObject></UANodeSet>')
p = subprocess.run([sys.argv[1], f], capture_output=True, text=True)
print(p.returncode, p.stdout[-300:])
sys.exit(p.returncode)
''',
 demo_c=r'''
#include <NodesetLoader/NodesetLoader.h>
#include <string.h>
static int asked;
static void quiet(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { }
static unsigned short ns(void *c, const char *u) { return 3; }
static void addT(void *c, NL_ReferenceTypeNode *n) { }
static bool isH(void *c, const NL_Reference *r) { asked++; return true; }
static bool isN(void *c, const NL_Reference *r) { return false; }
static bool isT(void *c, const NL_Reference *r) { return false; }
int main(int argc, char **argv) {
    NodesetLoader_Logger lg; memset(&lg, 0, sizeof lg); lg.log = quiet; lg.context = &lg;
    NL_ReferenceService rs; memset(&rs, 0, sizeof rs);
    rs.addNewReferenceType = (RefService_addNewReferenceType)addT;
    rs.isHierachicalRef = (RefService_isRefHierachical)isH;
    rs.isNonHierachicalRef = (RefService_isRefNonHierachical)isN;
    rs.isHasTypeDefRef = (RefService_isHasTypeDefRef)isT;
    NodesetLoader *l = NodesetLoader_new(&lg, &rs);
    NL_FileContext c; memset(&c, 0, sizeof c); c.addNamespace = ns; c.file = argv[1];
    NodesetLoader_importFile(l, &c);
    NodesetLoader_delete(l);
    return asked ? 0 : 1;
}
'''),
dict(id='s79-rank-dims', property='C15', kind='back', needs='a variable with a value rank of two or more and without array dimensions',
 breaks='variables of any array rank without array dimensions get one dimension of length 0',
 edits=[(I + 'import.c', '    if (attr.arrayDimensions == NULL && attr.valueRank == 1)', '    if (attr.arrayDimensions == NULL && attr.valueRank >= 1)')],
 demo=P + '''
ev = bload(doc(node('UAVariable', 'ns=1;i=1', [('i=47', 'i=85', False), ('i=40', 'i=63', True)], attrs='ValueRank="2"')))
s = snodes(ev)
s = list(s.values()) if isinstance(s, dict) else s
fail(s[0]['dims'] != [], str(s[0]))
'''),
dict(id='s81-empty-attr', property='C03', kind='core', needs='an attribute that is present with an empty value',
 breaks='an empty attribute is treated as absent',
 edits=[('src/Nodeset.c', '''        if (strcmp((const char *)localname, attr->name))
''', '''        if (strcmp((const char *)localname, attr->name) ||
            attributes[i * fields + 3] == attributes[i * fields + 4])
''')],
 demo=P + '''
b = by_id(load(doc('<UAObject NodeId="ns=1;i=1" BrowseName=""><DisplayName Locale="">n</DisplayName></UAObject>')))
fail(b['5;i=1']['dn'][0] != '' or b['5;i=1']['bn'] != '', str(b['5;i=1']))
'''),
dict(id='s82-trim', property='C09', kind='core', needs='a text value that starts with white space',
 breaks='leading white space of texts is lost',
 edits=[('src/Value.c', '''        if(!isspace((unsigned char)*c))
        {
            return value;''', '''        if(!isspace((unsigned char)*c))
        {
            return c;''')],
 demo=P + '''
b = by_id(load(doc(node('UAVariable', 'ns=1;i=1', more='<Value><String>  a b </String></Value>'))))
fail(b['5;i=1']['value']['data']['p'] != '  a b ', str(b['5;i=1']['value']))
'''),
dict(id='s91-moved-twice', property='C13', kind='c', needs='a text that has to be moved to a new region twice, that is one larger than half of the arena',
 breaks='a text that was moved to a new region forgets what it held before: it loses its start if it is moved again',
 edits=[('src/CharAllocator.c', '        newRegion->userSize = arena->current->userSize;\n', '        newRegion->userSize = 0;\n')],
 demo='''import subprocess, sys
p = subprocess.run([sys.argv[1]], capture_output=True, text=True)
print(p.returncode, p.stdout[-300:])
sys.exit(p.returncode)
''',
 demo_c=r'''
#include "CharAllocator.h"
#include <string.h>
#include <stdio.h>
int main(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(16);
    char *p = CharArenaAllocator_malloc(a, 10);
    size_t n = 0;
    memset(p, 'a', 10); n = 10;
    for(int i = 0; i < 12; i++) {
        p = CharArenaAllocator_realloc(a, 10);
        memset(p + n, 'b' + i, 10); n += 10;
    }
    int bad = 0;
    for(size_t i = 0; i < n; i++) if(p[i] != (char)('a' + i / 10)) bad++;
    printf("%d wrong characters\n", bad);
    CharArenaAllocator_delete(a);
    return bad ? 1 : 0;
}
'''),
dict(id='s98-attempts', property='C15', kind='back', needs='a chain of nodes that can only be added one after the other, longer than ten',
 breaks='nodes are given at most ten further chances',
 edits=[(I + 'import.c', '        attempt++;\n', '        if (attempt++ == 10)\n        {\n            break;\n        }\n')],
 demo=P + '''
# variables are added behind methods, each method needs the variable in front of it: chain of alternating classes
N = 40
b = ''
for i in range(1, N + 1):
    par = 'i=85' if i == 1 else 'ns=1;i=%d' % (i - 1)
    if i % 2:
        b += node('UAVariable', 'ns=1;i=%d' % i, [('i=47', par, False), ('i=40', 'i=63', True)])
    else:
        b += node('UAMethod', 'ns=1;i=%d' % i, [('i=47', par, False)])
s = snodes(bload(doc(b)))
fail(len(s) != N, '%d nodes' % len(s))
'''),
dict(id='s101-early-end', property='C02', kind='back', flags='-fsanitize=address', needs='nodes that cannot be added at first, but all of them at the next attempt',
 breaks='the list of nodes that could not be added is leaked if the next attempt succeeds',
 edits=[(I + 'import.c', '''        NodeContainer_delete((*badStatusNodes));
        (*badStatusNodes) = local_badStatusNodes;
        attempt++;
''', '''        if (local_badStatusNodes->size != 0)
        {
            NodeContainer_delete((*badStatusNodes));
        }
        (*badStatusNodes) = local_badStatusNodes;
        attempt++;
''')],
 demo=P + '''
t = doc(node('UAMethod', 'ns=1;i=1', [('i=47', 'ns=1;i=5', False)]) + node('UAVariable', 'ns=1;i=5', [('i=47', 'i=85', False), ('i=40', 'i=63', True)]))
p = write(t)
ev = run(['srv\\t0\\t1', 'load\\t0\\t%s\\t0' % p, 'clean\\t0'], mode='1')
l = [e for e in ev if e['e'] == 'live']
fail(not l or l[-1]['n'] != 0, str(l))
'''),
dict(id='s102-later-child', property='C24', kind='core', needs='files that are sorted separately: a child that only names its parent is imported after the parent was sorted',
 breaks='a parent delivered by an earlier sort no longer determines the kind of the reference',
 edits=[('src/Sort.c', '        if (k->data) {\n', '        if (k->data && !k->done) {\n')],
 demo=P + '''
lines = ['ns\\turn:x\\t5', 'new\\t0\\t1\\t0',
  'imp\\t0\\t%s\\t0' % write(doc(node('UAObject', 'ns=1;i=1', [('i=46', 'ns=1;i=2', True)])), 'a.xml'), 'sort\\t0',
  'imp\\t0\\t%s\\t0' % write(doc(node('UAVariable', 'ns=1;i=2', attrs='ParentNodeId="ns=1;i=1"')), 'b.xml'), 'sort\\t0', 'dump\\t0', 'del\\t0']
b = by_id(run(lines))
fail([h[0] for h in b['5;i=2']['h']] != ['0;i=46'], str(b['5;i=2']['h']))
'''),
dict(id='s105-own-types', property='C17', kind='back', needs='a variable whose data type was defined in another namespace than the one of the variable',
 breaks='custom data types are only found if they are of the namespace of the variable',
 edits=[(I + 'import.c', '''            // try it with custom types
            dataType = NodesetLoader_getCustomDataType(ServerContext_getServerObject(serverContext), &attr.dataType);''', '''            // try it with custom types
            if (attr.dataType.namespaceIndex == id->namespaceIndex)
            {
                dataType = NodesetLoader_getCustomDataType(ServerContext_getServerObject(serverContext), &attr.dataType);
            }''')],
 demo=P + DT + '''
v = '<ExtensionObject xmlns="http://opcfoundation.org/UA/2008/02/Types.xsd"><TypeId><Identifier>ns=1;i=9</Identifier></TypeId><Body><T1><a>7</a></T1></Body></ExtensionObject>'
d = doc(dt(1, 'i=22', ['Name="a" DataType="i=6"']))
e = doc(var(7, 'ns=2;i=1', v), uris=('urn:y', 'urn:x'))
r = vals(bload(d, e))
fail(not [x for x in r.values() if x and x.get('v')], str(r))
'''),
dict(id='s106-name-index', property='C07', kind='core', needs='a browse name whose namespace index in the server is 256 or more',
 breaks='namespace indices of browse names are cut to 8 bits',
 edits=[('src/Nodeset.c', '                (uint16_t)NamespaceList_getNamespace(namespaces, bn.nsIdx)->idx;', '                (uint8_t)NamespaceList_getNamespace(namespaces, bn.nsIdx)->idx;')],
 demo=P + '''
b = nodes(load(doc(node('UAObject', 'ns=1;i=1')), ns=(('urn:x', 300),)))
fail(b[0]['bns'] != 300, str(b))
'''),
dict(id='s108-null-user', property='C07', kind='c', needs='a file handler with a user context',
 breaks='the user context handed to addNamespace is the one of the first file for all files',
 edits=[('src/NodesetLoader.c', '    ctx->userContext = fileHandler->userContext;', '    ctx->userContext = loader->nodeset->userContext ? loader->nodeset->userContext : fileHandler->userContext;\n    loader->nodeset->userContext = ctx->userContext;'),
   ('src/Nodeset.h', 'struct Nodeset\n{\n', 'struct Nodeset\n{\n    void *userContext;\n')],
 demo='''import subprocess, sys
T = sys.argv[2]
for k in range(2):
    open('%s/%d.xml' % (T, k), 'w').write('<UANodeSet><NamespaceUris><Uri>urn:%d</Uri></NamespaceUris></UANodeSet>' % k)
p = subprocess.run([sys.argv[1], T + '/0.xml', T + '/1.xml'], capture_output=True, text=True)
print(p.returncode, p.stdout[-300:])
sys.exit(p.returncode)
''',
 demo_c=r'''
#include <NodesetLoader/NodesetLoader.h>
#include <string.h>
#include <stdio.h>
static int a, b;
static void quiet(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { }
static unsigned short ns(void *c, const char *u) { (*(int *)c)++; return 3; }
int main(int argc, char **argv) {
    NodesetLoader_Logger lg; memset(&lg, 0, sizeof lg); lg.log = quiet; lg.context = &lg;
    NodesetLoader *l = NodesetLoader_new(&lg, NULL);
    NL_FileContext c; memset(&c, 0, sizeof c); c.addNamespace = ns; c.file = argv[1]; c.userContext = &a;
    NodesetLoader_importFile(l, &c);
    c.file = argv[2]; c.userContext = &b;
    NodesetLoader_importFile(l, &c);
    NodesetLoader_delete(l);
    printf("%d %d\n", a, b);
    return a == 1 && b == 1 ? 0 : 1;
}
'''),
dict(id='s109-ext-of-file', property='C11', kind='core', needs='files imported with and without an extension handler by the same loader',
 breaks='a file imported without an extension handler uses the handler of the previous file',
 edits=[('src/NodesetLoader.c', '    ctx->extIf = fileHandler->extensionHandling;', '    if (fileHandler->extensionHandling)\n    {\n        loader->extIf = fileHandler->extensionHandling;\n    }\n    ctx->extIf = loader->extIf;'),
   ('src/NodesetLoader.c', '    bool internalRefService;\n};', '    bool internalRefService;\n    NodesetLoader_ExtensionInterface *extIf;\n};')],
 demo=P + '''
x = '<Extensions><Extension><a/></Extension></Extensions>'
lines = ['ns\\turn:x\\t5', 'new\\t0\\t1\\t0',
  'imp\\t0\\t%s\\t1' % write(doc(node('UAObject', 'ns=1;i=1', more=x)), 'a.xml'),
  'imp\\t0\\t%s\\t0' % write(doc(node('UAObject', 'ns=1;i=2', more=x)), 'b.xml'), 'sort\\t0', 'dump\\t0', 'del\\t0']
b = by_id(run(lines))
fail(b['5;i=2']['ext'] != -2, str(b['5;i=2']['ext']))
'''),
]
