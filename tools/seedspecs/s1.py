P = 'from nl import *\n'
SEEDS = [
dict(id='s01-arena-move', property='C13', kind='c', needs='a text that is extended by a piece smaller than the initial size while old content and piece together exceed it',
 breaks='the region allocated for a moved block is too small for its old content, the block overruns its region',
 edits=[('src/CharAllocator.c', 'Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize));', 'Region_new(getRegionSize(size, arena->initialSize));')],
 flags='-fsanitize=address',
 demo='import subprocess,sys\nsys.exit(1 if subprocess.run([sys.argv[1]]).returncode else 0)\n',
 demo_c='''#include "CharAllocator.h"
#include <string.h>
#include <stdio.h>
int main(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(1000);
    CharArenaAllocator_malloc(a, 300);
    char *p = CharArenaAllocator_malloc(a, 650); memset(p, 'x', 650);
    p = CharArenaAllocator_realloc(a, 700); memset(p + 650, 'y', 700);
    for(int i = 0; i < 1350; i++) if(p[i] != (i < 650 ? 'x' : 'y')) { printf("content lost\\n"); return 1; }
    CharArenaAllocator_delete(a);
    return 0;
}
'''),
dict(id='s02-cdata', property='C23', kind='core', needs='a text that is written (partly) as CDATA section',
 breaks='text inside of CDATA sections is not delivered',
 edits=[('src/Parser.c', '    hdl.characters = (charactersSAXFunc)onChars;\n', '    hdl.characters = (charactersSAXFunc)onChars;\n    hdl.cdataBlock = (cdataBlockSAXFunc)skipBlock;\n'),
        ('src/Parser.c', 'int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,\n               Parser_callbackEnd end, Parser_callbackChar onChars)',
         'static void skipBlock(void *ctx, const xmlChar *value, int len) {}\n\nint Parser_run(Parser *parser, FILE *file,\n               Parser_callbackStart start, Parser_callbackEnd end,\n               Parser_callbackChar onChars)')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', dn='a<![CDATA[b&c]]>d')))
n = by_id(ev)['5;i=1']
fail(n['dn'][1] != 'ab&cd', str(n['dn']))
'''),
dict(id='s03-avl', property='C04', kind='core', needs='node ids whose order of first appearance makes the id tree rotate twice with inner subtrees present',
 breaks='the double rotation of the id tree drops an inner subtree: relations of nodes in it are forgotten and children come before their parents',
 edits=[('src/Sort.c', '                            r->right = p->left;\n', '                            r->right = NULL;\n')],
 demo=P + '''
import itertools, random
r = random.Random(7)
for n in (6, 8, 12, 30):
    for t in range(12):
        ids = list(range(1, n + 1)); r.shuffle(ids)
        body = ''.join(node('UAObject', 'ns=1;i=%d' % ids[k], [('i=35', 'ns=1;i=%d' % ids[k + 1] if k + 1 < n else 'i=85', False)]) for k in range(n))
        ev = load(doc(body))
        got = [int(e['id'].split('=')[1]) for e in nodes(ev)]
        fail(got != ids[::-1], 'order %s instead of %s' % (got, ids[::-1]))
'''),
dict(id='s04-browsename-ns', property='C07', kind='core', needs='a namespace whose index on the caller side is lower than its index in the file',
 breaks='browse names keep the namespace index when the translated one is smaller',
 edits=[('src/Nodeset.c', '        if (ns != NULL)\n        {\n            bn.nsIdx =', '        if (ns != NULL && ns->idx > bn.nsIdx)\n        {\n            bn.nsIdx =')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=3;i=1', bn='3:c') + node('UAObject', 'ns=1;i=1', bn='1:a'), uris=('urn:a', 'urn:b', 'urn:c')), ns=(('urn:a', 9), ('urn:b', 4), ('urn:c', 2)))
b = by_id(ev)
fail(b['2;i=1']['bns'] != 2 or b['9;i=1']['bns'] != 9, str([x['bns'] for x in b.values()]))
'''),
dict(id='s05-value-name', property='C09', kind='core', needs='a structure member that holds a nested structure with a member of the same name as the one enclosing it',
 breaks='a nested member that carries the name of its parent closes both levels, the rest of the structure lands in the wrong place',
 edits=[('src/Value.c', '        val->ctx->currentData = val->ctx->currentData->parent;\n        // exit conditions', '''        val->ctx->currentData = val->ctx->currentData->parent;
        if (val->ctx->currentData && val->ctx->currentData->parent &&
            val->ctx->currentData->val.complexData.membersSize == 1 &&
            !strcmp(name, val->ctx->currentData->name))
        {
            val->ctx->currentData = val->ctx->currentData->parent;
        }
        // exit conditions''')],
 demo=P + '''
t = 'xmlns:u="http://opcfoundation.org/UA/2008/02/Types.xsd"'
v = '<Value><u:ExtensionObject %s><u:TypeId><u:Identifier>ns=1;i=3</u:Identifier></u:TypeId><u:Body><S><a><a>1</a><b>2</b></a><c>3</c></S></u:Body></u:ExtensionObject></Value>' % t
ev = load(doc(node('UAVariable', 'ns=1;i=1', more=v)))
d = by_id(ev)['5;i=1']['value']['data']
want = {'n': 'S', 'c': [{'n': 'a', 'c': [{'n': 'a', 'p': '1'}, {'n': 'b', 'p': '2'}]}, {'n': 'c', 'p': '3'}]}
fail(d != want, str(d))
'''),
dict(id='s06-parentlink', property='C24', kind='core', needs='a parent with several hierarchical references, of which the one to the child is not the first of its list',
 breaks='the parent link takes the type of another reference of the parent',
 edits=[('src/Sort.c', '                    UA_NodeId_copy(&r->refType, &newRef->refType);', '                    UA_NodeId_copy(&k->data->hierachicalRefs->refType, &newRef->refType);')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', [('i=46', 'ns=1;i=2', True), ('i=35', 'ns=1;i=3', True), ('i=47', 'i=85', False)]) +
  node('UAVariable', 'ns=1;i=2', attrs='ParentNodeId="ns=1;i=1"') + node('UAObject', 'ns=1;i=3', attrs='ParentNodeId="ns=1;i=1"')))
b = by_id(ev)
fail(b['5;i=2']['h'] != [['0;i=46', '5;i=1', False]], str(b['5;i=2']['h']))
fail(b['5;i=3']['h'] != [['0;i=35', '5;i=1', False]], str(b['5;i=3']['h']))
'''),
]
