P = 'from nl import *\n'
I = 'backends/open62541/src/'
SEEDS = [
dict(id='s111-method-context', property='C11', kind='back', needs='a method with an extension that is loaded through the backend with an extension handler',
 breaks='the object of the extension is not handed to the server as context of methods',
 edits=[(I + 'import.c', '''                            attr, NULL, 0, NULL, 0, NULL, node->extension,
                            NULL);''', '''                            attr, NULL, 0, NULL, 0, NULL, NULL, NULL);''')],
 demo=P + '''
s = snodes(bload(doc(node('UAMethod', 'ns=1;i=1', [('i=47', 'i=85', False)], more='<Extensions><Extension><a/></Extension></Extensions>')), ext=1))
fail(s['2;i=1']['ctx'] != 0, str(s))
'''),
dict(id='s112-no-object', property='C11', kind='c', needs='an extension handler that creates no object for an extension',
 breaks='without an object, the callbacks are not called',
 edits=[('src/NodesetLoader.c', '''        if (pctx->extIf)
        {
            pctx->extIf->start(''', '''        if (pctx->extIf && pctx->extensionData)
        {
            pctx->extIf->start(''')],
 demo="import subprocess, sys\nsys.exit(subprocess.run(sys.argv[1:]).returncode)\n",
 demo_c=r'''
#include <NodesetLoader/NodesetLoader.h>
#include <stdio.h>
#include <string.h>
static int starts;
static unsigned short ns(void *c, const char *u) { return 5; }
static void *xn(void) { return NULL; }
static void xs(void *d, const char *n, int k, const char **a) { starts++; }
static void xe(void *d, const char *n, const char *v) { }
static void xf(void *d) { }
int main(int argc, char **argv) {
    char p[500]; snprintf(p, sizeof p, "%s/f.xml", argv[1]);
    FILE *f = fopen(p, "w");
    fputs("<UANodeSet><UAObject NodeId='i=1000000' BrowseName='x'><Extensions><Extension><a><b/></a></Extension></Extensions></UAObject></UANodeSet>", f); fclose(f);
    NodesetLoader_ExtensionInterface e; memset(&e, 0, sizeof e); e.newExtension = xn; e.start = xs; e.end = xe; e.finish = xf;
    NL_FileContext c; memset(&c, 0, sizeof c); c.file = p; c.addNamespace = ns; c.extensionHandling = &e;
    NodesetLoader *l = NodesetLoader_new(NULL, NULL);
    bool r = NodesetLoader_importFile(l, &c);
    NodesetLoader_delete(l);
    printf("%d starts\n", starts);
    return !r || starts != 2;
}
'''),
dict(id='s113-unbalanced', property='C01', kind='core', needs='a nodeset with tens of thousands of nodes in ascending order of their ids',
 breaks='the tree of node ids is not balanced any more: it degenerates to a list, sorting takes quadratic time and recursion',
 edits=[('src/Sort.c', '            if (s->balance == 0 || s->balance == -a) {\n', '            // the tree is almost balanced\n            if (s->balance != a || (r && r->balance == a && r->left == NULL)) {\n')],
 demo=P + '''
import time
n = 150000
x = doc(''.join(node('UAObject', 'ns=1;i=%d' % i) for i in range(1, n)))
t = time.time()
try:
    ev = load(x, ops=('sort',))
except subprocess.TimeoutExpired:
    fail(True, 'timeout')
fail(time.time() - t > 40, '%d s' % (time.time() - t))
'''),
dict(id='s138-stack-copy', property='C01', kind='core', needs='an attribute with a value of several megabytes',
 breaks='attribute values are copied to the stack first, which overflows for very long ones',
 edits=[('src/Nodeset.c', '''        char *value = CharArenaAllocator_malloc(nodeset->charArena, size + 1);
        memcpy(value, value_start, size);
''', '''        char copy[size + 1];
        memcpy(copy, value_start, size);
        copy[size] = 0;
        char *value = CharArenaAllocator_malloc(nodeset->charArena, size + 1);
        memcpy(value, copy, size);
''')],
 demo=P + '''
ev = load(doc(node('UAObject', 'ns=1;i=1', bn='1:' + 'x' * 9000000)))
fail(len(nodes(ev)) != 1, str(ev)[:300])
'''),
dict(id='s166-long-path', property='C12', kind='core', needs='a file with a path of more than 255 characters',
 breaks='paths are cut at 255 characters, such files cannot be opened',
 edits=[('src/NodesetLoader.c', '    FILE *f = fopen(fileHandler->file, "r");\n', '    char path[256] = {0};\n    strncpy(path, fileHandler->file ? fileHandler->file : "", sizeof(path) - 1);\n    FILE *f = fopen(path, "r");\n')],
 demo=P + '''
d = TMP
while len(d) < 300:
    d += '/' + 'd' * 60
    os.makedirs(d, exist_ok=True)
p = os.path.join(d, 'f.xml')
open(p, 'w').write(doc(node('UAObject', 'ns=1;i=1')))
ev = run(['ns\\turn:x\\t5', 'new\\t0\\t1\\t0', 'imp\\t0\\t%s\\t0' % p, 'del\\t0'])
fail([e['r'] for e in ev if e['e'] == 'imp'] != [True], str(ev))
'''),
dict(id='s168-null-path', property='C12', kind='core', needs='an import of a missing file after one of a file with an encoding of a data type',
 breaks='an import of an unreadable file is reported as success if the loader already has encoding links',
 edits=[('src/NodesetLoader.c', '''                            "NodesetLoader: file open error");
        retStatus = false;
''', '''                            "NodesetLoader: file open error");
        retStatus = NodesetLoader_getBidirectionalRefs(loader) != NULL;
''')],
 demo=P + '''
p = write(doc(''))
q = write(doc(node('UADataType', 'ns=1;i=1', [('i=38', 'ns=1;i=2', True)]) + node('UAObject', 'ns=1;i=2', [('i=38', 'ns=1;i=1', False)], bn='Default Binary')), 'g.xml')
ev = run(['ns\\turn:x\\t5', 'new\\t0\\t1\\t0', 'imp\\t0\\t%s\\t0' % q, 'sort\\t0', 'imp\\t0\\t%s.none\\t0' % p, 'del\\t0'])
fail([e['r'] for e in ev if e['e'] == 'imp'] != [True, False], str(ev))
'''),
dict(id='s169-first-node', property='C24', kind='core', needs='a parent with two references to the child, of different types',
 breaks='the type of the last reference of the parent to the node is used',
 edits=[('src/Sort.c', '''                    newRef->next = data->hierachicalRefs;
                    data->hierachicalRefs = newRef;
                    refTypeFound = true;
                    break;
''', '''                    newRef->next = data->hierachicalRefs;
                    data->hierachicalRefs = newRef;
                    refTypeFound = true;
''')],
 demo=P + '''
b = by_id(load(doc(node('UAObject', 'ns=1;i=1', [('i=47', 'ns=1;i=2', True), ('i=35', 'ns=1;i=2', True)]) + node('UAObject', 'ns=1;i=2', attrs='ParentNodeId="ns=1;i=1"'))))
fail(len(b['5;i=2']['h']) != 1, str(b['5;i=2']))
'''),
]
