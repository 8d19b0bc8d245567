From 3d58c586b2ed8bc594bdb13f0290a330836fe3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 01/48] fix: built-in logger prints the formatted message
 instead of the format string

---
 src/PrintfLogger.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/PrintfLogger.c b/src/PrintfLogger.c
index 6acf9c3..f607826 100644
--- a/src/PrintfLogger.c
+++ b/src/PrintfLogger.c
@@ -17,8 +17,19 @@ static void logStdOut(void *context, enum NodesetLoader_LogLevel level,
 {
     va_list vl;
     va_start(vl, message);
+    int length = vsnprintf(NULL, 0, message, vl);
     va_end(vl);
-    printf("NODESETLOADER: %s : %s\n", logLevel[level], message);
+    char *text = length < 0 ? NULL : (char *)malloc((size_t)length + 1);
+    if (!text)
+    {
+        printf("NODESETLOADER: %s : %s\n", logLevel[level], message);
+        return;
+    }
+    va_start(vl, message);
+    vsnprintf(text, (size_t)length + 1, message, vl);
+    va_end(vl);
+    printf("NODESETLOADER: %s : %s\n", logLevel[level], text);
+    free(text);
 }
 
 NodesetLoader_Logger *InternalLogger_new(void)
-- 
2.43.0


From 0ac419dafe4bd08fce6664182bcf6848a604d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 02/48] fix: parser reports incomplete documents and read
 errors and frees its context on errors

---
 src/Parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index aa5bf27..2d736ee 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -46,17 +46,23 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     xmlInitParser(); // Fix memory leak: https://gitlab.gnome.org/GNOME/libxml2/-/issues/9
     xmlParserCtxtPtr ctxt =
         xmlCreatePushParserCtxt(&hdl, parser->context, chars, res, NULL);
+    if (!ctxt)
+    {
+        return 1;
+    }
     while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
         if (xmlParseChunk(ctxt, chars, res, 0))
         {
             xmlParserError(ctxt, "xmlParseChunk");
+            xmlFreeParserCtxt(ctxt);
             return 1;
         }
     }
-    xmlParseChunk(ctxt, chars, 0, 1);
+    // only the end of the document tells whether it is complete
+    int status = ferror(file) ? 1 : xmlParseChunk(ctxt, chars, 0, 1);
     xmlFreeParserCtxt(ctxt);
     xmlCleanupParser();
-    return 0;
+    return status ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From 3565baaac83c19626f9bbb5656a94baf92979dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 03/48] fix: resolve predefined entities in attribute values

---
 src/Parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index 2d736ee..457d9c3 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -50,6 +50,8 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     {
         return 1;
     }
+    // deliver resolved entities in attribute values, too
+    xmlCtxtUseOptions(ctxt, XML_PARSE_NOENT);
     while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
         if (xmlParseChunk(ctxt, chars, res, 0))
-- 
2.43.0


From 61850e205dd9563aaec3d88109f71818ef79e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 04/48] fix: do not tear down libxml2's global state after
 every parse

Other users of libxml2 in the process, among them other loaders in other
threads, may be using it.
---
 src/Parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Parser.c b/src/Parser.c
index 457d9c3..ca8d63a 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -64,7 +64,6 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     // only the end of the document tells whether it is complete
     int status = ferror(file) ? 1 : xmlParseChunk(ctxt, chars, 0, 1);
     xmlFreeParserCtxt(ctxt);
-    xmlCleanupParser();
     return status ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From bec32cdb62c85cf16da4490ef8faddfe89b58139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 05/48] fix: loader functions crash when nothing was imported

---
 src/NodesetLoader.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 4e80577..d4b9e21 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -514,6 +514,11 @@ cleanup:
 
 bool NodesetLoader_sort(NodesetLoader *loader)
 {
+    // nothing imported, nothing to sort
+    if (!loader->nodeset)
+    {
+        return true;
+    }
     return Nodeset_sort(loader->nodeset);
 }
 
@@ -548,7 +553,10 @@ NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,
 
 void NodesetLoader_delete(NodesetLoader *loader)
 {
-    Nodeset_cleanup(loader->nodeset);
+    if (loader->nodeset)
+    {
+        Nodeset_cleanup(loader->nodeset);
+    }
     if (loader->internalLogger)
     {
         free(loader->logger);
@@ -563,12 +571,17 @@ void NodesetLoader_delete(NodesetLoader *loader)
 const NL_BiDirectionalReference *
 NodesetLoader_getBidirectionalRefs(const NodesetLoader *loader)
 {
-    return Nodeset_getBiDirectionalRefs(loader->nodeset);
+    return loader->nodeset ? Nodeset_getBiDirectionalRefs(loader->nodeset)
+                           : NULL;
 }
 
 size_t NodesetLoader_forEachNode(NodesetLoader *loader, NL_NodeClass nodeClass,
                                void *context,
                                NodesetLoader_forEachNode_Func fn)
 {
+    if (!loader->nodeset)
+    {
+        return 0;
+    }
     return Nodeset_forEachNode(loader->nodeset, nodeClass, context, fn);
 }
-- 
2.43.0


From 6de29182c1502de3b8213962e1df3f7cbda2fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 06/48] fix: any number of aliases, with node ids of any kind

More than 300 aliases or an alias without a name crashed, string ids were
shared between the alias and its users and freed more than once.
---
 src/AliasList.c | 23 ++++++++++++++++++-----
 src/Nodeset.c   |  9 ++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index f187ad6..13bdaa1 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -9,12 +9,13 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MAX_ALIAS 300
+#define INITIAL_ALIAS_CAPACITY 300
 
 struct AliasList
 {
     Alias *data;
     size_t size;
+    size_t capacity;
 };
 
 AliasList *AliasList_new(void)
@@ -24,20 +25,28 @@ AliasList *AliasList_new(void)
     {
         return NULL;
     }
-    list->data = (Alias *)calloc(MAX_ALIAS, sizeof(Alias));
+    list->data = (Alias *)calloc(INITIAL_ALIAS_CAPACITY, sizeof(Alias));
     if(!list->data)
     {
         free(list);
         return NULL;
     }
+    list->capacity = INITIAL_ALIAS_CAPACITY;
     return list;
 }
 
 Alias *AliasList_newAlias(AliasList *list, char *name)
 {
-    if(list->size >= MAX_ALIAS)
+    if(list->size >= list->capacity)
     {
-        return NULL;
+        Alias *data =
+            (Alias *)realloc(list->data, 2 * list->capacity * sizeof(Alias));
+        if(!data)
+        {
+            return NULL;
+        }
+        list->data = data;
+        list->capacity *= 2;
     }
     list->data[list->size].name = name;
     UA_NodeId_init(&list->data[list->size].id);
@@ -51,7 +60,7 @@ const UA_NodeId *
         return NULL;
 
     for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
-        if (!strcmp(name, alias->name))
+        if (alias->name && !strcmp(name, alias->name))
             return &alias->id;
     }
     return NULL;
@@ -59,6 +68,10 @@ const UA_NodeId *
 
 void AliasList_delete(AliasList *list)
 {
+    for(size_t i = 0; i < list->size; i++)
+    {
+        UA_NodeId_clear(&list->data[i].id);
+    }
     free(list->data);
     free(list);
 }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index a3b3c88..b0d30bd 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -150,7 +150,10 @@ static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
     {
         return extractNodedId(nodeset->namespaces, name);
     }
-    return *alias;
+    // the alias keeps its own id
+    UA_NodeId id = UA_NODEID_NULL;
+    UA_NodeId_copy(alias, &id);
+    return id;
 }
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
@@ -483,6 +486,10 @@ Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 {
+    if (!alias)
+    {
+        return;
+    }
     alias->id = extractNodedId(nodeset->namespaces, idString);
 }
 
-- 
2.43.0


From 0cabf97fc133b82939af1de29e0aad5da2ecf6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 07/48] fix: namespace table and aliases are local to the
 imported file

---
 src/Nodeset.c       | 9 +++++++++
 src/Nodeset.h       | 1 +
 src/NodesetLoader.c | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index b0d30bd..1744ef4 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -184,6 +184,15 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     return nodeset;
 }
 
+void Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
+{
+    // namespace table and aliases are local to a file
+    AliasList_delete(nodeset->aliasList);
+    nodeset->aliasList = AliasList_new();
+    NamespaceList_delete(nodeset->namespaces);
+    nodeset->namespaces = NamespaceList_new(nsCallback);
+}
+
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
diff --git a/src/Nodeset.h b/src/Nodeset.h
index bc67733..0b7c7fc 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -40,6 +40,7 @@ struct Nodeset
 };
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
+void Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback);
 void Nodeset_cleanup(Nodeset *nodeset);
 bool Nodeset_sort(Nodeset *nodeset);
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index d4b9e21..634bb60 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -466,6 +466,10 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                       loader->refService);
     }
+    else
+    {
+        Nodeset_startFile(loader->nodeset, fileHandler->addNamespace);
+    }
 
     TParserCtx *ctx = NULL;
     FILE *f = fopen(fileHandler->file, "r");
-- 
2.43.0


From c8c4d9a279597c35310e048db4eef6c02e340515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 08/48] fix: deleting a node frees all its references and ids,
 fields start zeroed

---
 src/Nodeset.c            |  2 ++
 src/nodes/DataTypeNode.c | 11 ++++++++++-
 src/nodes/Node.c         | 16 ++++++++++++----
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 1744ef4..8705a48 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -453,6 +453,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_VariableNode *)node)->refToTypeDef;
         ((NL_VariableNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -461,6 +462,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
         ((NL_ObjectNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index c2343e7..15fb392 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -7,6 +7,7 @@
 
 #include "DataTypeNode.h"
 #include <stdlib.h>
+#include <string.h>
 
 static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition)
 {
@@ -18,7 +19,10 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
     {
         return NULL;
     }
-    return &definition->fields[definition->fieldCnt - 1];
+    NL_DataTypeDefinitionField *field =
+        &definition->fields[definition->fieldCnt - 1];
+    memset(field, 0, sizeof(NL_DataTypeDefinitionField));
+    return field;
 }
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
@@ -41,7 +45,12 @@ void DataTypeNode_clear(NL_DataTypeNode *node)
 {
     if (node->definition)
     {
+        for (size_t i = 0; i < node->definition->fieldCnt; i++)
+        {
+            UA_NodeId_clear(&node->definition->fields[i].dataType);
+        }
         free(node->definition->fields);
     }
     free(node->definition);
+    node->definition = NULL;
 }
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index f494a80..545890a 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -64,6 +64,11 @@ void Node_delete(NL_Node *node)
     UA_NodeId_clear(&node->id);
     deleteRef(node->hierachicalRefs);
     deleteRef(node->nonHierachicalRefs);
+    deleteRef(node->unknownRefs);
+    if (NodesetLoader_isInstanceNode(node))
+    {
+        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
+    }
     if (node->nodeClass == NODECLASS_DATATYPE)
     {
         DataTypeNode_clear((NL_DataTypeNode *)node);
@@ -71,8 +76,8 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass == NODECLASS_VARIABLE)
     {
         NL_VariableNode* varNode = (NL_VariableNode*)node;
-        free(varNode->refToTypeDef);
-        UA_NodeId_clear(&varNode->parentNodeId);
+        deleteRef(varNode->refToTypeDef);
+        UA_NodeId_clear(&varNode->datatype);
         if(varNode->value)
         {
             Value_delete(varNode->value);
@@ -81,8 +86,11 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass==NODECLASS_OBJECT)
     {
         NL_ObjectNode *objNode = (NL_ObjectNode *)node;
-        UA_NodeId_clear(&objNode->parentNodeId);
-        free(objNode->refToTypeDef);
+        deleteRef(objNode->refToTypeDef);
+    }
+    if(node->nodeClass==NODECLASS_VARIABLETYPE)
+    {
+        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
     }
     free(node);
 }
-- 
2.43.0


From cfe115fc64f9d6ce59b1bb30c70d7d93f3362aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 09/48] fix: nodeset owns every node from creation on,
 independent of sorting

---
 src/Nodeset.c | 22 +++++++++++++---------
 src/Nodeset.h |  2 ++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 8705a48..ce3a41b 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -168,14 +168,15 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->aliasList = AliasList_new();
     nodeset->namespaces = NamespaceList_new(nsCallback);
     nodeset->charArena = CharArenaAllocator_new(1024 * 1024);
-    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, true);
-    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, true);
+    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, false);
+    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, false);
+    nodeset->allNodes = NodeContainer_new(10000, true);
     nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refService = refService;
@@ -286,6 +287,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     {
         NodeContainer_delete(nodeset->nodes[cnt]);
     }
+    NodeContainer_delete(nodeset->allNodes);
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
     NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
     NamespaceList_delete(nodeset->namespaces);
@@ -426,6 +428,9 @@ NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
                          int nb_attributes, const char **attributes)
 {
     NL_Node *node = Node_new(nodeClass);
+    // every node lives until the nodeset is cleaned up, no matter if it is
+    // sorted afterwards
+    NodeContainer_add(nodeset->allNodes, node);
     initNode(nodeset, nodeset->namespaces, nodeClass, node, nb_attributes,
              attributes);
     return node;
@@ -521,7 +526,6 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
                 nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                             "node was not added to sorting algorithm, already exists");
             }
-            Node_delete(node);
         }
         else
         {
diff --git a/src/Nodeset.h b/src/Nodeset.h
index 0b7c7fc..6dd85c4 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -30,6 +30,8 @@ struct Nodeset
     CharArenaAllocator *charArena;
     struct AliasList *aliasList;
     struct NodeContainer *nodes[NL_NODECLASS_COUNT];
+    // owns all nodes
+    struct NodeContainer *allNodes;
     struct NamespaceList *namespaces;
     struct SortContext *sortCtx;
     NL_BiDirectionalReference *hasEncodingRefs;
-- 
2.43.0


From 8aded1d9ebbc4234edb15016168fc4d6d75dbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 10/48] fix: value of a variable is freed when replaced or not
 used, second value is ignored

---
 src/NodesetLoader.c | 19 ++++++++++++++++++-
 src/Value.c         | 13 ++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 634bb60..97e8e07 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -367,7 +367,19 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             /* TODO: Enable VariableType to hold a valeu */
             if(pctx->node->nodeClass == NODECLASS_VARIABLE)
-                ((NL_VariableNode *)pctx->node)->value = pctx->val;
+            {
+                NL_VariableNode *varNode = (NL_VariableNode *)pctx->node;
+                if (varNode->value)
+                {
+                    Value_delete(varNode->value);
+                }
+                varNode->value = pctx->val;
+            }
+            else
+            {
+                Value_delete(pctx->val);
+            }
+            pctx->val = NULL;
             pctx->state = PARSER_STATE_NODE;
         }
         else
@@ -508,6 +520,11 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
     Parser_delete(parser);
 
 cleanup:
+    if (ctx && ctx->val)
+    {
+        // parsing stopped inside of a value
+        Value_delete(ctx->val);
+    }
     free(ctx);
     if (f)
     {
diff --git a/src/Value.c b/src/Value.c
index c14153b..88fa49f 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -48,6 +48,12 @@ void Value_start(NL_Value *val, const char *name)
     switch (val->ctx->state)
     {
     case PARSERSTATE_INIT:
+        // a variable holds one value, only a list of extensionobjects goes on
+        if (val->data && !(val->isArray && !strcmp(name, "ExtensionObject")))
+        {
+            val->ctx->state = PARSERSTATE_FINISHED;
+            break;
+        }
         if (!strncmp(name, "ListOf", strlen("ListOf")))
         {
             val->ctx->state = PARSERSTATE_LISTOF;
@@ -97,6 +103,11 @@ void Value_start(NL_Value *val, const char *name)
         }
         break;
     case PARSERSTATE_EXTENSIONOBJECT_BODY:
+        if (val->data && !val->ctx->currentData)
+        {
+            val->ctx->state = PARSERSTATE_FINISHED;
+            break;
+        }
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
@@ -196,7 +207,7 @@ void Value_end(NL_Value *val, const char *name, const char *value)
             val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_BODY;
         }
         // listOfExtensionObject
-        if (val->isExtensionObject && val->isArray &&
+        if (val->isExtensionObject && val->isArray && val->ctx->currentData &&
             val->ctx->currentData->parent == NULL)
         {
             val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_BODY;
-- 
2.43.0


From c7093dc5e068febc1e5a23cb92f3ba01dc34d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 11/48] fix: Definition element only for DataTypes, a repeated
 one replaces the first

---
 src/NodesetLoader.c      | 3 ++-
 src/nodes/DataTypeNode.c | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 97e8e07..5a4ca5e 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -220,7 +220,8 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->state = PARSER_STATE_EXTENSIONS;
         }
-        else if (!strcmp(localname, "Definition"))
+        else if (!strcmp(localname, "Definition") &&
+                 pctx->node->nodeClass == NODECLASS_DATATYPE)
         {
             Nodeset_addDataTypeDefinition(pctx->nodeset, pctx->node, nb_attributes,
                                      attributes);
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index 15fb392..e3cc1bb 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -27,6 +27,8 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
 {
+    // a repeated definition replaces the previous one
+    DataTypeNode_clear(node);
     node->definition =
         (NL_DataTypeDefinition *)calloc(1, sizeof(NL_DataTypeDefinition));
     if (!node->definition)
-- 
2.43.0


From 2f8f78159fdc314a66d15fa49bb7324e511ad337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 12/48] fix: elements named Extension inside of an extension do
 not terminate it

---
 src/NodesetLoader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 5a4ca5e..5ec2934 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -285,6 +285,7 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
         }
+        pctx->unknown_depth++;
         break;
 
     case PARSER_STATE_REFERENCES:
@@ -390,7 +391,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         break;
     case PARSER_STATE_EXTENSION:
-        if (!strcmp(localname, EXTENSION))
+        if (pctx->unknown_depth == 0)
         {
             if (pctx->extIf)
             {
@@ -406,6 +407,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
                 pctx->extIf->end(pctx->extensionData, localname,
                                  pctx->onCharacters);
             }
+            pctx->unknown_depth--;
         }
         break;
     case PARSER_STATE_EXTENSIONS:
-- 
2.43.0


From 3e34fabdc5c1583c5b2ed34e2479fb7ab83b0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 13/48] fix: colon in a browsename without namespace index

---
 src/Nodeset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index ce3a41b..04782f9 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -129,8 +129,9 @@ NL_BrowseName extractBrowseName(const NamespaceList *namespaces, char *s)
     bn.nsIdx = 0;
     bn.name = NULL;
     if (!s) return bn;
-    char *bnName = strchr(s, ':');
-    if (bnName == NULL)
+    // only a number in front of the colon is a namespace index
+    char *bnName = s + strspn(s, "0123456789");
+    if (bnName == s || *bnName != ':')
     {
         bn.name = s;
         return bn;
-- 
2.43.0


From 4c0cdaad3a1a01fa6c98454cd0f2133ee867c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 14/48] fix: crash on empty namespace uri and on nodes without
 browsename

---
 src/Nodeset.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 04782f9..01f7e9a 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -513,7 +513,8 @@ void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
                                 char *namespaceUri)
 {
-    NamespaceList_newNamespace(nodeset->namespaces, userContext, namespaceUri);
+    NamespaceList_newNamespace(nodeset->namespaces, userContext,
+                               namespaceUri ? namespaceUri : "");
 }
 
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
@@ -559,6 +560,7 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
     if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+        node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
         NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
-- 
2.43.0


From 90f1eb90408081c7d81eaf65fb6874c1c2b3ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 15/48] fix: sorting again, also with nodes imported in between

---
 src/Nodeset.c | 35 +++++++++++++++++++++++------------
 src/Sort.c    | 24 ++++++++++++++++++++----
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 01f7e9a..a0ae471 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -206,6 +206,21 @@ static void insertElementAtFront(NL_Reference **toList, NL_Reference *elem)
     *toList = elem;
 }
 
+static bool addToSort(Nodeset *nodeset, NL_Node *node)
+{
+    if (Sort_addNode(nodeset->sortCtx, node))
+    {
+        return true;
+    }
+    if (nodeset->logger)
+    {
+        nodeset->logger->log(
+            nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+            "node was not added to sorting algorithm, already exists");
+    }
+    return false;
+}
+
 static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
 {
     while (node->unknownRefs)
@@ -245,9 +260,9 @@ static void lookupReferenceTypes(Nodeset *nodeset)
 
     for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
     {
-        Sort_addNode(nodeset->sortCtx,
-                     nodeset->refTypesWithUnknownRefs->nodes[i]);
+        addToSort(nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
     }
+    nodeset->refTypesWithUnknownRefs->size = 0;
 }
 
 bool Nodeset_sort(Nodeset *nodeset)
@@ -273,8 +288,12 @@ bool Nodeset_sort(Nodeset *nodeset)
             UA_String_clear(&nodeIdStr);
             return false;
         }
-        Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
     }
+    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
+    {
+        addToSort(nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
+    }
+    nodeset->nodesWithUnknownRefs->size = 0;
 
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                       nodeset->logger);
@@ -521,15 +540,7 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
 {
     if (!node->unknownRefs)
     {
-        if(!Sort_addNode(nodeset->sortCtx, node))
-        {
-            if (nodeset->logger)
-            {
-                nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
-                            "node was not added to sorting algorithm, already exists");
-            }
-        }
-        else
+        if (addToSort(nodeset, node))
         {
             if (node->nodeClass == NODECLASS_REFERENCETYPE)
             {
diff --git a/src/Sort.c b/src/Sort.c
index 9ee81c3..fbdc602 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -33,6 +33,8 @@ struct S_Node
     struct S_Edge *edges;
     size_t edgeCount;
     NL_Node *data;
+    // already handed out by Sort_start
+    bool done;
 };
 
 typedef struct S_Node S_Node;
@@ -59,6 +61,7 @@ static S_Node *new_node(const UA_NodeId *id)
     k->qlink = NULL;
     k->edges = NULL;
     k->data = NULL;
+    k->done = false;
     return k;
 }
 
@@ -182,6 +185,10 @@ record_relation(S_Node *from, S_Node *to) {
     if(UA_NodeId_equal(from->id, to->id))
         return;
 
+    // a previous sort already handed out the source, nothing to wait for
+    if(from->done)
+        return;
+
     struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
     if(!e)
         return;
@@ -194,14 +201,16 @@ record_relation(S_Node *from, S_Node *to) {
 
 static bool count_items(SortContext *ctx, S_Node *unused)
 {
-    ctx->keyCnt++;
+    if (!unused->done)
+        ctx->keyCnt++;
     return false;
 }
 
 static bool scan_zeros(SortContext *ctx, S_Node *k)
 {
-    if (k->edgeCount == 0 && k->id)
+    if (k->edgeCount == 0 && !k->done)
     {
+        k->qlink = NULL;
         if (ctx->head == NULL)
             ctx->head = k;
         else
@@ -289,6 +298,7 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
         return false;
     }
     j->data = data;
+    j->done = false;
     NL_Reference *hierachicalRef = data->hierachicalRefs;
     bool hierachicalRefRecorded = false;
     if (hierachicalRef) {
@@ -350,6 +360,8 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    ctx->head = NULL;
+    ctx->keyCnt = 0;
     walk_tree(ctx, ctx->root1, count_items);
 
     while (ctx->keyCnt > 0)
@@ -365,7 +377,8 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 callback(nodeset, ctx->head->data);
             }
 
-            ctx->head->id = NULL;
+            ctx->head->done = true;
+            ctx->head->edges = NULL;
             ctx->keyCnt--;
 
             while (e)
@@ -373,10 +386,13 @@ bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 e->dest->edgeCount--;
                 if (e->dest->edgeCount == 0)
                 {
+                    e->dest->qlink = NULL;
                     ctx->zeros->qlink = e->dest;
                     ctx->zeros = e->dest;
                 }
-                e = e->next;
+                S_Edge *next = e->next;
+                free(e);
+                e = next;
             }
             ctx->head = ctx->head->qlink;
         }
-- 
2.43.0


From f94e25d631728fb48677b1e2efa6959dada27ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 16/48] fix: a parent given by ParentNodeId only is sorted
 before its child

---
 src/Sort.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Sort.c b/src/Sort.c
index fbdc602..09e84f1 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -352,6 +352,7 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
             newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
             newRef->next = data->hierachicalRefs;
             data->hierachicalRefs = newRef;
+            record_relation(k, j);
         }
     }
     return true;
-- 
2.43.0


From 09120f6fdddb5f56ff685bec30cbab9522126e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 17/48] fix: unresolvable references of a reference type do not
 hang sorting, all declared reference types are registered

---
 src/Nodeset.c | 80 +++++++++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index a0ae471..e2af404 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -245,55 +245,48 @@ static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
     return true;
 }
 
-static void lookupReferenceTypes(Nodeset *nodeset)
+static bool lookupAllUnknownReferences(Nodeset *nodeset, NodeContainer *nodes)
 {
-    bool allRefTypesKnown = false;
-    while (!allRefTypesKnown)
+    for (size_t i = 0; i < nodes->size; i++)
     {
-        allRefTypesKnown = true;
-        for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+        if (!lookupUnknownReferences(nodeset, nodes->nodes[i]))
         {
-            allRefTypesKnown = lookupUnknownReferences(
-                nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
+            UA_String nodeIdStr = {0};
+            UA_NodeId_print(&nodes->nodes[i]->id, &nodeIdStr);
+            nodeset->logger->log(
+                nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                "node with unresolved reference(s): NodeId(%.*s)",
+                (int)nodeIdStr.length, (char *)nodeIdStr.data);
+            UA_String_clear(&nodeIdStr);
+            return false;
         }
     }
+    return true;
+}
 
-    for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+static void addAllToSort(Nodeset *nodeset, NodeContainer *nodes)
+{
+    for (size_t i = 0; i < nodes->size; i++)
     {
-        addToSort(nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
+        addToSort(nodeset, nodes->nodes[i]);
     }
-    nodeset->refTypesWithUnknownRefs->size = 0;
+    nodes->size = 0;
 }
 
 bool Nodeset_sort(Nodeset *nodeset)
 {
-    // first we have to figure out, if there are reference types, for which we
-    // cannot state if they are hierachical or nonhierachical
-    lookupReferenceTypes(nodeset);
-    // all hierachical references of a node should be known at this point
+    // all reference types of the imported files are known at this point, now
+    // we can state if the remaining references are hierachical or
+    // nonhierachical
     // if there are nodes with unknown references, the import will be aborted
-    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
+    if (!lookupAllUnknownReferences(nodeset,
+                                    nodeset->refTypesWithUnknownRefs) ||
+        !lookupAllUnknownReferences(nodeset, nodeset->nodesWithUnknownRefs))
     {
-        bool result = lookupUnknownReferences(
-            nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
-        if (!result)
-        {
-            UA_String nodeIdStr = {0};
-            UA_NodeId_print(&nodeset->nodesWithUnknownRefs->nodes[i]->id,
-                            &nodeIdStr);
-            nodeset->logger->log(
-                nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
-                "node with unresolved reference(s): NodeId(%.*s)",
-                (int)nodeIdStr.length, (char *)nodeIdStr.data);
-            UA_String_clear(&nodeIdStr);
-            return false;
-        }
-    }
-    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
-    {
-        addToSort(nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
+        return false;
     }
-    nodeset->nodesWithUnknownRefs->size = 0;
+    addAllToSort(nodeset, nodeset->refTypesWithUnknownRefs);
+    addAllToSort(nodeset, nodeset->nodesWithUnknownRefs);
 
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                       nodeset->logger);
@@ -538,18 +531,17 @@ void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
 
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
 {
-    if (!node->unknownRefs)
+    if (!node->unknownRefs && !addToSort(nodeset, node))
     {
-        if (addToSort(nodeset, node))
-        {
-            if (node->nodeClass == NODECLASS_REFERENCETYPE)
-            {
-                nodeset->refService->addNewReferenceType(
-                    nodeset->refService->context, (NL_ReferenceTypeNode *)node);
-            }
-        }
+        return;
     }
-    else
+    // the type is known, even if it has references of a type unknown so far
+    if (node->nodeClass == NODECLASS_REFERENCETYPE)
+    {
+        nodeset->refService->addNewReferenceType(
+            nodeset->refService->context, (NL_ReferenceTypeNode *)node);
+    }
+    if (node->unknownRefs)
     {
         if (node->nodeClass == NODECLASS_REFERENCETYPE)
         {
-- 
2.43.0


From b7a40cc1aa5db7ce4b75e7450ae6a0e36c98ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 18/48] fix: built-in reference service keeps its own, growing
 list of hierachical types

---
 src/InternalRefService.c | 164 +++++++++------------------------------
 1 file changed, 36 insertions(+), 128 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 45e2f2c..952f34b 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -12,126 +12,40 @@
 
 struct InternalRefService
 {
-    size_t hierachicalRefsSize;
-    NL_ReferenceTypeNode *hierachicalRefs;
+    struct NodeContainer *hierachicalRefs;
     struct NodeContainer *nonHierachicalRefs;
 };
 
 typedef struct InternalRefService InternalRefService;
 
-#define MAX_HIERACHICAL_REFS 50
-NL_ReferenceTypeNode hierachicalRefs[MAX_HIERACHICAL_REFS] = {
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {35}},
-     {0, "Organizes"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL,
-    },
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {36}},
-     {0, "HasEventSource"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {48}},
-     {0, "HasNotifier"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {44}},
-     {0, "Aggregates"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {45}},
-     {0, "HasSubtype"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {47}},
-     {0, "HasComponent"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {46}},
-     {0, "HasProperty"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {38}},
-     {0, "HasEncoding"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {33}},
-     {0, "HierarchicalReferences"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
+// hierachical reference types of namespace 0
+static const UA_UInt32 hierachicalRefsNs0[] = {
+    35, // Organizes
+    36, // HasEventSource
+    48, // HasNotifier
+    44, // Aggregates
+    45, // HasSubtype
+    47, // HasComponent
+    46, // HasProperty
+    38, // HasEncoding
+    33, // HierarchicalReferences
 };
 
+static bool
+isHierachicalType(const InternalRefService *service, const UA_NodeId *id) {
+    for (size_t i = 0;
+         i < sizeof(hierachicalRefsNs0) / sizeof(hierachicalRefsNs0[0]); i++) {
+        UA_NodeId ns0Id = UA_NODEID_NUMERIC(0, hierachicalRefsNs0[i]);
+        if (UA_NodeId_equal(&ns0Id, id))
+            return true;
+    }
+    for (size_t i = 0; i < service->hierachicalRefs->size; i++) {
+        if (UA_NodeId_equal(&service->hierachicalRefs->nodes[i]->id, id))
+            return true;
+    }
+    return false;
+}
+
 static bool
 isRefNonHierachical(const InternalRefService *service,
                     const NL_Reference *ref) {
@@ -151,11 +65,7 @@ isRefNonHierachical(const InternalRefService *service,
 static bool
 isReferenceHierachical(const InternalRefService *service,
                        const NL_Reference *ref) {
-    for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
-        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
-            return true;
-    }
-    return false;
+    return isHierachicalType(service, &ref->refType);
 }
 
 static bool
@@ -170,18 +80,16 @@ addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     bool isHierachical = false;
     while (ref) {
         if (!ref->isForward) {
-            for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
-                if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
-                    service->hierachicalRefs[service->hierachicalRefsSize++] =
-                        *(NL_ReferenceTypeNode *)node;
-                    isHierachical = true;
-                    break;
-                }
+            if (isHierachicalType(service, &ref->target)) {
+                isHierachical = true;
+                break;
             }
         }
         ref = ref->next;
     }
-    if (!isHierachical) {
+    if (isHierachical) {
+        NodeContainer_add(service->hierachicalRefs, (NL_Node *)node);
+    } else {
         NodeContainer_add(service->nonHierachicalRefs, (NL_Node *)node);
     }
 }
@@ -194,8 +102,7 @@ NL_ReferenceService *InternalRefService_new(void)
     {
         return NULL;
     }
-    service->hierachicalRefs = hierachicalRefs;
-    service->hierachicalRefsSize = 9;
+    service->hierachicalRefs = NodeContainer_new(100, false);
     service->nonHierachicalRefs = NodeContainer_new(100, false);
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
@@ -219,6 +126,7 @@ void InternalRefService_delete(NL_ReferenceService *refService)
 {
     InternalRefService *internalService =
         (InternalRefService *)refService->context;
+    NodeContainer_delete(internalService->hierachicalRefs);
     NodeContainer_delete(internalService->nonHierachicalRefs);
     free(internalService);
     free(refService);
-- 
2.43.0


From df793c91a57546bd70b3e6b3af6927a3ab74e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 19/48] fix: subtypes of a hierachical reference type declared
 before their supertype

---
 src/InternalRefService.c | 41 ++++++++++++++++++++++++++--------------
 src/Nodeset.c            |  5 ++++-
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 952f34b..bbfce39 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -74,23 +74,36 @@ isRefTypeDef(const InternalRefService* service, const NL_Reference* ref) {
     return UA_NodeId_equal(&ref->refType, &hasTypeDefId);
 }
 
+static bool
+isSubtypeOfHierachical(const InternalRefService *service, const NL_Node *node) {
+    for (const NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next) {
+        if (!ref->isForward && isHierachicalType(service, &ref->target))
+            return true;
+    }
+    return false;
+}
+
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
-    NL_Reference *ref = node->hierachicalRefs;
-    bool isHierachical = false;
-    while (ref) {
-        if (!ref->isForward) {
-            if (isHierachicalType(service, &ref->target)) {
-                isHierachical = true;
-                break;
-            }
-        }
-        ref = ref->next;
+    NodeContainer *nonHierachical = service->nonHierachicalRefs;
+    if (!isSubtypeOfHierachical(service, (NL_Node *)node)) {
+        NodeContainer_add(nonHierachical, (NL_Node *)node);
+        return;
     }
-    if (isHierachical) {
-        NodeContainer_add(service->hierachicalRefs, (NL_Node *)node);
-    } else {
-        NodeContainer_add(service->nonHierachicalRefs, (NL_Node *)node);
+    NodeContainer_add(service->hierachicalRefs, (NL_Node *)node);
+
+    // subtypes of the new type may have been declared before
+    size_t i = 0;
+    while (i < nonHierachical->size) {
+        NL_Node *candidate = nonHierachical->nodes[i];
+        if (isSubtypeOfHierachical(service, candidate)) {
+            NodeContainer_add(service->hierachicalRefs, candidate);
+            nonHierachical->nodes[i] =
+                nonHierachical->nodes[--nonHierachical->size];
+            i = 0;
+        } else {
+            i++;
+        }
     }
 }
 
diff --git a/src/Nodeset.c b/src/Nodeset.c
index e2af404..01b3e56 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -492,7 +492,10 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         node->hierachicalRefs = newRef;
         return newRef;
     }
-    if (nodeset->refService->isNonHierachicalRef(nodeset->refService->context,
+    // a supertype of a custom reference type may follow later in the file, it's
+    // not sure that such a reference is nonhierachical until all types are known
+    if (newRef->refType.namespaceIndex == 0 &&
+        nodeset->refService->isNonHierachicalRef(nodeset->refService->context,
                                                  newRef))
     {
         newRef->next = node->nonHierachicalRefs;
-- 
2.43.0


From 5d40931654a569628547bbabc16c53a52c32ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 20/48] fix: demo prints array dimensions, absent texts and
 long ids, cleans up on error

---
 backends/stdout/examples/dump.c | 16 +++++++++++-----
 backends/stdout/examples/main.c |  2 ++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/backends/stdout/examples/dump.c b/backends/stdout/examples/dump.c
index dfd80a7..58e5400 100644
--- a/backends/stdout/examples/dump.c
+++ b/backends/stdout/examples/dump.c
@@ -7,25 +7,31 @@
 
 #include "backend.h"
 
-char nodeidDump[256];
+#define MAX_NODEID_LENGTH 8192
+char nodeidDump[MAX_NODEID_LENGTH];
 static char *
 printId(const UA_NodeId *id) {
     UA_String myStr = {0};
     UA_NodeId_print(id, &myStr);
-    if(myStr.length >= 256)
-        myStr.length = 255;
+    if(myStr.length >= MAX_NODEID_LENGTH)
+        myStr.length = MAX_NODEID_LENGTH - 1;
     memcpy(nodeidDump, myStr.data, myStr.length);
     nodeidDump[myStr.length] = 0;
     UA_String_clear(&myStr);
     return nodeidDump;
 }
 
+static const char *
+printText(const char *text) {
+    return text ? text : "";
+}
+
 unsigned short addNamespace(void *userContext, const char *uri) { return 1; }
 
 void dumpNode(void *userContext, const NL_Node *node)
 {
     printf("NodeId: %s BrowseName: %s DisplayName: %s\n", printId(&node->id),
-           node->browseName.name, node->displayName.text);
+           printText(node->browseName.name), printText(node->displayName.text));
 
     switch (node->nodeClass)
     {
@@ -39,7 +45,7 @@ void dumpNode(void *userContext, const NL_Node *node)
         printf("\tdatatype: %s\n", printId(&((const NL_VariableNode *)node)->datatype));
         printf("\tvalueRank: %s\n", ((const NL_VariableNode *)node)->valueRank);
         printf("\tarrayDimensions: %s\n",
-               ((const NL_VariableNode *)node)->valueRank);
+               ((const NL_VariableNode *)node)->arrayDimensions);
         printf("\tminimumSamplingInterval: %s\n",
                ((const NL_VariableNode *)node)->minimumSamplingInterval);
         break;
diff --git a/backends/stdout/examples/main.c b/backends/stdout/examples/main.c
index 7199fc4..06f2f0e 100644
--- a/backends/stdout/examples/main.c
+++ b/backends/stdout/examples/main.c
@@ -19,6 +19,7 @@ int main(int argc, char *argv[])
 
     int maxValueRank = -1;
     NL_FileContext handler;
+    memset(&handler, 0, sizeof(NL_FileContext));
     handler.addNamespace = addNamespace;
     handler.userContext = &maxValueRank;
 
@@ -30,6 +31,7 @@ int main(int argc, char *argv[])
         if (!NodesetLoader_importFile(loader, &handler))
         {
             printf("nodeset could not be loaded, exit\n");
+            NodesetLoader_delete(loader);
             return 1;
         }
     }
-- 
2.43.0


From aaf3f0a12713f114ab47294938e32936ceda309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 21/48] fix: loop of nodes naming each other as parent by
 ParentNodeId is detected

---
 src/Sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Sort.c b/src/Sort.c
index 09e84f1..71f48b8 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -352,8 +352,8 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
             newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
             newRef->next = data->hierachicalRefs;
             data->hierachicalRefs = newRef;
-            record_relation(k, j);
         }
+        record_relation(k, j);
     }
     return true;
 }
-- 
2.43.0


From 8498a4424c5c3c6779450b046be543fda82cd9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 22/48] Revert "fix: demo prints array dimensions, absent texts
 and long ids, cleans up on error"

This reverts commit 5d40931654a569628547bbabc16c53a52c32ea29.
---
 backends/stdout/examples/dump.c | 16 +++++-----------
 backends/stdout/examples/main.c |  2 --
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/backends/stdout/examples/dump.c b/backends/stdout/examples/dump.c
index 58e5400..dfd80a7 100644
--- a/backends/stdout/examples/dump.c
+++ b/backends/stdout/examples/dump.c
@@ -7,31 +7,25 @@
 
 #include "backend.h"
 
-#define MAX_NODEID_LENGTH 8192
-char nodeidDump[MAX_NODEID_LENGTH];
+char nodeidDump[256];
 static char *
 printId(const UA_NodeId *id) {
     UA_String myStr = {0};
     UA_NodeId_print(id, &myStr);
-    if(myStr.length >= MAX_NODEID_LENGTH)
-        myStr.length = MAX_NODEID_LENGTH - 1;
+    if(myStr.length >= 256)
+        myStr.length = 255;
     memcpy(nodeidDump, myStr.data, myStr.length);
     nodeidDump[myStr.length] = 0;
     UA_String_clear(&myStr);
     return nodeidDump;
 }
 
-static const char *
-printText(const char *text) {
-    return text ? text : "";
-}
-
 unsigned short addNamespace(void *userContext, const char *uri) { return 1; }
 
 void dumpNode(void *userContext, const NL_Node *node)
 {
     printf("NodeId: %s BrowseName: %s DisplayName: %s\n", printId(&node->id),
-           printText(node->browseName.name), printText(node->displayName.text));
+           node->browseName.name, node->displayName.text);
 
     switch (node->nodeClass)
     {
@@ -45,7 +39,7 @@ void dumpNode(void *userContext, const NL_Node *node)
         printf("\tdatatype: %s\n", printId(&((const NL_VariableNode *)node)->datatype));
         printf("\tvalueRank: %s\n", ((const NL_VariableNode *)node)->valueRank);
         printf("\tarrayDimensions: %s\n",
-               ((const NL_VariableNode *)node)->arrayDimensions);
+               ((const NL_VariableNode *)node)->valueRank);
         printf("\tminimumSamplingInterval: %s\n",
                ((const NL_VariableNode *)node)->minimumSamplingInterval);
         break;
diff --git a/backends/stdout/examples/main.c b/backends/stdout/examples/main.c
index 06f2f0e..7199fc4 100644
--- a/backends/stdout/examples/main.c
+++ b/backends/stdout/examples/main.c
@@ -19,7 +19,6 @@ int main(int argc, char *argv[])
 
     int maxValueRank = -1;
     NL_FileContext handler;
-    memset(&handler, 0, sizeof(NL_FileContext));
     handler.addNamespace = addNamespace;
     handler.userContext = &maxValueRank;
 
@@ -31,7 +30,6 @@ int main(int argc, char *argv[])
         if (!NodesetLoader_importFile(loader, &handler))
         {
             printf("nodeset could not be loaded, exit\n");
-            NodesetLoader_delete(loader);
             return 1;
         }
     }
-- 
2.43.0


From 8f437bae07066a7eb693c822513c413124a16c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 23/48] fix: base64 decoding writes out of bounds or leaves
 bytes uninitialized for odd lengths and paddings

---
 backends/open62541/src/nodeset_base64.h | 118 ++++++++----------------
 1 file changed, 40 insertions(+), 78 deletions(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index 8af13a6..81fce9b 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -119,105 +119,67 @@ unsigned char *unbase64(const char *ascii, int len, int *flen);
 
 unsigned char *unbase64(const char *ascii, int len, int *flen)
 {
-    unsigned char *safeAsciiPtr;
     unsigned char *bin;
-    int cb = 0;
     int charNo = 0;
+    int digits = 0;
     int pad = 0;
+    int cb = 0;
+    unsigned int bits = 0;
 
-    safeAsciiPtr = (unsigned char *)malloc((size_t)len);
-    if (!safeAsciiPtr)
+    *flen = 0;
+    // 4 characters give 3 bytes at most
+    bin = (unsigned char *)malloc((size_t)len / 4 * 3 + 3);
+    if (!bin)
     {
-        puts("ERROR: unbase64 could not allocate enough memory.");
-        puts("I must stop because I could not get enough");
         return 0;
     }
 
     for (charNo = 0; charNo < len; charNo++)
     {
-        // remove all space characters e.g. LF, CR, space and tab
-        if (!isspace(ascii[charNo]))
+        unsigned char c = (unsigned char)ascii[charNo];
+        // skip all space characters e.g. LF, CR, space and tab
+        if (isspace(c))
         {
-            if (((ascii[charNo] >= '0') &&
-                 (ascii[charNo] <= '9')) ||
-                ((ascii[charNo] >= 'A') &&
-                 (ascii[charNo] <= 'Z')) ||
-                ((ascii[charNo] >= 'a') &&
-                 (ascii[charNo] <= 'z')) ||
-                (ascii[charNo] == '+') ||
-                (ascii[charNo] == '/') ||
-                (ascii[charNo] == '='))
-            {
-                 safeAsciiPtr[cb++] = (unsigned char)ascii[charNo];
-            }
-            else
-            {
-                puts("ERROR: You passed an invalid base64 string (illegal character). "
-                     "You get NULL back.");
-                free(safeAsciiPtr);
-                *flen = 0;
-                return 0;
-            }
+            continue;
+        }
+        if (c == '=')
+        {
+            pad++;
+            continue;
+        }
+        // illegal character or characters after the padding
+        if (pad > 0 || (unb64[c] == 0 && c != 'A'))
+        {
+            free(bin);
+            return 0;
+        }
+        bits = (bits << 6) | unb64[c];
+        digits++;
+        if (digits % 4 == 0)
+        {
+            bin[cb++] = (unsigned char)(bits >> 16);
+            bin[cb++] = (unsigned char)(bits >> 8);
+            bin[cb++] = (unsigned char)bits;
         }
     }
 
-    len = cb;
-    if (len < 2)
-    { // 2 accesses below would be OOB.
-        // catch empty string, return NULL as result.
-        puts("ERROR: You passed an invalid base64 string (too short). You get "
-             "NULL back.");
-        *flen = 0;
-        free(safeAsciiPtr);
-        return 0;
-    }
-    if (safeAsciiPtr[len - 1] == '=')
-        ++pad;
-    if (safeAsciiPtr[len - 2] == '=')
-        ++pad;
-
-    *flen = 3 * len / 4 - pad;
-    bin = (unsigned char *)malloc((size_t)*flen);
-    if (!bin)
+    // the remaining characters must form complete bytes
+    if (digits == 0 || digits % 4 == 1 ||
+        (pad > 0 && (pad > 2 || (digits + pad) % 4 != 0)))
     {
-        puts("ERROR: unbase64 could not allocate enough memory.");
-        puts("I must stop because I could not get enough");
-        free(safeAsciiPtr);
+        free(bin);
         return 0;
     }
-
-    cb = 0;
-    for (charNo = 0; charNo <= len - 4 - pad; charNo += 4)
-    {
-        unsigned char A = unb64[safeAsciiPtr[charNo]];
-        unsigned char B = unb64[safeAsciiPtr[charNo + 1]];
-        unsigned char C = unb64[safeAsciiPtr[charNo + 2]];
-        unsigned char D = unb64[safeAsciiPtr[charNo + 3]];
-
-        bin[cb++] = (unsigned char)(A << 2) | (B >> 4);
-        bin[cb++] = (unsigned char)(B << 4) | (C >> 2);
-        bin[cb++] = (unsigned char)(C << 6) | (D);
-    }
-
-    if (pad == 1 && (charNo + 2) < len)
+    if (digits % 4 == 2)
     {
-        unsigned char A = unb64[safeAsciiPtr[charNo]];
-        unsigned char B = unb64[safeAsciiPtr[charNo + 1]];
-        unsigned char C = unb64[safeAsciiPtr[charNo + 2]];
-
-        bin[cb++] = (unsigned char)(A << 2) | (B >> 4);
-        bin[cb++] = (unsigned char)(B << 4) | (C >> 2);
+        bin[cb++] = (unsigned char)(bits >> 4);
     }
-    else if (pad == 2 && (charNo + 1) < len)
+    else if (digits % 4 == 3)
     {
-        unsigned char A = (unsigned char)unb64[safeAsciiPtr[charNo]];
-        unsigned char B = (unsigned char)unb64[safeAsciiPtr[charNo + 1]];
-
-        bin[cb++] = (unsigned char)(A << 2) | (B >> 4);
+        bin[cb++] = (unsigned char)(bits >> 10);
+        bin[cb++] = (unsigned char)(bits >> 2);
     }
-
-    free(safeAsciiPtr);
-
+    *flen = cb;
     return bin;
 }
 
-- 
2.43.0


From 93dc0e375b5890cc788249a4b2321db07d32575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 24/48] fix: 64 bit integer values are truncated to 32 bit

---
 backends/open62541/src/Value.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 59bd496..da9a343 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -32,42 +32,42 @@ static void setBoolean(uintptr_t adr, const char *value)
 
 static void setSByte(uintptr_t adr, const char *value)
 {
-    *(UA_SByte *)adr = (UA_SByte)atoi(value);
+    *(UA_SByte *)adr = (UA_SByte)strtoll(value, NULL, 10);
 }
 
 static void setByte(uintptr_t adr, const char *value)
 {
-    *(UA_Byte *)adr = (UA_Byte)atoi(value);
+    *(UA_Byte *)adr = (UA_Byte)strtoll(value, NULL, 10);
 }
 
 static void setInt16(uintptr_t adr, const char *value)
 {
-    *(UA_Int16 *)adr = (UA_Int16)atoi(value);
+    *(UA_Int16 *)adr = (UA_Int16)strtoll(value, NULL, 10);
 }
 
 static void setUInt16(uintptr_t adr, const char *value)
 {
-    *(UA_UInt16 *)adr = (UA_UInt16)atoi(value);
+    *(UA_UInt16 *)adr = (UA_UInt16)strtoll(value, NULL, 10);
 }
 
 static void setInt32(uintptr_t adr, const char *value)
 {
-    *(UA_Int32 *)adr = atoi(value);
+    *(UA_Int32 *)adr = (UA_Int32)strtoll(value, NULL, 10);
 }
 
 static void setUInt32(uintptr_t adr, const char *value)
 {
-    *(UA_UInt32 *)adr = (UA_UInt32)atoi(value);
+    *(UA_UInt32 *)adr = (UA_UInt32)strtoll(value, NULL, 10);
 }
 
 static void setInt64(uintptr_t adr, const char *value)
 {
-    *(UA_Int64 *)adr = atoi(value);
+    *(UA_Int64 *)adr = (UA_Int64)strtoll(value, NULL, 10);
 }
 
 static void setUInt64(uintptr_t adr, const char *value)
 {
-    *(UA_UInt64 *)adr = (UA_UInt64)atoi(value);
+    *(UA_UInt64 *)adr = (UA_UInt64)strtoull(value, NULL, 10);
 }
 
 static void setFloat(uintptr_t adr, const char *value)
-- 
2.43.0


From a5bf09c803950e521311ef448cc41ee44637c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 25/48] fix: values of unexpected shape or with missing members
 crash or lose members

---
 backends/open62541/src/Value.c  | 276 ++++++++++++++++++--------------
 backends/open62541/src/import.c |  17 +-
 2 files changed, 161 insertions(+), 132 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index da9a343..a6d4587 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -13,8 +13,6 @@
 #include "nodeset_base64.h"
 #include "ServerContext.h"
 
-#include <assert.h>
-
 typedef struct TypeList TypeList;
 struct TypeList
 {
@@ -83,12 +81,7 @@ static void setDouble(uintptr_t adr, const char *value)
 static void setString(uintptr_t adr, const char *value)
 {
     UA_String *s = (UA_String *)adr;
-
-    
-    s->length = strlen(value);
-    s->data = (UA_Byte*)calloc(s->length, 1);
-    memcpy(s->data, value, s->length);
-    //s->data = (UA_Byte *)(uintptr_t)value;
+    *s = UA_STRING_ALLOC(value);
 }
 
 #define CONVERSION_TABLE_SIZE 12
@@ -143,10 +136,32 @@ static void setPrimitiveValue(RawData *data, const char *value,
     data->offset = data->offset + memSize;
 }
 
+// text of a primitive, NULL if there is none or the data is of another shape
+static const char *getText(const NL_Data *value)
+{
+    if (!value || value->type != DATATYPE_PRIMITIVE)
+    {
+        return NULL;
+    }
+    return value->val.primitiveData.value;
+}
+
+static size_t getMembersSize(const NL_Data *value)
+{
+    return value->type == DATATYPE_COMPLEX ? value->val.complexData.membersSize
+                                           : 0;
+}
+
+static NL_Data *getMember(const NL_Data *value, size_t idx)
+{
+    return idx < getMembersSize(value) ? value->val.complexData.members[idx]
+                                       : NULL;
+}
+
 static NL_Data *lookupMember(const NL_Data *value, const char *name)
 {
     // is there a better way?
-    for (size_t cnt = 0; cnt < value->val.complexData.membersSize; cnt++)
+    for (size_t cnt = 0; cnt < getMembersSize(value); cnt++)
     {
         if (!strcmp(value->val.complexData.members[cnt]->name, name))
         {
@@ -159,65 +174,54 @@ static NL_Data *lookupMember(const NL_Data *value, const char *name)
 static void setDateTime(const NL_Data *value, RawData *data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    UA_DateTime time = UA_DateTime_fromString(value->val.primitiveData.value);
-    *(UA_DateTime*)adr = time;
+    const char *text = getText(value);
+    if (text)
+    {
+        *(UA_DateTime *)adr = UA_DateTime_fromString(text);
+    }
     data->offset = data->offset + sizeof(UA_DateTime);
 }
 
 static void setQualifiedName(const NL_Data *value, RawData *data, const ServerContext *serverContext)
 {
-    uintptr_t adr = (uintptr_t)data->mem + data->offset;
+    UA_QualifiedName *qn =
+        (UA_QualifiedName *)((uintptr_t)data->mem + data->offset);
+
+    setScalarValueWithAddress((uintptr_t)&qn->namespaceIndex,
+                              UA_DATATYPEKIND_UINT16,
+                              getText(lookupMember(value, "NamespaceIndex")));
 
-    setScalarValueWithAddress(
-        (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
-        UA_DATATYPEKIND_UINT16,
-        value->val.complexData.members[0]->val.primitiveData.value);
-    
     // Translate namespace index
-    ((UA_QualifiedName*)adr)->namespaceIndex = 
-        ServerContext_translateToServerIdx(serverContext, ((UA_QualifiedName*)adr)->namespaceIndex);        
+    qn->namespaceIndex =
+        ServerContext_translateToServerIdx(serverContext, qn->namespaceIndex);
 
-    setScalarValueWithAddress(
-        (uintptr_t)&((UA_QualifiedName*)adr)->name,
-        UA_DATATYPEKIND_STRING,
-        value->val.complexData.members[1]->val.primitiveData.value);
+    setScalarValueWithAddress((uintptr_t)&qn->name, UA_DATATYPEKIND_STRING,
+                              getText(lookupMember(value, "Name")));
 
     data->offset += sizeof(UA_QualifiedName);
 }
 
 static void setLocalizedText(const NL_Data *value, RawData *data)
 {
-    NL_Data *localeData = lookupMember(value, "Locale");
-
-    if (localeData)
-    {
-        setScalarValueWithAddress(data->offset + (uintptr_t) &
-                                      ((UA_LocalizedText *)data->mem)->locale,
-                                  UA_DATATYPEKIND_STRING,
-                                  localeData->val.primitiveData.value);
-    }
+    UA_LocalizedText *lt =
+        (UA_LocalizedText *)((uintptr_t)data->mem + data->offset);
 
-    NL_Data *textData = lookupMember(value, "Text");
+    setScalarValueWithAddress((uintptr_t)&lt->locale, UA_DATATYPEKIND_STRING,
+                              getText(lookupMember(value, "Locale")));
+    setScalarValueWithAddress((uintptr_t)&lt->text, UA_DATATYPEKIND_STRING,
+                              getText(lookupMember(value, "Text")));
 
-    if (textData)
-    {
-        setScalarValueWithAddress(
-            data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
-            UA_DATATYPEKIND_STRING, textData->val.primitiveData.value);
-    }
     data->offset += sizeof(UA_LocalizedText);
 }
 
 static void setNodeId(const NL_Data *value, RawData *data, const ServerContext *serverContext)
 {
-    assert(value->val.complexData.membersSize == 1);
-    *(UA_NodeId *)((uintptr_t)data->mem + data->offset) =
-        extractNodeId((char *)(uintptr_t)value->val.complexData.members[0]
-                          ->val.primitiveData.value);
+    UA_NodeId *id = (UA_NodeId *)((uintptr_t)data->mem + data->offset);
+    *id = extractNodeId((char *)(uintptr_t)getText(getMember(value, 0)));
 
     // Translate namespace index
-    (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =
-        ServerContext_translateToServerIdx(serverContext, (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex);
+    id->namespaceIndex =
+        ServerContext_translateToServerIdx(serverContext, id->namespaceIndex);
 
     data->offset += sizeof(UA_NodeId);
 }
@@ -227,20 +231,26 @@ static void setByteString(const NL_Data* value, RawData*data)
     UA_ByteString *s = (UA_ByteString *)((uintptr_t)data->mem+data->offset);
     int len = 0;
     unsigned char *val = NULL;
+    const char *text = getText(value);
 
-    if (value->val.primitiveData.value)
+    if (text)
     {
-        val = unbase64(value->val.primitiveData.value, (int)strlen(value->val.primitiveData.value), &len);
+        val = unbase64(text, (int)strlen(text), &len);
     }
 
     s->length = (size_t)len;
     s->data = val;
+    data->offset += sizeof(UA_ByteString);
 }
 
 static void setGuid(const NL_Data* value, RawData*data)
 {
-    uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    *(UA_Guid*)adr = UA_GUID((const char *)(value->val.complexData.members[0]->val.primitiveData.value));
+    UA_Guid *guid = (UA_Guid *)((uintptr_t)data->mem + data->offset);
+    const char *text = getText(getMember(value, 0));
+    if (text)
+    {
+        *guid = UA_GUID(text);
+    }
     data->offset = data->offset + sizeof(UA_Guid);
 }
 
@@ -251,8 +261,9 @@ static void setArray(const NL_Data *value, const UA_DataType *type, RawData *dat
 
 static const char* getEnumValuePos(const char *string)
 {
-    // Enum value is either on <symbol>_<value> or <value> format
-    char *enumSepPos = strchr(string, '_');
+    // Enum value is either on <symbol>_<value> or <value> format, the symbol
+    // may contain underscores too
+    const char *enumSepPos = string ? strrchr(string, '_') : NULL;
     if (enumSepPos)
     {
         return ++enumSepPos;
@@ -260,44 +271,66 @@ static const char* getEnumValuePos(const char *string)
     return string;
 }
 
+// sets the member of a structure or union at the current offset
+static void setMember(const NL_Data *value, const UA_DataTypeMember *m,
+                      RawData *data, const UA_DataType *customTypes,
+                      const ServerContext *serverContext)
+{
+    uintptr_t adr = (uintptr_t)data->mem + data->offset;
+    const UA_DataType *memberType = m->memberType;
+    if (m->isArray)
+    {
+        size_t size = getMembersSize(value);
+        if (size == 0)
+        {
+            return;
+        }
+        RawData *rawdata = RawData_new(data);
+        rawdata->mem = calloc(size, memberType->memSize);
+        setArray(value, memberType, rawdata, customTypes, serverContext);
+        *(size_t *)adr = size;
+        *(void **)(adr + sizeof(size_t)) = rawdata->mem;
+    }
+    else if (m->isOptional)
+    {
+        RawData *rawdata = RawData_new(data);
+        rawdata->mem = calloc(1, memberType->memSize);
+        setScalar(value, memberType, rawdata, customTypes, serverContext);
+        *(void **)adr = rawdata->mem;
+    }
+    else
+    {
+        setScalar(value, memberType, data, customTypes, serverContext);
+    }
+}
+
 static void setStructure(const NL_Data *value, const UA_DataType *type,
                          RawData *data, const UA_DataType *customTypes,
                          const ServerContext *serverContext)
 {
-    assert(value->type == DATATYPE_COMPLEX);
-    // there can be less members specified then the type requires
+    size_t offset = data->offset;
+    // there can be less members specified then the type requires, the missing
+    // ones are left empty
     for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        const UA_DataType* memberType = m->memberType;
-
-        data->offset += m->padding;
+        offset += m->padding;
         NL_Data *memberData = lookupMember(value, m->memberName);
-        if (!memberData)
+        if (memberData)
         {
-            data->offset += memberType->memSize;
-            return;
+            data->offset = offset;
+            setMember(memberData, m, data, customTypes, serverContext);
         }
         if (m->isArray)
         {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                  memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
+            offset += sizeof(size_t) + sizeof(void *);
         }
         else
         {
-            size_t structOffset = data->offset + memberType->memSize;
-            setScalar(memberData, memberType, data, customTypes, serverContext);
-            data->offset = structOffset;
+            offset += m->isOptional ? sizeof(void *) : m->memberType->memSize;
         }
     }
+    data->offset = offset;
 }
 
 static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *data,
@@ -320,54 +353,38 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     // Remember the initial offset of the complete union
     const size_t unionOffset = data->offset;
     // Extract the switchField value
-    const UA_UInt32 switchField = (UA_UInt32)atoi(value->val.complexData.members[0]->val.primitiveData.value);
-    // Write out the switchField value
-    *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
-    // Insert the field padding
+    const char *switchText = getText(getMember(value, 0));
+    const unsigned long switchField =
+        switchText ? strtoul(switchText, NULL, 10) : 0;
 
     // If the switch field is 0 then no field is present.
     // A Union with no fields present has the same meaning as a NULL value.
     // See: https://reference.opcfoundation.org/v104/Core/docs/Part6/5.2.8/
-    if (switchField != 0) {
-        data->offset += type->members[switchField - 1].padding;
-        // For convenience setup direct pointers to data and type
-        NL_Data *memberData = value->val.complexData.members[1];
-        const UA_DataType* memberType = type->members[switchField - 1].memberType;
-
-        // Write out the field value
-        if (type->members[switchField - 1].isArray)
-        {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                    memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
-        }
-        else
+    // The same applies if the switch field selects a field that doesn't exist
+    if (switchField != 0 && switchField <= type->membersSize)
+    {
+        // Write out the switchField value
+        *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) =
+            (UA_UInt32)switchField;
+        // Write out the field value after the field padding
+        const UA_DataTypeMember *m = &type->members[switchField - 1];
+        NL_Data *memberData = getMember(value, 1);
+        if (memberData)
         {
-            setScalar(memberData, memberType, data, customTypes, serverContext);
+            data->offset += m->padding;
+            setMember(memberData, m, data, customTypes, serverContext);
         }
-        // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
-        data->offset = unionOffset + type->memSize;
     }
+    // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
+    data->offset = unionOffset + type->memSize;
 }
 
 static void setStatusCode(const NL_Data *value, RawData *data)
 {
     // StatusCode is a complex type with a primitive
-    assert(value->type == DATATYPE_COMPLEX);
-    if (value->val.complexData.membersSize == 1)
-    {
-        NL_Data *code = value->val.complexData.members[0];
-        setPrimitiveValue(
-            data, code->val.primitiveData.value, UA_DATATYPEKIND_UINT32,
-            UA_TYPES[UA_TYPES_UINT32].memSize);
-    }
+    setPrimitiveValue(data, getText(getMember(value, 0)),
+                      UA_DATATYPEKIND_UINT32,
+                      UA_TYPES[UA_TYPES_UINT32].memSize);
 }
 
 static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
@@ -375,7 +392,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 {
     if (type->typeKind < CONVERSION_TABLE_SIZE)
     {
-        setPrimitiveValue(data, value->val.primitiveData.value,
+        setPrimitiveValue(data, getText(value),
                           (UA_DataTypeKind)type->typeKind, type->memSize);
     }
     else if(type->typeKind == UA_DATATYPEKIND_BYTESTRING)
@@ -400,11 +417,12 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     }
     else if (type->typeKind == UA_DATATYPEKIND_ENUM)
     {
-        setPrimitiveValue(data, getEnumValuePos(value->val.primitiveData.value),
+        setPrimitiveValue(data, getEnumValuePos(getText(value)),
                           UA_DATATYPEKIND_INT32,
                           UA_TYPES[UA_TYPES_INT32].memSize);
     }
-    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE)
+    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+             type->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
     {
         setStructure(value, type, data, customTypes, serverContext);
     }
@@ -420,40 +438,52 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     {
         setStatusCode(value, data);
     }
-    else
-    {
-        assert(false && "conversion not implemented");
-    }
+    // values of other types are not supported, they are left empty
 }
 
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
                      const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    for (size_t i = 0; i < value->val.complexData.membersSize; i++)
+    for (size_t i = 0; i < getMembersSize(value); i++)
     {
         data->offset = i * type->memSize;
         setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
     }
 }
 
+// the types setScalar can convert
+static bool isSupported(const UA_DataType *type)
+{
+    switch (type->typeKind)
+    {
+    case UA_DATATYPEKIND_XMLELEMENT:
+    case UA_DATATYPEKIND_EXPANDEDNODEID:
+    case UA_DATATYPEKIND_EXTENSIONOBJECT:
+    case UA_DATATYPEKIND_DATAVALUE:
+    case UA_DATATYPEKIND_VARIANT:
+    case UA_DATATYPEKIND_DIAGNOSTICINFO:
+    case UA_DATATYPEKIND_DECIMAL:
+    case UA_DATATYPEKIND_BITFIELDCLUSTER:
+        return false;
+    default:
+        return true;
+    }
+}
+
 void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType *type,
                    const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    if (!type)
+    if (!type || !isSupported(type))
     {
         return;
     }
 
     if (value->isArray)
     {
-        if (value->data->val.complexData.membersSize == 0)
-        {
-            outData = NULL;
-        }
-        else
+        if (getMembersSize(value->data) > 0)
         {
             outData->mem =
-                calloc(value->data->val.complexData.membersSize, type->memSize);
+                calloc(getMembersSize(value->data), type->memSize);
             setArray(value->data, type, outData, customTypes, serverContext);
         }
     }
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 34cfbdc..aaf4d66 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -259,19 +259,18 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
         data = RawData_new(data);
         Value_getData(data, node->value, dataType, types->types, serverContext);
 
-        if (data)
+        if (node->value->isArray)
         {
-            if (node->value->isArray)
+            size_t size = node->value->data->val.complexData.membersSize;
+            if (dataType && (data->mem || size == 0))
             {
-                UA_Variant_setArray(
-                    &attr.value, data->mem,
-                    node->value->data->val.complexData.membersSize, dataType);
-            }
-            else
-            {
-                UA_Variant_setScalar(&attr.value, data->mem, dataType);
+                UA_Variant_setArray(&attr.value, data->mem, size, dataType);
             }
         }
+        else if (data->mem)
+        {
+            UA_Variant_setScalar(&attr.value, data->mem, dataType);
+        }
     }
     UA_NodeId typeDefId = UA_NODEID_NULL;
     if (node->refToTypeDef)
-- 
2.43.0


From dce647d0d46a0ca6b7a37edf44f971e3d5914770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 26/48] fix: custom data types own their ids and get an array
 per import instead of overflowing the registered one

---
 backends/open62541/src/DataTypeImporter.c | 147 ++++++++++++----------
 backends/open62541/src/customDataType.c   |   2 +
 backends/open62541/src/import.c           |   3 +-
 3 files changed, 86 insertions(+), 66 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 85e73eb..7e01868 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -17,10 +17,12 @@
 
 struct DataTypeImporter
 {
+    UA_ServerConfig *config;
+    // the types of this import, registered at the config
     UA_DataTypeArray *types;
     const NL_DataTypeNode **nodes;
+    UA_NodeId *parents;
     size_t nodesSize;
-    size_t firstNewDataType;
 };
 
 static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
@@ -499,8 +501,8 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     {
         type->typeKind = UA_DATATYPEKIND_STRUCTURE;
     }
-    type->typeId = node->id;
-    type->binaryEncodingId = getBinaryEncodingId(node);
+    const UA_NodeId binaryEncodingId = getBinaryEncodingId(node);
+    UA_NodeId_copy(&binaryEncodingId, &type->binaryEncodingId);
     type->pointerFree = true;
     if (!isOptionSet)
     {
@@ -513,7 +515,6 @@ static void EnumDataType_init(const DataTypeImporter *importer,
                               UA_DataType *enumType,
                               const NL_DataTypeNode *node)
 {
-    enumType->typeId = node->id;
     enumType->typeKind = UA_DATATYPEKIND_ENUM;
     enumType->binaryEncodingId = UA_NODEID_NULL;
     enumType->pointerFree = true;
@@ -531,8 +532,7 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
 
     assert(parentType);
 
-    type->typeId = node->id;
-    type->binaryEncodingId = parentType->binaryEncodingId;
+    UA_NodeId_copy(&parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
     type->membersSize = 0;
     type->memSize = parentType->memSize;
@@ -575,8 +575,7 @@ static void calcMemSize(DataTypeImporter *importer)
     {
         allTypesFinished = true;
         for (UA_DataType *type =
-                 (UA_DataType *)(uintptr_t)importer->types->types +
-                 importer->firstNewDataType;
+                 (UA_DataType *)(uintptr_t)importer->types->types;
              type != importer->types->types + importer->types->typesSize;
              type++)
         {
@@ -594,43 +593,11 @@ static void calcMemSize(DataTypeImporter *importer)
     }
 }
 
-void DataTypeImporter_initMembers(DataTypeImporter *importer)
-{
-
-    size_t cnt = 0;
-    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
-                             importer->firstNewDataType;
-         type != importer->types->types + importer->types->typesSize; type++)
-    {
-        if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
-            type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
-            type->typeKind == UA_DATATYPEKIND_UNION)
-        {
-            setDataTypeMembersTypeIndex(importer, type, importer->nodes[cnt]);
-        }
-        cnt++;
-    }
-    calcMemSize(importer);
-}
-
-void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
-                                        const NL_DataTypeNode *node,
-                                        const UA_NodeId parent)
+static void initType(DataTypeImporter *importer, UA_DataType *type,
+                     const NL_DataTypeNode *node, const UA_NodeId parent)
 {
-    // there is an open issue for that
-    // the user of the library should provide the memory for the custom
-    // dataTypes, then it is clear that he has to clean it up
-    if (!importer->types->types)
-    {
-        importer->types->types =
-            (UA_DataType *)calloc(1000, sizeof(UA_DataType));
-    }
-    assert(importer->types->typesSize < 1000);
-
-    UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
-                            ->types[importer->types->typesSize];
-    memset(type, 0, sizeof(UA_DataType));
-    type->typeId = node->id;
+    // the type outlives the node
+    UA_NodeId_copy(&node->id, &type->typeId);
     if (node->browseName.name)
     {
         size_t len = strlen(node->browseName.name);
@@ -659,13 +626,76 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     {
         SubtypeOfBase_init(importer, type, node, parent);
     }
+}
+
+void DataTypeImporter_initMembers(DataTypeImporter *importer)
+{
+    if (importer->nodesSize == 0)
+    {
+        return;
+    }
+    // Every import registers an array of its own, types of previous imports
+    // and of the application are referenced by address and must not move.
+    UA_DataTypeArray *newCustomTypes =
+        (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
+    UA_DataType *types =
+        (UA_DataType *)calloc(importer->nodesSize, sizeof(UA_DataType));
+    if (!newCustomTypes || !types)
+    {
+        free(newCustomTypes);
+        free(types);
+        return;
+    }
+#ifndef USE_CLEANUP_CUSTOM_DATATYPES
+    newCustomTypes->cleanup = UA_TRUE;
+#endif
+    newCustomTypes->next = importer->config->customDataTypes;
+    newCustomTypes->types = types;
+    *(size_t *)(uintptr_t)&newCustomTypes->typesSize = importer->nodesSize;
+    importer->config->customDataTypes = newCustomTypes;
+    importer->types = newCustomTypes;
+
+    for (size_t i = 0; i < importer->nodesSize; i++)
+    {
+        initType(importer, &types[i], importer->nodes[i],
+                 importer->parents[i]);
+    }
+    for (size_t i = 0; i < importer->nodesSize; i++)
+    {
+        UA_DataType *type = &types[i];
+        if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+            type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
+            type->typeKind == UA_DATATYPEKIND_UNION)
+        {
+            setDataTypeMembersTypeIndex(importer, type, importer->nodes[i]);
+        }
+    }
+    calcMemSize(importer);
+}
 
+void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
+                                        const NL_DataTypeNode *node,
+                                        const UA_NodeId parent)
+{
+    // already registered by a previous import or the application
+    if (findCustomDataType(&node->id, importer->config->customDataTypes))
+    {
+        return;
+    }
+    for (size_t i = 0; i < importer->nodesSize; i++)
+    {
+        if (UA_NodeId_equal(&importer->nodes[i]->id, &node->id))
+        {
+            return;
+        }
+    }
     importer->nodes = (const NL_DataTypeNode **)realloc(
         (void *)importer->nodes, (importer->nodesSize + 1) * sizeof(void *));
     importer->nodes[importer->nodesSize] = node;
+    importer->parents = (UA_NodeId *)realloc(
+        importer->parents, (importer->nodesSize + 1) * sizeof(UA_NodeId));
+    UA_NodeId_copy(&parent, &importer->parents[importer->nodesSize]);
     importer->nodesSize++;
-
-    (*(size_t *)(uintptr_t)&importer->types->typesSize)++;
 }
 
 DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
@@ -676,30 +706,17 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
     {
         return NULL;
     }
-
-    UA_ServerConfig *config = UA_Server_getConfig(server);
-    if (!config->customDataTypes)
-    {
-        // we append all types to customTypes array
-        UA_DataTypeArray *newCustomTypes =
-            (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
-        if (!newCustomTypes)
-        {
-            return importer;
-        }
-#ifndef USE_CLEANUP_CUSTOM_DATATYPES
-        newCustomTypes->cleanup = UA_TRUE;
-#endif
-        newCustomTypes->next = config->customDataTypes;
-        config->customDataTypes = newCustomTypes;
-    }
-    importer->types = (UA_DataTypeArray *)(uintptr_t)config->customDataTypes;
-    importer->firstNewDataType = importer->types->typesSize;
+    importer->config = UA_Server_getConfig(server);
     return importer;
 }
 
 void DataTypeImporter_delete(DataTypeImporter *importer)
 {
+    for (size_t i = 0; i < importer->nodesSize; i++)
+    {
+        UA_NodeId_clear(&importer->parents[i]);
+    }
+    free(importer->parents);
     free((void *)importer->nodes);
     free(importer);
 }
diff --git a/backends/open62541/src/customDataType.c b/backends/open62541/src/customDataType.c
index f499d98..bd7ca7f 100644
--- a/backends/open62541/src/customDataType.c
+++ b/backends/open62541/src/customDataType.c
@@ -51,6 +51,8 @@ static void cleanupCustomTypes(const UA_DataTypeArray *types)
                     m->memberName = NULL;
                 }
                 free((void*)type->members);
+                UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->typeId);
+                UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->binaryEncodingId);
             }
         }
         free((void*)(uintptr_t)types->types);
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index aaf4d66..5771984 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -257,7 +257,8 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
         const UA_DataTypeArray *types = config->customDataTypes;
 
         data = RawData_new(data);
-        Value_getData(data, node->value, dataType, types->types, serverContext);
+        Value_getData(data, node->value, dataType, types ? types->types : NULL,
+                      serverContext);
 
         if (node->value->isArray)
         {
-- 
2.43.0


From 6e84c14cd7e16629f8950873072509730b4a2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 27/48] fix: layout of custom data types with nested, optional,
 array or union members differs from the C layout

---
 backends/open62541/src/DataTypeImporter.c | 194 +++++++++++-----------
 1 file changed, 94 insertions(+), 100 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 7e01868..ee8851f 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -184,6 +184,11 @@ typedef struct
     UA_Variant member;
 } TempVariant;
 typedef struct
+{
+    char c;
+    UA_DataValue member;
+} TempDataValue;
+typedef struct
 {
     char c;
     UA_ExtensionObject member;
@@ -194,8 +199,20 @@ typedef struct
     UA_Guid member;
 } TempGuid;
 
-static int getAlignment(const UA_DataType *type,
-                        const UA_DataTypeArray *customTypes)
+typedef struct
+{
+    char c;
+    size_t member;
+} TempSizeT;
+typedef struct
+{
+    char c;
+    void *member;
+} TempVoidPtr;
+
+static int getMemberAlignment(const UA_DataTypeMember *member);
+
+static int getAlignment(const UA_DataType *type)
 {
     switch (type->typeKind)
     {
@@ -243,23 +260,31 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempDiagnosticInfo, member);
     case UA_DATATYPEKIND_VARIANT:
         return offsetof(TempVariant, member);
+    case UA_DATATYPEKIND_DATAVALUE:
+        return offsetof(TempDataValue, member);
     case UA_DATATYPEKIND_ENUM:
         return offsetof(TempInt32, member);
     case UA_DATATYPEKIND_EXTENSIONOBJECT:
         return offsetof(TempExtensionObject, member);
-    case UA_DATATYPEKIND_UNION:
-        return 0;
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
-        // here we have to take a look on the first member
-        assert(type->members);
-        int retAlignment = 0;
+    case UA_DATATYPEKIND_UNION:
+    {
+        if (!type->members)
+        {
+            // sized like a pointer
+            return offsetof(TempVoidPtr, member);
+        }
+        // the strictest alignment of all members, the switch field of a union
+        // is one of them
+        int retAlignment = type->typeKind == UA_DATATYPEKIND_UNION
+                               ? (int)offsetof(TempUInt32, member)
+                               : 1;
         for (UA_UInt32 i = 0; i < type->membersSize; i++)
         {
-            const UA_DataType *memberType = type->members[i].memberType;
-            int tmp = getAlignment(memberType, customTypes);
+            int tmp = getMemberAlignment(&type->members[i]);
             if (tmp > retAlignment)
             {
                 retAlignment = tmp;
@@ -267,119 +292,88 @@ static int getAlignment(const UA_DataType *type,
         }
         return retAlignment;
     }
-
-    assert(false && "typeKind not handled");
-    return 0;
+    }
+    return offsetof(TempVoidPtr, member);
 }
 
-typedef struct
+static int getMemberAlignment(const UA_DataTypeMember *member)
 {
-    char c;
-    size_t member;
-} TempSizeT;
-typedef struct
+    if (member->isArray)
+    {
+        // for arrays we have to take the size_t for the arraySize into
+        // account if the open changes the implementation of array
+        // serialization, we have a serious problem
+        // we rely here that its an size_t, followed by the void* for data
+        return offsetof(TempSizeT, member);
+    }
+    if (member->isOptional)
+    {
+        return offsetof(TempVoidPtr, member);
+    }
+    return getAlignment(member->memberType);
+}
+
+static size_t getMemberSize(const UA_DataTypeMember *member)
 {
-    char c;
-    void *member;
-} TempVoidPtr;
+    if (member->isArray)
+    {
+        return sizeof(size_t) + sizeof(void *);
+    }
+    return member->isOptional ? sizeof(void *) : member->memberType->memSize;
+}
 
-static void setPaddingMemsize(UA_DataType *type,
-                              const UA_DataTypeArray *customTypes)
+static void setPaddingMemsize(UA_DataType *type)
 {
     if (!type->members)
     {
         return;
     }
-    int offset = 0;
-    int endPadding = 0;
-
-    UA_UInt16 biggestMemberSize = 0;
-
-    UA_Boolean hasArrayMember = false;
-
-    for (UA_DataTypeMember *tm = type->members;
-         tm < type->members + type->membersSize; tm++)
+    const bool isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
+    const int alignment = getAlignment(type);
+    // all members of a union have the same alignment, they follow the switch
+    // field
+    int unionOffset = (int)sizeof(UA_UInt32);
+    if (isUnion)
     {
-        const UA_DataType *memberType = tm->memberType;
-        type->pointerFree = type->pointerFree && memberType->pointerFree;
-
-        if (tm->isArray)
+        int fieldsAlignment = 1;
+        for (UA_UInt32 i = 0; i < type->membersSize; i++)
         {
-            // for arrays we have to take the size_t for the arraySize into
-            // account if the open changes the implementation of array
-            // serialization, we have a serious problem
-            // we rely here that its an size_t
-            int align = offsetof(TempSizeT, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
-            // the void* for data
-            align = offsetof(TempVoidPtr, member);
-            int padding2 = getPadding(align, offset);
-            offset = offset + padding2 + (UA_Byte)sizeof(void *);
-            // datatype is not pointerfree
-            type->pointerFree = false;
-
-            if (sizeof(void *) > biggestMemberSize)
+            int tmp = getMemberAlignment(&type->members[i]);
+            if (tmp > fieldsAlignment)
             {
-                biggestMemberSize = sizeof(void *);
+                fieldsAlignment = tmp;
             }
-
-            hasArrayMember = true;
         }
-        else if (tm->isOptional)
+        unionOffset += getPadding(fieldsAlignment, unionOffset);
+    }
+
+    size_t size = 0;
+    for (UA_DataTypeMember *tm = type->members;
+         tm < type->members + type->membersSize; tm++)
+    {
+        // members behind of a pointer make the datatype not pointerfree
+        type->pointerFree = type->pointerFree && !tm->isArray &&
+                            !tm->isOptional && tm->memberType->pointerFree;
+        if (isUnion)
         {
-            int align = offsetof(TempVoidPtr, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(void *);
-            type->pointerFree = false;
-            if (sizeof(void *) > biggestMemberSize)
+            // the distance to the start of the union
+            tm->padding = (UA_Byte)(0x3F & unionOffset);
+            const size_t end = (size_t)unionOffset + getMemberSize(tm);
+            if (end > size)
             {
-                biggestMemberSize = sizeof(void *);
+                size = end;
             }
         }
         else
         {
-            // add the switchfield to the padding of the first datatype member
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding = (UA_Byte)sizeof(UA_UInt32);
-            }
-            else if (memberType->typeKind != UA_DATATYPEKIND_UNION)
-            {
-                int align = getAlignment(memberType, customTypes);
-                tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            }
-
-            offset = offset + tm->padding + memberType->memSize;
-            // padding after struct at end is needed
-            if (memberType->memSize > sizeof(size_t))
-            {
-                endPadding = memberType->memSize % sizeof(size_t);
-            }
-            if (memberType->memSize > biggestMemberSize)
-            {
-                biggestMemberSize = memberType->memSize;
-            }
-        }
-    }
-    if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        // add the switch field
-        type->memSize = sizeof(UA_Int32);
-        int padding = getPadding(offsetof(TempUInt32, member), 0);
-        type->memSize = (UA_UInt16)(type->memSize + padding);
-        type->memSize = (UA_UInt16)(type->memSize + biggestMemberSize);
-        if (hasArrayMember)
-        {
-            type->memSize = (UA_UInt16)(type->memSize + sizeof(size_t));
+            tm->padding = (UA_Byte)(
+                0x3F & getPadding(getMemberAlignment(tm), (int)size));
+            size += tm->padding + getMemberSize(tm);
         }
-        endPadding = getPadding(offsetof(TempSizeT, member), type->memSize);
-        type->memSize = (UA_UInt16)(type->memSize + endPadding);
-    }
-    else
-    {
-        type->memSize = (UA_UInt16)(offset + endPadding);
     }
+    // padding after struct at end is needed
+    size += getPadding(alignment, (int)size);
+    type->memSize = (UA_UInt16)size;
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
@@ -583,7 +577,7 @@ static void calcMemSize(DataTypeImporter *importer)
             // known
             if (readyForMemsizeCalc(type, importer->types->types))
             {
-                setPaddingMemsize(type, importer->types);
+                setPaddingMemsize(type);
             }
             else
             {
-- 
2.43.0


From beef4f3847ea6d387bb29239f5acb58463f8bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 28/48] fix: datatypes of unknown or recursive members, without
 supertype or fields abort or hang the import

---
 backends/open62541/src/DataTypeImporter.c | 283 ++++++++++++++--------
 1 file changed, 177 insertions(+), 106 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index ee8851f..2be1156 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -13,10 +13,9 @@
 #include "customDataType.h"
 #include "padding.h"
 
-#include <assert.h>
-
 struct DataTypeImporter
 {
+    UA_Server *server;
     UA_ServerConfig *config;
     // the types of this import, registered at the config
     UA_DataTypeArray *types;
@@ -41,6 +40,32 @@ static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
     return UA_NODEID_NULL;
 }
 
+// index of a type of this import, nodesSize for all others
+static size_t getTypeIndex(const DataTypeImporter *importer,
+                           const UA_DataType *type)
+{
+    const UA_DataType *types = importer->types->types;
+    if (type >= types && type < types + importer->nodesSize)
+    {
+        return (size_t)(type - types);
+    }
+    return importer->nodesSize;
+}
+
+static bool isAbstract(const DataTypeImporter *importer,
+                       const UA_DataType *type)
+{
+    const size_t idx = getTypeIndex(importer, type);
+    if (idx < importer->nodesSize)
+    {
+        return isValTrue(importer->nodes[idx]->isAbstract);
+    }
+    // type of a previous import
+    UA_Boolean abstract = false;
+    UA_Server_readIsAbstract(importer->server, type->typeId, &abstract);
+    return abstract;
+}
+
 static const UA_DataType *getDataType(const UA_NodeId *id,
                                       const UA_DataTypeArray *customTypes,
                                       const DataTypeImporter *importer)
@@ -56,18 +81,9 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
         return &UA_TYPES[UA_TYPES_VARIANT];
     }
     type = findCustomDataType(id, customTypes);
-    if (type && importer)
+    if (type && importer && isAbstract(importer, type))
     {
-        for (size_t i = 0; i < importer->nodesSize; i++)
-        {
-            if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
-            {
-                if (strcmp(importer->nodes[i]->isAbstract, "true") == 0)
-                {
-                    return &UA_TYPES[UA_TYPES_VARIANT];
-                }
-            }
-        }
+        return &UA_TYPES[UA_TYPES_VARIANT];
     }
     return type;
 }
@@ -322,11 +338,11 @@ static size_t getMemberSize(const UA_DataTypeMember *member)
     return member->isOptional ? sizeof(void *) : member->memberType->memSize;
 }
 
-static void setPaddingMemsize(UA_DataType *type)
+static bool setPaddingMemsize(UA_DataType *type)
 {
     if (!type->members)
     {
-        return;
+        return true;
     }
     const bool isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
     const int alignment = getAlignment(type);
@@ -374,24 +390,44 @@ static void setPaddingMemsize(UA_DataType *type)
     // padding after struct at end is needed
     size += getPadding(alignment, (int)size);
     type->memSize = (UA_UInt16)size;
+    return size <= UA_UINT16_MAX;
+}
+
+// limit of UA_DataType
+#define MAX_MEMBERS 255
+
+static const char *copyName(const char *name)
+{
+    const size_t len = name ? strlen(name) : 0;
+    char *copy = (char *)UA_calloc(len + 1, sizeof(char));
+    if (copy && len > 0)
+    {
+        memcpy(copy, name, len);
+    }
+    return copy;
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
 {
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *ref = node->hierachicalRefs;
     while (ref)
     {
-        if (!ref->isForward)
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype))
             return ref->target;
         ref = ref->next;
     }
     return UA_NODEID_NULL;
 }
 
-static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
+static bool setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                                         UA_DataType *type,
                                         const NL_DataTypeNode *node)
 {
+    if (node->definition && node->definition->fieldCnt > MAX_MEMBERS)
+    {
+        return false;
+    }
     // member of supertype have to be added, if there is one
     UA_NodeId parent = getParentNode(node);
     UA_NodeId structId = UA_NODEID_NUMERIC(0, UA_NS0ID_STRUCTURE);
@@ -406,30 +442,33 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         // open62541 would not generate a type if it had no members.
         if (parentType && parentType->members)
         {
+            const size_t size = (size_t)parentType->membersSize +
+                                (size_t)type->membersSize;
+            if (size > MAX_MEMBERS)
+            {
+                return false;
+            }
             UA_DataTypeMember *members = (UA_DataTypeMember *)calloc(
-                (size_t)(parentType->membersSize + type->membersSize),
-                sizeof(UA_DataTypeMember));
+                size, sizeof(UA_DataTypeMember));
             memcpy(members, parentType->members,
                    parentType->membersSize * sizeof(UA_DataTypeMember));
-
-            size_t cnt = 0;
             for (UA_DataTypeMember *m = members;
                  m != members + parentType->membersSize; m++)
             {
-                char *memberNameCopy =
-                    (char *)UA_calloc(strlen(m->memberName) + 1, sizeof(char));
-                memcpy(memberNameCopy, m->memberName, strlen(m->memberName));
-                members[cnt].memberName = memberNameCopy;
-                cnt++;
+                m->memberName = copyName(m->memberName);
+                if (m->isOptional && type->typeKind == UA_DATATYPEKIND_STRUCTURE)
+                {
+                    type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
+                }
+            }
+            if (type->members)
+            {
+                memcpy(members + parentType->membersSize, type->members,
+                       type->membersSize * sizeof(UA_DataTypeMember));
             }
-
-            memcpy(members + parentType->membersSize, type->members,
-                   type->membersSize * sizeof(UA_DataTypeMember));
             free(type->members);
             type->members = members;
-            type->membersSize =
-                (uint8_t)(parentType->membersSize + type->membersSize);
-            type->memSize = parentType->memSize;
+            type->membersSize = (uint8_t)size;
             memberOffset = parentType->membersSize;
         }
     }
@@ -443,17 +482,16 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
             getDataType(&memberTypeId, importer->types, importer);
         i++;
     }
+    return true;
 }
 
-static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
-                               UA_DataType *type, const NL_DataTypeNode *node)
+static void addDataTypeMembers(UA_DataType *type, const NL_DataTypeNode *node)
 {
-
-    if (!node->definition)
+    // such types have no members on their own
+    type->memSize = sizeof(void *);
+    if (!node->definition || node->definition->fieldCnt == 0 ||
+        node->definition->fieldCnt > MAX_MEMBERS)
     {
-        type->membersSize = 0;
-        type->members = NULL;
-        type->memSize = sizeof(void *);
         return;
     }
 
@@ -465,25 +503,18 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
     {
         UA_DataTypeMember *member = type->members + i;
         member->isArray = node->definition->fields[i].valueRank >= 0;
-        UA_NodeId typeId = node->definition->fields[i].dataType;
-        member->memberType = getDataType(&typeId, customTypes, NULL);
-
-        char *memberNameCopy = (char *)UA_calloc(
-            strlen(node->definition->fields[i].name) + 1, sizeof(char));
-        memcpy(memberNameCopy, node->definition->fields[i].name,
-               strlen(node->definition->fields[i].name));
-        member->memberName = memberNameCopy;
-        member->isOptional = node->definition->fields[i].isOptional;
+        member->memberName = copyName(node->definition->fields[i].name);
+        // the switch field of a union tells which field is present
+        member->isOptional = node->definition->fields[i].isOptional &&
+                             type->typeKind != UA_DATATYPEKIND_UNION;
         if (member->isOptional)
         {
-            type->pointerFree = false;
             type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
         }
     }
 }
 
-static void StructureDataType_init(const DataTypeImporter *importer,
-                                   UA_DataType *type,
+static void StructureDataType_init(UA_DataType *type,
                                    const NL_DataTypeNode *node,
                                    bool isOptionSet)
 {
@@ -498,16 +529,19 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     const UA_NodeId binaryEncodingId = getBinaryEncodingId(node);
     UA_NodeId_copy(&binaryEncodingId, &type->binaryEncodingId);
     type->pointerFree = true;
-    if (!isOptionSet)
+    if (isOptionSet)
     {
-        addDataTypeMembers(importer->types, type, node);
+        // the fields name bits, the members are the ones of the supertype
+        type->memSize = sizeof(void *);
+    }
+    else
+    {
+        addDataTypeMembers(type, node);
     }
     type->overlayable = false;
 }
 
-static void EnumDataType_init(const DataTypeImporter *importer,
-                              UA_DataType *enumType,
-                              const NL_DataTypeNode *node)
+static void EnumDataType_init(UA_DataType *enumType)
 {
     enumType->typeKind = UA_DATATYPEKIND_ENUM;
     enumType->binaryEncodingId = UA_NODEID_NULL;
@@ -518,13 +552,14 @@ static void EnumDataType_init(const DataTypeImporter *importer,
     enumType->memSize = sizeof(UA_Int32);
 }
 
-static void SubtypeOfBase_init(const DataTypeImporter *importer,
-                               UA_DataType *type, const NL_DataTypeNode *node,
-                               const UA_NodeId parent)
+static void SubtypeOfBase_init(UA_DataType *type, const UA_NodeId parent)
 {
     const UA_DataType *parentType = UA_findDataType(&parent);
-
-    assert(parentType);
+    if (!parentType)
+    {
+        // supertype is abstract (e.g. Number) or not known
+        parentType = &UA_TYPES[UA_TYPES_VARIANT];
+    }
 
     UA_NodeId_copy(&parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
@@ -535,59 +570,88 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
     type->typeKind = parentType->typeKind;
 }
 
-static bool readyForMemsizeCalc(const UA_DataType *type,
-                                const UA_DataType *customTypes)
+static bool isStructured(const UA_DataType *type)
 {
-    if (type->typeKind != UA_DATATYPEKIND_STRUCTURE &&
-        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT)
-    {
-        return true;
-    }
-    if (type->membersSize == 0)
-    {
-        return true;
-    }
-    bool ready = true;
-    for (UA_DataTypeMember *m = type->members;
+    return type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
+           type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
+           type->typeKind == UA_DATATYPEKIND_UNION;
+}
+
+static bool readyForMemsizeCalc(const DataTypeImporter *importer,
+                                const UA_DataType *type, const bool *finished)
+{
+    for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        if (m->memberType && m->memberType->memSize > 0)
+        if (!m->memberType)
+        {
+            return false;
+        }
+        // these are pointers, whatever they point to
+        if (m->isArray || m->isOptional)
         {
             continue;
         }
-        ready = false;
-        break;
+        const size_t idx = getTypeIndex(importer, m->memberType);
+        if (idx < importer->nodesSize && !finished[idx])
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
+// handled like an abstract type without members
+static void dropMembers(DataTypeImporter *importer, UA_DataType *type)
+{
+    UA_LOG_WARNING(importer->config->logging, UA_LOGCATEGORY_USERLAND,
+                   "NodesetLoader: layout of datatype %s not possible, members "
+                   "are ignored", type->typeName ? type->typeName : "");
+    for (UA_DataTypeMember *m = type->members;
+         m != type->members + type->membersSize; m++)
+    {
+        UA_free((void *)(uintptr_t)m->memberName);
     }
-    return ready;
+    free(type->members);
+    type->members = NULL;
+    type->membersSize = 0;
+    type->memSize = sizeof(void *);
 }
 
-static void calcMemSize(DataTypeImporter *importer)
+static void calcMemSize(DataTypeImporter *importer, bool *finished)
 {
-    bool allTypesFinished = false;
-    // datatype nodes could be sorted upfront to detect cyclic dependencies
-    while (!allTypesFinished)
+    UA_DataType *types = (UA_DataType *)(uintptr_t)importer->types->types;
+    bool progress = true;
+    while (progress)
     {
-        allTypesFinished = true;
-        for (UA_DataType *type =
-                 (UA_DataType *)(uintptr_t)importer->types->types;
-             type != importer->types->types + importer->types->typesSize;
-             type++)
+        progress = false;
+        for (size_t i = 0; i < importer->nodesSize; i++)
         {
             // we can calculate the memsize if the memsize of all membertypes is
             // known
-            if (readyForMemsizeCalc(type, importer->types->types))
-            {
-                setPaddingMemsize(type);
-            }
-            else
+            if (!finished[i] &&
+                readyForMemsizeCalc(importer, &types[i], finished))
             {
-                allTypesFinished = false;
+                if (!setPaddingMemsize(&types[i]))
+                {
+                    dropMembers(importer, &types[i]);
+                }
+                finished[i] = true;
+                progress = true;
             }
         }
     }
+    // types containing themselves or members of unknown type
+    for (size_t i = 0; i < importer->nodesSize; i++)
+    {
+        if (!finished[i])
+        {
+            dropMembers(importer, &types[i]);
+        }
+    }
 }
 
-static void initType(DataTypeImporter *importer, UA_DataType *type,
+static void initType(UA_DataType *type,
                      const NL_DataTypeNode *node, const UA_NodeId parent)
 {
     // the type outlives the node
@@ -604,21 +668,21 @@ static void initType(DataTypeImporter *importer, UA_DataType *type,
     UA_NodeId optionset = UA_NODEID_NUMERIC(0, UA_NS0ID_OPTIONSET);
     if (UA_NodeId_equal(&parent, &enumeration))
     {
-        EnumDataType_init(importer, type, node);
+        EnumDataType_init(type);
     }
     else if (UA_NodeId_equal(&parent, &optionset))
     {
         // treat optionset like a struct
-        StructureDataType_init(importer, type, node, true);
+        StructureDataType_init(type, node, true);
     }
 
     else if (UA_NodeId_equal(&parent, &structure))
     {
-        StructureDataType_init(importer, type, node, false);
+        StructureDataType_init(type, node, false);
     }
     else
     {
-        SubtypeOfBase_init(importer, type, node, parent);
+        SubtypeOfBase_init(type, parent);
     }
 }
 
@@ -634,8 +698,10 @@ void DataTypeImporter_initMembers(DataTypeImporter *importer)
         (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
     UA_DataType *types =
         (UA_DataType *)calloc(importer->nodesSize, sizeof(UA_DataType));
-    if (!newCustomTypes || !types)
+    bool *finished = (bool *)calloc(importer->nodesSize, sizeof(bool));
+    if (!newCustomTypes || !types || !finished)
     {
+        free(finished);
         free(newCustomTypes);
         free(types);
         return;
@@ -651,20 +717,24 @@ void DataTypeImporter_initMembers(DataTypeImporter *importer)
 
     for (size_t i = 0; i < importer->nodesSize; i++)
     {
-        initType(importer, &types[i], importer->nodes[i],
-                 importer->parents[i]);
+        initType(&types[i], importer->nodes[i], importer->parents[i]);
     }
     for (size_t i = 0; i < importer->nodesSize; i++)
     {
         UA_DataType *type = &types[i];
-        if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
-            type->typeKind == UA_DATATYPEKIND_OPTSTRUCT ||
-            type->typeKind == UA_DATATYPEKIND_UNION)
+        if (!isStructured(type))
+        {
+            finished[i] = true;
+        }
+        else if (!setDataTypeMembersTypeIndex(importer, type,
+                                              importer->nodes[i]))
         {
-            setDataTypeMembersTypeIndex(importer, type, importer->nodes[i]);
+            dropMembers(importer, type);
+            finished[i] = true;
         }
     }
-    calcMemSize(importer);
+    calcMemSize(importer, finished);
+    free(finished);
 }
 
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
@@ -700,6 +770,7 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
     {
         return NULL;
     }
+    importer->server = server;
     importer->config = UA_Server_getConfig(server);
     return importer;
 }
-- 
2.43.0


From cf9404f354fc52557ea0fe222f519f1b8baab434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 29/48] fix: id of the supertype is used after free, encoding
 references are added inverse and share their ids

---
 backends/open62541/src/import.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 5771984..a495293 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -28,14 +28,15 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
     UA_BrowseDescription_init(&bd);
     bd.nodeId = id;
     bd.browseDirection = UA_BROWSEDIRECTION_INVERSE;
+    bd.referenceTypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     bd.nodeClassMask = UA_NODECLASS_DATATYPE;
 
-    UA_BrowseResult br = UA_Server_browse(server, 10, &bd);
-    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)
+    UA_NodeId parentId = UA_NODEID_NULL;
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
+    if (br.statusCode == UA_STATUSCODE_GOOD && br.referencesSize > 0)
     {
-        return UA_NODEID_NULL;
+        UA_NodeId_copy(&br.references[0].nodeId.nodeId, &parentId);
     }
-    UA_NodeId parentId = br.references[0].nodeId.nodeId;
     UA_BrowseResult_clear(&br);
     return parentId;
 }
@@ -58,10 +59,17 @@ static bool isKnownParent(const UA_NodeId typeId)
 
 static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
 {
-    UA_NodeId current = dataTypeId;
-    while (!isKnownParent(current))
+    // no hierarchy of types is that deep, it must contain a loop
+    const size_t maxDepth = 10000;
+    UA_NodeId current;
+    UA_NodeId_copy(&dataTypeId, &current);
+    for (size_t depth = 0; !isKnownParent(current); depth++)
     {
-        current = getParentDataType(server, current);
+        UA_NodeId parent = depth < maxDepth
+                               ? getParentDataType(server, current)
+                               : UA_NODEID_NULL;
+        UA_NodeId_clear(&current);
+        current = parent;
     }
     return current;
 }
@@ -500,8 +508,9 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         if (UA_NodeId_equal(&r->source, &node->id))
         {
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            ref->refType = r->refType;
-            ref->target = r->target;
+            ref->isForward = true;
+            UA_NodeId_copy(&r->refType, &ref->refType);
+            UA_NodeId_copy(&r->target, &ref->target);
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From 0e97424338b15b9b94134ed592f93c71681beb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 30/48] fix: nodes are added below their declared parent, also
 if only named by ParentNodeId besides own forward references

---
 backends/open62541/src/import.c | 94 +++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 15 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index a495293..f12ab3c 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -92,22 +92,81 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+static bool isTypeNode(const NL_Node *node)
 {
+    return node->nodeClass == NODECLASS_OBJECTTYPE ||
+           node->nodeClass == NODECLASS_VARIABLETYPE ||
+           node->nodeClass == NODECLASS_DATATYPE ||
+           node->nodeClass == NODECLASS_REFERENCETYPE;
+}
 
-    NL_Reference *hierachicalRef = node->hierachicalRefs;
-    while (hierachicalRef)
+// the inverse reference to the parent, the first one if the parent is not known
+static NL_Reference *getHierachicalInverseReference(const NL_Node *node,
+                                                    const UA_NodeId *parentId)
+{
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    NL_Reference *first = NULL;
+    for (NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
     {
-        if (!hierachicalRef->isForward)
+        if (ref->isForward)
+        {
+            continue;
+        }
+        if (UA_NodeId_equal(&ref->target, parentId))
         {
-            return hierachicalRef;
+            return ref;
+        }
+        // the parent of a type is its supertype
+        if (!first || (isTypeNode(node) &&
+                       UA_NodeId_equal(&ref->refType, &hasSubtype) &&
+                       !UA_NodeId_equal(&first->refType, &hasSubtype)))
+        {
+            first = ref;
         }
-        hierachicalRef = hierachicalRef->next;
     }
-    return NULL;
+    return first;
 }
 
-static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
+struct ParentRefSearch
+{
+    const UA_NodeId *parentId;
+    const UA_NodeId *childId;
+    const NL_Reference *ref;
+};
+
+static void searchParentRef(struct ParentRefSearch *search, NL_Node *node)
+{
+    if (search->ref || !UA_NodeId_equal(&node->id, search->parentId))
+    {
+        return;
+    }
+    for (const NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
+    {
+        if (ref->isForward && UA_NodeId_equal(&ref->target, search->childId))
+        {
+            search->ref = ref;
+            return;
+        }
+    }
+}
+
+// reference from the parent to a node that only names its parent
+static UA_NodeId getRefTypeOfParent(NodesetLoader *loader, const NL_Node *node,
+                                    const UA_NodeId *parentId)
+{
+    struct ParentRefSearch search = {parentId, &node->id, NULL};
+    for (int i = 0; i < NL_NODECLASS_COUNT && !search.ref; i++)
+    {
+        NodesetLoader_forEachNode(
+            loader, (NL_NodeClass)i, &search,
+            (NodesetLoader_forEachNode_Func)searchParentRef);
+    }
+    return search.ref ? search.ref->refType
+                      : UA_NODEID_NUMERIC(0, UA_NS0ID_HASCOMPONENT);
+}
+
+static UA_NodeId getParentId(NodesetLoader *loader, const NL_Node *node,
+                             UA_NodeId *parentRefId)
 {
     UA_NodeId parentId = UA_NODEID_NULL;
 
@@ -115,13 +174,14 @@ static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
     {
         parentId = ((const NL_InstanceNode*)node)->parentNodeId;
     }
-    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);
+    NL_Reference *ref = getHierachicalInverseReference(node, &parentId);
     *parentRefId = getReferenceTypeId(ref);
-    if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))
+    if (!ref && !UA_NodeId_isNull(&parentId))
     {
-        parentId = getReferenceTarget(ref);
+        *parentRefId = getRefTypeOfParent(loader, node, &parentId);
     }
-    return parentId;
+    // the reference determines the parent
+    return ref ? getReferenceTarget(ref) : parentId;
 }
 
 static UA_StatusCode
@@ -387,6 +447,7 @@ static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *
 
 struct AddNodeContext
 {
+    NodesetLoader *loader;
     ServerContext* serverContext;
     NodeContainer* problemNodes;
 };
@@ -397,7 +458,7 @@ static void addNodeImpl(AddNodeContext *context, NL_Node *node)
 {
     UA_NodeId id = node->id;
     UA_NodeId parentReferenceId = UA_NODEID_NULL;
-    UA_NodeId parentId = getParentId(node, &parentReferenceId);
+    UA_NodeId parentId = getParentId(context->loader, node, &parentReferenceId);
     UA_LocalizedText lt =
         UA_LOCALIZEDTEXT(node->displayName.locale, node->displayName.text);
     UA_QualifiedName qn =
@@ -568,7 +629,8 @@ static void addNonHierachicalRefs(UA_Server *server, NL_Node *node)
     }
 }
 
-static size_t secondChanceAddNodes(ServerContext *serverContext,
+static size_t secondChanceAddNodes(NodesetLoader *loader,
+                                   ServerContext *serverContext,
                                    NodeContainer **badStatusNodes,
                                    const NodesetLoader_Logger *logger)
 {
@@ -586,6 +648,7 @@ static size_t secondChanceAddNodes(ServerContext *serverContext,
         NodeContainer *local_badStatusNodes =
             NodeContainer_new((*badStatusNodes)->size, false);
         AddNodeContext context;
+        context.loader = loader;
         context.problemNodes = local_badStatusNodes;
         context.serverContext = serverContext;
         for (size_t counter = 0; counter < (*badStatusNodes)->size; counter++)
@@ -625,6 +688,7 @@ static void addNodes(NodesetLoader *loader, ServerContext *serverContext,
     size_t previous_loop_badStatusNodes_size = 0;
 
     AddNodeContext context;
+    context.loader = loader;
     context.problemNodes = badStatusNodes;
     context.serverContext = serverContext;
     for (size_t i = 0; i < NL_NODECLASS_COUNT; i++)
@@ -653,7 +717,7 @@ static void addNodes(NodesetLoader *loader, ServerContext *serverContext,
                     "Couldn't import: %zu. Let's try adding non-imported "
                     "nodes a few more times.", badStatusNodes->size);
         size_t numberOfAllAddedNodes =
-            secondChanceAddNodes(serverContext, &badStatusNodes, logger);
+            secondChanceAddNodes(loader, serverContext, &badStatusNodes, logger);
         logger->log(logger->context, NODESETLOADER_LOGLEVEL_WARNING,
                     "imported after attempts: %zu", numberOfAllAddedNodes);
     }
-- 
2.43.0


From ca8462a6bc0d0180adf143379c1e416c9b406627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 31/48] fix: array dimensions of variable types are out of
 scope or lost, large dimensions overflow

---
 backends/open62541/src/import.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index f12ab3c..2d96a3c 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -243,17 +243,16 @@ handleMethodNode(const NL_MethodNode *node, UA_NodeId *id,
 
 static size_t getArrayDimensions(const char *s, UA_UInt32 **dims)
 {
-    size_t length = strlen(s);
+    size_t length = s ? strlen(s) : 0;
     size_t arrSize = 0;
     if (0 == length)
     {
         return 0;
     }
     // add the first one
-    int val = atoi(s);
     arrSize++;
     *dims = (UA_UInt32 *)malloc(sizeof(UA_UInt32));
-    (*dims)[0] = (UA_UInt32)val;
+    (*dims)[0] = (UA_UInt32)strtoul(s, NULL, 10);
 
     const char *subString = strchr(s, ',');
 
@@ -261,7 +260,7 @@ static size_t getArrayDimensions(const char *s, UA_UInt32 **dims)
     {
         arrSize++;
         *dims = (UA_UInt32 *)realloc(*dims, arrSize * sizeof(UA_UInt32));
-        (*dims)[arrSize - 1] = (UA_UInt32)atoi(subString + 1);
+        (*dims)[arrSize - 1] = (UA_UInt32)strtoul(subString + 1, NULL, 10);
         subString = strchr(subString + 1, ',');
     }
     return arrSize;
@@ -411,21 +410,23 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.description = *description;
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
-    if (attr.valueRank >= 0)
+    UA_UInt32 *arrDims = NULL;
+    attr.arrayDimensionsSize =
+        getArrayDimensions(node->arrayDimensions, &arrDims);
+    attr.arrayDimensions = arrDims;
+    if (attr.valueRank >= 0 && attr.arrayDimensionsSize == 0)
     {
-        if (!strcmp(node->arrayDimensions, ""))
-        {
-            attr.arrayDimensionsSize = 1;
-            UA_UInt32 arrayDimensions[1];
-            arrayDimensions[0] = 0;
-            attr.arrayDimensions = &arrayDimensions[0];
-        }
+        attr.arrayDimensionsSize = 1;
+        attr.arrayDimensions = UA_UInt32_new();
+        *attr.arrayDimensions = 0;
     }
 
-   return UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
+    UA_StatusCode status = UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
                             *parentReferenceId, *qn, UA_NODEID_NULL, &attr,
                             &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
                             node->extension, NULL);
+    UA_free(attr.arrayDimensions);
+    return status;
 }
 
 static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *id,
-- 
2.43.0


From d58fa259596b2cae9bedec4c468f42b69e71b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 32/48] fix: adding nodes after their parents stops after nine
 rounds

---
 backends/open62541/src/import.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 2d96a3c..520d194 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -635,16 +635,16 @@ static size_t secondChanceAddNodes(NodesetLoader *loader,
                                    NodeContainer **badStatusNodes,
                                    const NodesetLoader_Logger *logger)
 {
-    const size_t attemptsNum = 10;
-
     size_t numberOfAllAddedNodes = 0;
-    // We will try to add all failed nodes in a certain number of attempts.
+    // We will try to add all failed nodes as long as some can be added.
     // This gives us the opportunity to add a chain like Object(child) ->
     // Variable(parent).
     // For example, this reference is used in the HasHistoricalConfiguration
     // reference type.
     size_t attempt = 1;
-    while (attempt != attemptsNum && (*badStatusNodes)->size != 0)
+    size_t counterOfAdddedNodesForOneAttempt = 1;
+    while (counterOfAdddedNodesForOneAttempt != 0 &&
+           (*badStatusNodes)->size != 0)
     {
         NodeContainer *local_badStatusNodes =
             NodeContainer_new((*badStatusNodes)->size, false);
@@ -657,7 +657,7 @@ static size_t secondChanceAddNodes(NodesetLoader *loader,
             // Import to server again
             addNodeImpl(&context, (*badStatusNodes)->nodes[counter]);
         }
-        size_t counterOfAdddedNodesForOneAttempt =
+        counterOfAdddedNodesForOneAttempt =
             (*badStatusNodes)->size - local_badStatusNodes->size;
         numberOfAllAddedNodes += counterOfAdddedNodesForOneAttempt;
         logger->log(logger->context, NODESETLOADER_LOGLEVEL_DEBUG,
-- 
2.43.0


From 217f1f29555422135867f39ad0f409ff7273c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 33/48] fix: loading without a logger configured at the server
 crashes

---
 backends/open62541/src/import.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 520d194..1df9c2f 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -535,6 +535,10 @@ static void logToOpen(void *context, enum NodesetLoader_LogLevel level,
                       const char *message, ...)
 {
     UA_Logger *logger = (UA_Logger *)context;
+    if (!logger || !logger->log)
+    {
+        return;
+    }
     va_list vl;
     va_start(vl, message);
     UA_LogLevel uaLevel = UA_LOGLEVEL_DEBUG;
-- 
2.43.0


From b0e0ef5301a60edc49495822707f5680db021c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 34/48] fix: fraction and time zone of DateTime values are
 ignored, years with leading zero are octal

---
 backends/open62541/src/conversion.h | 32 ++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 4bc697d..113651a 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -62,10 +62,36 @@ static inline UA_DateTime UA_DateTime_fromString(const char *dateString)
 {
     UA_DateTimeStruct dt;
     memset(&dt, 0, sizeof(UA_DateTimeStruct));
-    sscanf(dateString, "%hi-%hu-%huT%hu:%hu:%huZ",
-           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec);
+    int consumed = 0;
+    sscanf(dateString, "%hd-%hu-%huT%hu:%hu:%hu%n", &dt.year, &dt.month,
+           &dt.day, &dt.hour, &dt.min, &dt.sec, &consumed);
     UA_DateTime dateTime = UA_DateTime_fromStruct(dt);
-    return dateTime;
+    if (consumed == 0)
+    {
+        return dateTime;
+    }
+    // fraction of a second, the resolution of DateTime is 100 ns
+    const char *pos = dateString + consumed;
+    UA_DateTime offset = 0;
+    if (*pos == '.')
+    {
+        UA_DateTime unit = UA_DATETIME_SEC;
+        for (pos++; *pos >= '0' && *pos <= '9'; pos++)
+        {
+            unit /= 10;
+            offset += (*pos - '0') * unit;
+        }
+    }
+    // time zone, DateTime is UTC
+    unsigned short hours = 0;
+    unsigned short minutes = 0;
+    if ((*pos == '+' || *pos == '-') &&
+        sscanf(pos + 1, "%2hu:%2hu", &hours, &minutes) == 2)
+    {
+        const UA_DateTime zone = (hours * 60 + minutes) * 60 * UA_DATETIME_SEC;
+        offset += *pos == '+' ? -zone : zone;
+    }
+    return (UA_DateTime)((UA_UInt64)dateTime + (UA_UInt64)offset);
 }
 
 #endif
-- 
2.43.0


From 3eea1bd39ca7027ce56b7465a4d9da940747a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 35/48] fix: boolean 1 is read as false by the backend

---
 backends/open62541/src/conversion.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 113651a..a0e313f 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -33,11 +33,8 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    if (strcmp(s, "true"))
-    {
-        return UA_FALSE;
-    }
-    return UA_TRUE;
+    // both are valid representations of a xs:boolean
+    return !strcmp(s, "true") || !strcmp(s, "1");
 }
 
 static inline UA_NodeId extractNodeId(char *s)
-- 
2.43.0


From 715d201bca6ea37c87ac7488d45dae4c176a21ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 36/48] fix: more than 100 subtypes of a reference type on the
 server are not known to the loader

---
 backends/open62541/src/RefServiceImpl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index f018c00..1ff47fa 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -50,7 +50,7 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
     bd.resultMask = UA_BROWSERESULTMASK_BROWSENAME;
     bd.nodeId = *startId;
     bd.nodeClassMask = UA_NODECLASS_REFERENCETYPE;
-    UA_BrowseResult br = UA_Server_browse(server, 100, &bd);
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
     if (br.statusCode == UA_STATUSCODE_GOOD)
     {
         for (UA_ReferenceDescription *rd = br.references;
-- 
2.43.0


From c0f0618c46cc7237dbe2f5ff9c756a240d2df683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 37/48] fix: backend knows subtypes of a hierachical reference
 type declared before their supertype

---
 backends/open62541/src/RefServiceImpl.c | 65 +++++++++++++++++++------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index 1ff47fa..dc987f5 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -25,6 +25,9 @@ struct RefServiceImpl
     RefContainer hierachicalRefs;
     RefContainer nonHierachicalRefs;
     RefContainer hasTypeDefRefs;
+    // new types that are not known to be hierachical, owned by the loader
+    size_t candidatesSize;
+    const NL_ReferenceTypeNode **candidates;
 };
 
 static void
@@ -121,27 +124,56 @@ static bool isTypeDefRef(const RefServiceImpl *service, const NL_Reference *ref)
     return isInContainer(service->hasTypeDefRefs, ref);
 }
 
-static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
+static bool isSubtypeOf(const RefContainer *refs,
+                        const NL_ReferenceTypeNode *node)
 {
-    NL_Reference *ref = node->hierachicalRefs;
-    bool isHierachical = false;
-    while (ref) {
-        if (!ref->isForward) {
-            for (size_t i = 0; i < service->hierachicalRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hierachicalRefs.ids[i], &ref->target)) {
-                    addToRefs(&service->hierachicalRefs, node->id);
-                    isHierachical = true;
-                }
-            }
-            for (size_t i = 0; i < service->hasTypeDefRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target))
-                    addToRefs(&service->hasTypeDefRefs, node->id);
+    for (const NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
+    {
+        for (size_t i = 0; !ref->isForward && i < refs->size; i++)
+        {
+            if (UA_NodeId_equal(&refs->ids[i], &ref->target))
+            {
+                return true;
             }
         }
-        ref = ref->next;
     }
-    if (!isHierachical)
+    return false;
+}
+
+static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
+{
+    if (isSubtypeOf(&service->hasTypeDefRefs, node))
+    {
+        addToRefs(&service->hasTypeDefRefs, node->id);
+    }
+    if (!isSubtypeOf(&service->hierachicalRefs, node))
+    {
         addToRefs(&service->nonHierachicalRefs, node->id);
+        service->candidates = (const NL_ReferenceTypeNode **)realloc(
+            (void *)service->candidates,
+            sizeof(void *) * (service->candidatesSize + 1));
+        service->candidates[service->candidatesSize++] = node;
+        return;
+    }
+    addToRefs(&service->hierachicalRefs, node->id);
+
+    // subtypes of the new type may have been declared before
+    size_t i = 0;
+    while (i < service->candidatesSize)
+    {
+        const NL_ReferenceTypeNode *candidate = service->candidates[i];
+        if (isSubtypeOf(&service->hierachicalRefs, candidate))
+        {
+            addToRefs(&service->hierachicalRefs, candidate->id);
+            service->candidates[i] =
+                service->candidates[--service->candidatesSize];
+            i = 0;
+        }
+        else
+        {
+            i++;
+        }
+    }
 }
 
 NL_ReferenceService *RefServiceImpl_new(struct UA_Server *server)
@@ -189,6 +221,7 @@ void RefServiceImpl_delete(NL_ReferenceService *service)
     RefContainer_clear(&impl->hierachicalRefs);
     RefContainer_clear(&impl->nonHierachicalRefs);
     RefContainer_clear(&impl->hasTypeDefRefs);
+    free((void *)impl->candidates);
     free(impl);
     free(service);
 }
-- 
2.43.0


From fc7236da6bb2773ad62d0d3dbc64b32e6fa057e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 38/48] fix: encoding id of a type with several encodings is an
 arbitrary one

---
 backends/open62541/src/import.c | 50 +++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 1df9c2f..a2b351f 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -561,12 +561,57 @@ static void logToOpen(void *context, enum NodesetLoader_LogLevel level,
 struct DataTypeImportCtx
 {
     DataTypeImporter *importer;
+    // objects describing the binary encoding of a type
+    NodeContainer *binaryEncodings;
     const NL_BiDirectionalReference *hasEncodingRef;
     UA_Server *server;
 };
 
+static void addBinaryEncoding(struct DataTypeImportCtx *ctx, NL_Node *node)
+{
+    if (node->browseName.name &&
+        !strcmp(node->browseName.name, "Default Binary"))
+    {
+        NodeContainer_add(ctx->binaryEncodings, node);
+    }
+}
+
+static bool isBinaryEncoding(const struct DataTypeImportCtx *ctx,
+                             const UA_NodeId *id)
+{
+    for (size_t i = 0; i < ctx->binaryEncodings->size; i++)
+    {
+        if (UA_NodeId_equal(&ctx->binaryEncodings->nodes[i]->id, id))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
+// A type can have several encodings, the binary one has to come first
+static void moveBinaryEncodingToFront(struct DataTypeImportCtx *ctx,
+                                      NL_Node *node)
+{
+    const UA_NodeId hasEncoding = UA_NODEID_NUMERIC(0, UA_NS0ID_HASENCODING);
+    for (NL_Reference **ref = &node->nonHierachicalRefs; *ref;
+         ref = &(*ref)->next)
+    {
+        NL_Reference *found = *ref;
+        if (UA_NodeId_equal(&found->refType, &hasEncoding) &&
+            isBinaryEncoding(ctx, &found->target))
+        {
+            *ref = found->next;
+            found->next = node->nonHierachicalRefs;
+            node->nonHierachicalRefs = found;
+            return;
+        }
+    }
+}
+
 static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
 {
+    moveBinaryEncodingToFront(ctx, node);
     // add only the types
     const NL_BiDirectionalReference *r = ctx->hasEncodingRef;
     while (r)
@@ -601,9 +646,14 @@ static void importDataTypes(NodesetLoader *loader, UA_Server *server)
     ctx.hasEncodingRef = hasEncodingRef;
     ctx.server = server;
     ctx.importer = importer;
+    ctx.binaryEncodings = NodeContainer_new(100, false);
+    NodesetLoader_forEachNode(
+        loader, NODECLASS_OBJECT, &ctx,
+        (NodesetLoader_forEachNode_Func)addBinaryEncoding);
     NodesetLoader_forEachNode(loader, NODECLASS_DATATYPE, &ctx,
                               (NodesetLoader_forEachNode_Func)addDataType);
 
+    NodeContainer_delete(ctx.binaryEncodings);
     DataTypeImporter_initMembers(importer);
     DataTypeImporter_delete(importer);
 }
-- 
2.43.0


From ae57f850a4b9cd97e430543b1eaab53af964d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 39/48] fix: accept 1 and 0 as values of boolean attributes

---
 src/Nodeset.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 01b3e56..8e490cb 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -200,6 +200,12 @@ static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
 }
 
+// both are valid representations of a xs:boolean
+static bool isTrue(const char *value)
+{
+    return !strcmp("true", value) || !strcmp("1", value);
+}
+
 static void insertElementAtFront(NL_Reference **toList, NL_Reference *elem)
 {
     elem->next = *toList;
@@ -453,15 +459,8 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-    if (!strcmp("true", getAttributeValue(nodeset, &attrIsForward, attributes,
-                                          attributeSize)))
-    {
-        newRef->isForward = true;
-    }
-    else
-    {
-        newRef->isForward = false;
-    }
+    newRef->isForward = isTrue(getAttributeValue(nodeset, &attrIsForward,
+                                                 attributes, attributeSize));
     char *aliasIdString = getAttributeValue(nodeset, &attrReferenceType,
                                             attributes, attributeSize);
 
@@ -587,11 +586,11 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
     def->isUnion =
-        !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
-                                          attributes, attributeSize));
-    def->isOptionSet = !strcmp(
-        "true", getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
-                                  attributes, attributeSize));
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
+                                 attributes, attributeSize));
+    def->isOptionSet =
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
+                                 attributes, attributeSize));
 }
 
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
@@ -625,7 +624,7 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
             nodeset, &attrValueRank, attributes, attributeSize));
         char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
                                              attributes, attributeSize);
-        newField->isOptional = !strcmp("true", isOptional);
+        newField->isOptional = isTrue(isOptional);
     }
 }
 
-- 
2.43.0


From a2afd02b6926a92d0446e75ae1f5ed193048408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:28 +0000
Subject: [PATCH 40/48] fix: standard hierarchical reference types unknown to
 the built-in reference service

References of HasOrderedComponent, AlarmGroupMember and the other subtypes of
HierarchicalReferences were taken for non-hierarchical, so they took no part in
sorting and their users got a second parent link.
---
 src/InternalRefService.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index bbfce39..197fd1b 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -29,6 +29,18 @@ static const UA_UInt32 hierachicalRefsNs0[] = {
     46, // HasProperty
     38, // HasEncoding
     33, // HierarchicalReferences
+    34, // HasChild
+    49, // HasOrderedComponent
+    56, // HasHistoricalConfiguration
+    129, // HasArgumentDescription
+    131, // HasOptionalInputArgumentDescription
+    14476, // HasPubSubConnection
+    14936, // DataSetToWriter
+    15112, // HasGuard
+    15296, // HasDataSetWriter
+    15297, // HasDataSetReader
+    16361, // HasAlarmSuppressionGroup
+    16362, // AlarmGroupMember
 };
 
 static bool
-- 
2.43.0


From 1d1bd253448ac276a2ce361b4f3e15d4d2baaf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:07 +0000
Subject: [PATCH 41/48] fix: nodes that are parents of nodes sorted before

---
 src/Sort.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index 71f48b8..0a2686a 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -185,9 +185,11 @@ record_relation(S_Node *from, S_Node *to) {
     if(UA_NodeId_equal(from->id, to->id))
         return;
 
-    // a previous sort already handed out the source, nothing to wait for
-    if(from->done)
+    // what a previous sort handed out neither waits nor is waited for
+    if((from->done && from->data) || (to->done && to->data))
         return;
+    // not declared so far, they take part in this sort
+    from->done = to->done = false;
 
     struct S_Edge *e = (S_Edge *)calloc(1, sizeof(S_Edge));
     if(!e)
-- 
2.43.0


From 085591a23c652e7620d7f04ae50a2bbdc59c5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:49 +0000
Subject: [PATCH 42/48] fix: cubic effort for chains of reference types
 declared before their supertypes

---
 src/InternalRefService.c | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 197fd1b..33bada6 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -95,26 +95,39 @@ isSubtypeOfHierachical(const InternalRefService *service, const NL_Node *node) {
     return false;
 }
 
+static bool
+isDirectSubtypeOf(const NL_Node *node, const NL_Node *supertype) {
+    for (const NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next) {
+        if (!ref->isForward && UA_NodeId_equal(&ref->target, &supertype->id))
+            return true;
+    }
+    return false;
+}
+
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
+    NodeContainer *hierachical = service->hierachicalRefs;
     NodeContainer *nonHierachical = service->nonHierachicalRefs;
     if (!isSubtypeOfHierachical(service, (NL_Node *)node)) {
         NodeContainer_add(nonHierachical, (NL_Node *)node);
         return;
     }
-    NodeContainer_add(service->hierachicalRefs, (NL_Node *)node);
-
-    // subtypes of the new type may have been declared before
-    size_t i = 0;
-    while (i < nonHierachical->size) {
-        NL_Node *candidate = nonHierachical->nodes[i];
-        if (isSubtypeOfHierachical(service, candidate)) {
-            NodeContainer_add(service->hierachicalRefs, candidate);
-            nonHierachical->nodes[i] =
-                nonHierachical->nodes[--nonHierachical->size];
-            i = 0;
-        } else {
-            i++;
+
+    // subtypes of the new type, and theirs, may have been declared before
+    size_t next = hierachical->size;
+    NodeContainer_add(hierachical, (NL_Node *)node);
+    while (next < hierachical->size) {
+        const NL_Node *supertype = hierachical->nodes[next++];
+        size_t i = 0;
+        while (i < nonHierachical->size) {
+            NL_Node *candidate = nonHierachical->nodes[i];
+            if (isDirectSubtypeOf(candidate, supertype)) {
+                NodeContainer_add(hierachical, candidate);
+                nonHierachical->nodes[i] =
+                    nonHierachical->nodes[--nonHierachical->size];
+            } else {
+                i++;
+            }
         }
     }
 }
-- 
2.43.0


From e83717adfa81acf717884d4358a6cd30b0a5f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:32 +0000
Subject: [PATCH 43/48] fix: endless recursion when the reference types of the
 server form a cycle

---
 backends/open62541/src/RefServiceImpl.c | 31 ++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index dc987f5..b119bea 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -40,7 +40,8 @@ RefContainer_clear(RefContainer *c) {
 
 typedef struct RefServiceImpl RefServiceImpl;
 
-typedef void (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
+// returns false if the type is already known
+typedef bool (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
 
 static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
                     RefServiceImpl *impl)
@@ -59,7 +60,9 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
         for (UA_ReferenceDescription *rd = br.references;
              rd != br.references + br.referencesSize; rd++)
         {
-            fnc(impl, rd->nodeId.nodeId);
+            // the references in the server can form a cycle
+            if (!fnc(impl, rd->nodeId.nodeId))
+                continue;
 
             iterate(server, &rd->nodeId.nodeId, fnc, impl);
         }
@@ -76,19 +79,31 @@ addToRefs(RefContainer *refs, const UA_NodeId id)
     refs->size++;
 }
 
-static void addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool
+addNewToRefs(RefContainer *refs, const UA_NodeId id)
+{
+    for (size_t i = 0; i < refs->size; i++)
+    {
+        if (UA_NodeId_equal(&refs->ids[i], &id))
+            return false;
+    }
+    addToRefs(refs, id);
+    return true;
+}
+
+static bool addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->hierachicalRefs, id);
+    return addNewToRefs(&impl->hierachicalRefs, id);
 }
 
-static void addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->nonHierachicalRefs, id);
+    return addNewToRefs(&impl->nonHierachicalRefs, id);
 }
 
-static void addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->hasTypeDefRefs, id);
+    return addNewToRefs(&impl->hasTypeDefRefs, id);
 }
 
 static void getRefs(UA_Server *server, RefServiceImpl *impl,
-- 
2.43.0


From 7f66592bb3a02ac5bf77da1d531a67a61550907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:12 +0000
Subject: [PATCH 44/48] fix: cubic effort for chains of reference types
 declared before their supertypes in a server

---
 backends/open62541/src/RefServiceImpl.c | 33 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index b119bea..4ec944b 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -170,23 +170,28 @@ static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
         service->candidates[service->candidatesSize++] = node;
         return;
     }
-    addToRefs(&service->hierachicalRefs, node->id);
 
-    // subtypes of the new type may have been declared before
-    size_t i = 0;
-    while (i < service->candidatesSize)
+    // subtypes of the new type, and theirs, may have been declared before
+    size_t next = service->hierachicalRefs.size;
+    addToRefs(&service->hierachicalRefs, node->id);
+    while (next < service->hierachicalRefs.size)
     {
-        const NL_ReferenceTypeNode *candidate = service->candidates[i];
-        if (isSubtypeOf(&service->hierachicalRefs, candidate))
-        {
-            addToRefs(&service->hierachicalRefs, candidate->id);
-            service->candidates[i] =
-                service->candidates[--service->candidatesSize];
-            i = 0;
-        }
-        else
+        UA_NodeId newId = service->hierachicalRefs.ids[next++];
+        const RefContainer newType = {1, &newId};
+        size_t i = 0;
+        while (i < service->candidatesSize)
         {
-            i++;
+            const NL_ReferenceTypeNode *candidate = service->candidates[i];
+            if (isSubtypeOf(&newType, candidate))
+            {
+                addToRefs(&service->hierachicalRefs, candidate->id);
+                service->candidates[i] =
+                    service->candidates[--service->candidatesSize];
+            }
+            else
+            {
+                i++;
+            }
         }
     }
 }
-- 
2.43.0


From 743765428865be35813cee01e5d6f250849f4984 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 06:59:35 +0000
Subject: [PATCH 45/48] fix: values with a decimal point depend on the locale
 of the process

---
 backends/open62541/src/Value.c      |  4 ++--
 backends/open62541/src/conversion.h | 31 +++++++++++++++++++++++++++++
 backends/open62541/src/import.c     |  2 +-
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index a6d4587..b19aae5 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -70,12 +70,12 @@ static void setUInt64(uintptr_t adr, const char *value)
 
 static void setFloat(uintptr_t adr, const char *value)
 {
-    *(UA_Float *)adr = (UA_Float)atof(value);
+    *(UA_Float *)adr = (UA_Float)parseDouble(value);
 }
 
 static void setDouble(uintptr_t adr, const char *value)
 {
-    *(UA_Double *)adr = atof(value);
+    *(UA_Double *)adr = parseDouble(value);
 }
 
 static void setString(uintptr_t adr, const char *value)
diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index a0e313f..1351f66 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -11,6 +11,9 @@
 
 #include "NodesetLoader/NodesetLoader.h"
 
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 #include <time.h>
 
 static inline UA_Boolean isNodeId(const char *s)
@@ -55,6 +58,34 @@ static inline UA_NodeId extractNodeId(char *s)
     return id;
 }
 
+// xs:double has a '.' as decimal separator, atof expects the one of the current
+// locale
+static inline UA_Double parseDouble(const char *s)
+{
+    const char *point = strchr(s, '.');
+    // "0.0" in the current locale, the separator is between the digits
+    char zero[16];
+    const int zeroLen = snprintf(zero, sizeof(zero), "%.1f", 0.0);
+    if (!point || zeroLen < 3 || zeroLen >= (int)sizeof(zero) ||
+        (zeroLen == 3 && zero[1] == '.'))
+    {
+        return atof(s);
+    }
+    const size_t separatorLen = (size_t)zeroLen - 2;
+    const size_t intLen = (size_t)(point - s);
+    char *localized = (char *)malloc(strlen(s) + separatorLen + 1);
+    if (!localized)
+    {
+        return atof(s);
+    }
+    memcpy(localized, s, intLen);
+    memcpy(localized + intLen, zero + 1, separatorLen);
+    strcpy(localized + intLen + separatorLen, point + 1);
+    const UA_Double result = atof(localized);
+    free(localized);
+    return result;
+}
+
 static inline UA_DateTime UA_DateTime_fromString(const char *dateString)
 {
     UA_DateTimeStruct dt;
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index a2b351f..b80e927 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -286,7 +286,7 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
     attr.userAccessLevel = (UA_Byte)atoi(node->userAccessLevel);
     attr.description = *description;
     attr.historizing = isValTrue(node->historizing);
-    attr.minimumSamplingInterval = atof(node->minimumSamplingInterval);
+    attr.minimumSamplingInterval = parseDouble(node->minimumSamplingInterval);
 
     // this case is only needed for the euromap83 comparison, think the nodeset
     // is not valid
-- 
2.43.0


From 69d5b76ddefa2b429c78bf36bfdfb276e33b100d Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 06:59:45 +0000
Subject: [PATCH 46/48] fix: a load without a path fails silently

---
 backends/open62541/src/import.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index b80e927..63400fb 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -796,8 +796,12 @@ bool NodesetLoader_loadFile(struct UA_Server *server, const char *path,
     {
         return false;
     }
+    UA_ServerConfig *config = UA_Server_getConfig(server);
     if (!path)
     {
+        logToOpen((void *)(uintptr_t)config->logging,
+                  NODESETLOADER_LOGLEVEL_ERROR,
+                  "NodesetLoader: no path - abort");
         return false;
     }
 
@@ -809,7 +813,6 @@ bool NodesetLoader_loadFile(struct UA_Server *server, const char *path,
     handler.file = path;
     handler.extensionHandling = extensionHandling;
 
-    UA_ServerConfig *config = UA_Server_getConfig(server);
     NodesetLoader_Logger *logger =
         (NodesetLoader_Logger *)calloc(1, sizeof(NodesetLoader_Logger));
     logger->context = (void*)(uintptr_t)config->logging;
-- 
2.43.0


From 6dc21558c38fe85e2449940156593206c392609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:05 +0000
Subject: [PATCH 47/48] fix: a document that declares entities leaks their
 declarations

---
 src/Parser.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index ca8d63a..9f56881 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -24,6 +24,17 @@ Parser *Parser_new(void *context)
     return parser;
 }
 
+// entities declared in the document are kept in a tree of their own
+static void freeParserCtxt(xmlParserCtxtPtr ctxt)
+{
+    if (ctxt->myDoc)
+    {
+        xmlFreeDoc(ctxt->myDoc);
+        ctxt->myDoc = NULL;
+    }
+    xmlFreeParserCtxt(ctxt);
+}
+
 int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
                Parser_callbackEnd end, Parser_callbackChar onChars)
 {
@@ -57,13 +68,13 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
         if (xmlParseChunk(ctxt, chars, res, 0))
         {
             xmlParserError(ctxt, "xmlParseChunk");
-            xmlFreeParserCtxt(ctxt);
+            freeParserCtxt(ctxt);
             return 1;
         }
     }
     // only the end of the document tells whether it is complete
     int status = ferror(file) ? 1 : xmlParseChunk(ctxt, chars, 0, 1);
-    xmlFreeParserCtxt(ctxt);
+    freeParserCtxt(ctxt);
     return status ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From 327d6c06579702be29ff7dbf53eb09ba5fe94cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:15 +0000
Subject: [PATCH 48/48] fix: white space around boolean values turns true into
 false

---
 backends/open62541/src/conversion.h | 8 ++++++--
 src/Nodeset.c                       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 1351f66..70a4f89 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -36,8 +36,12 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    // both are valid representations of a xs:boolean
-    return !strcmp(s, "true") || !strcmp(s, "1");
+    // both are valid representations of a xs:boolean, surrounding white space is
+    // not part of the value
+    s += strspn(s, " \t\r\n");
+    const size_t length = strcspn(s, " \t\r\n");
+    return (length == 4 && !strncmp(s, "true", length)) ||
+           (length == 1 && *s == '1');
 }
 
 static inline UA_NodeId extractNodeId(char *s)
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 8e490cb..2885b8b 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -200,10 +200,14 @@ static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
 }
 
-// both are valid representations of a xs:boolean
+// both are valid representations of a xs:boolean, surrounding white space is
+// not part of the value
 static bool isTrue(const char *value)
 {
-    return !strcmp("true", value) || !strcmp("1", value);
+    value += strspn(value, " \t\r\n");
+    const size_t length = strcspn(value, " \t\r\n");
+    return (length == 4 && !strncmp("true", value, length)) ||
+           (length == 1 && *value == '1');
 }
 
 static void insertElementAtFront(NL_Reference **toList, NL_Reference *elem)
-- 
2.43.0

