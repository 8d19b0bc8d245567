#!/usr/bin/env python3
"""Generates shim/ns0_table.inc (the standard namespace-0 nodes the stand-in server
starts with) from the OPC Foundation NodeSet2 shipped in /repo/nodesets.  Run once;
the result is committed so checks do not depend on the file."""
import sys, xml.etree.ElementTree as ET
NS = '{http://opcfoundation.org/UA/2011/03/UANodeSet.xsd}'
root = ET.parse(sys.argv[1]).getroot()
alias = {a.get('Alias'): a.text for a in root.find(NS + 'Aliases')}
cls = {'UAObject': 1, 'UAVariable': 2, 'UAMethod': 4, 'UAObjectType': 8, 'UAVariableType': 16, 'UAReferenceType': 32, 'UADataType': 64, 'UAView': 128}
def nid(s):
    s = alias.get(s, s)
    assert s.startswith('i='), s
    return int(s[2:])
sub = {}
rows = []
for n in root:
    t = n.tag.replace(NS, '')
    if t not in cls: continue
    i = nid(n.get('NodeId')); refs = n.find(NS + 'References')
    parent = (0, 0); td = 0
    for r in ([] if refs is None else refs):
        rt = nid(r.get('ReferenceType')); fwd = r.get('IsForward', 'true') == 'true'
        if rt == 40 and fwd: td = nid(r.text)
        elif not fwd and rt in (35, 44, 45, 46, 47, 48, 49, 36, 33, 34, 56, 117) and parent[0] == 0: parent = (nid(r.text), rt)
    bn = n.get('BrowseName').split(':')[-1]
    rows.append((i, cls[t], bn, parent[0], parent[1], td, 1 if n.get('IsAbstract') == 'true' else 0))
for r in rows:
    print('{%d,%d,"%s",%d,%d,%d,%d},' % r)
