#!/usr/bin/env python3
"""Developer aid: turn an MC_DUMP file of inspected, genuine findings into known-findings lines.
usage: known.py <property> <dump.jsonl>   (appends to known-findings.txt; never run by a check)"""
import json,sys,pathlib
f=pathlib.Path(__file__).parent.parent/'known-findings.txt'
old=f.read_text() if f.exists() else ''
new=[]
for l in open(sys.argv[2]):
    v=json.loads(l); k=json.dumps(v['key'],ensure_ascii=False)
    h=f"KNOWN-FINDING: property={sys.argv[1]} key={k} "
    if h not in old: new.append(h+' '.join(v['detail'].split())[:160]+'\n')
with f.open('a') as o: o.writelines(new)
print(len(new),'added')
