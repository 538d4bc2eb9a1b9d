#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the contracts present and properties.jsonl
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have={};proved=set();bounded=set()
for f in glob.glob(V+'/contracts/**/*.go',recursive=True):
    src=open(f).read()
    for blk in re.findall(r'(?:^//.*\n)+^func',src,re.M):
        mm=re.search(r'^//verif:prop (.*)$',blk,re.M)
        if mm:
            for p in re.split(r'[ ,]+',mm.group(1).strip()): (bounded if '//verif:bounded' in blk else proved).add(p)
    for m in re.finditer(r'^//verif:prop (.*)$',open(f).read(),re.M):
        for p in re.split(r'[ ,]+',m.group(1).strip()): have[p]=have.get(p,0)+1
na=json.load(open(V+'/tools/not_applicable.json'))
notes=json.load(open(V+'/tools/level_notes.json'))
checks=[];nap=[]
for p in props:
    i=p['id']
    if i in have and i not in na:
        checks.append({'property':i,'quick_cmd':'bash check.sh %s quick'%i,'thorough_cmd':'bash check.sh %s thorough'%i,
          'evidence_file':'evidence/%s.json'%i,
          'technique':('' if i in proved else 'bounded check of contracts; ')+'contract-based deductive verification of the real Go code (SSA weakest-precondition style symbolic execution, loops cut at inductive invariants, SMT)',
          'level':'proof' if i in proved else 'exploration',
          'level_note':notes.get(i,notes['default'] if i in proved else notes['bounded'])+(notes['mixed'] if i in proved and i in bounded else '')})
    else:
        nap.append({'property':i,'reason':na.get(i,'no contract yet: work in progress')})
m={'version':1,'setup_cmd':'bash build.sh','checks':checks,'not_applicable':nap,
 'notes':'No hooks in /repo: contracts live in /verif/contracts and reach the packages through an overlay at load time.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
