#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl') if l.strip()]
CLAIMED=open(R+'/tools/claimed.txt').read().split()
NA={
}
NOTE={
 'N02':"Seeded search over about 420 element/host pairs compiled in, placements in a watched arena, operation histories and panics; size_of, align_of and CAPACITY are compared with arithmetic on the two types. A sample of pairs and histories; other pairs are not covered.",
 'N03':"Simulated time: one unit per element relocated, call into element code and element asked of a source, bounded per operation as documented; wall-clock time is never looked at. A sample of histories over nineteen container types.",
 'N04':"The same seeded schedule and fault plan executed in 12 builds of the library, one per feature selection, and the histories compared; any difference is replayed and minimised. Decides that the builds agree, not that they are right (the other checks do that, with all features on). A sample of histories; a selection that fails to compile while others compile is a violation as well.",
 'default':"Seeded search over operation histories and fault plans, each run replayable from its case file, against an executable list/map model plus a registry of every element; real sized-chunks code in an optimised and a checked build. A sample of histories, not all of them; trusts the model, the element registry and the Rust toolchain.",
}
TECH={'N02':'deterministic simulation with fault injection: seeded search over placements, histories and panics for many element/host pairs, in a simulated memory whose every other byte is watched',
 'N03':'deterministic simulation with fault injection: seeded search over histories and faults with simulated time counted in units of work and bounded per operation',
 'N04':'deterministic simulation with fault injection: seeded search over operation schedules and fault plans, each executed in every feature selection and the histories compared'}
checks=[]
for p in props:
    if p['id'] in CLAIMED:
        checks.append({
            'property':p['id'],
            'quick_cmd':'./check.sh '+p['id'],
            'thorough_cmd':'VERIF_TIER=thorough ./check.sh '+p['id'],
            'evidence_file':'evidence/%s.json'%p['id'],
            'technique':TECH.get(p['id']) or 'deterministic simulation with fault injection: seeded search over operation schedules and fault plans, checked against a reference model',
            'level':'exploration',
            'level_note':NOTE.get(p['id'],NOTE['default']),
        })
na=[{'property':k,'reason':v} for k,v in NA.items()]
for p in props:
    if p['id'] not in CLAIMED and p['id'] not in NA:
        na.append({'property':p['id'],'reason':'check under construction'})
m={'version':1,'setup_cmd':'./check.sh setup','checks':checks,'not_applicable':na,
   'notes':'No hooks in /repo: the seams used are the type parameters, iterator, io, allocator-pool and byte-source traits the library already has.'}
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); open(R+'/MANIFEST.json','a').write('\n')
