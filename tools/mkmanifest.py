import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={p['id']:p for p in props}
claimed=[p['id'] for p in props if os.path.exists('/verif/dst/checks/%s.py'%p['id'].lower())]
LN=json.load(open('/verif/level_notes.json')) if os.path.exists('/verif/level_notes.json') else {}
pure={'C20':'pure functions of their array arguments: no thread, clock, I/O, randomness or second party for a schedule or fault to act on','C21':'a pure function of the data and a seed: no concurrency, time, I/O or fault can change the outcome (saving and loading the split files is C14)','C22':'pure in-memory algebra of single-threaded value objects; nothing to schedule or to fault','C23':'numerical scoring of one call is a pure function of its arguments (what concurrency can do to it is C15)','C24':'pure statistics over already recorded folds; no schedule, time, I/O or fault is involved'}
m={'version':1,'setup_cmd':'bin/setup','checks':[],'not_applicable':[],
'notes':'All machinery lives in /verif/dst; no hooks are needed in /repo (see DESIGN.md), only fix: commits. bin/replay <file> replays a recorded violation.'}
for p in props:
    i=p['id']
    if i in claimed:
        m['checks'].append({'property':i,'quick_cmd':'bin/check %s --tier quick'%i,'thorough_cmd':'bin/check %s --tier thorough'%i,
         'technique':'deterministic simulation with fault injection (seeded search)','level':'exploration',
         'level_note':LN.get(i,'Seeded search over simulated schedules, faults and crash points of the real code; finds violations, does not prove their absence.'),
         'evidence_file':'evidence/%s.json'%i})
    else:
        m['not_applicable'].append({'property':i,'reason':pure.get(i,'check not built yet')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
