#!/usr/bin/env python3
# writes MANIFEST.json: one check per property of properties.jsonl
import json
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
NA={}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    bounds=[l.split('@ bound',1)[1].strip() for l in open(V+'harness/%s.cpp'%i.lower()) if l.startswith('//@ bound')]
    stubs=[l.split('@ stub',1)[1].strip() for l in open(V+'harness/%s.cpp'%i.lower()) if l.startswith('//@ stub')]
    note='Every value within the bounds: '+' '.join(bounds)+'. '
    if stubs: note+='Stand-ins: '+'; '.join(stubs)+'. '
    note+='Doubles are modelled as extended reals (exact arithmetic, infinities and NaN kept, no rounding); trusts clang, the symbolic executor in engine/ and z3. Counterexamples count only once reproduced by the native build of /repo; sampled points of proved paths are also run there.'
    checks.append({'property':i,'quick_cmd':'bin/check '+i,'thorough_cmd':'bin/check '+i+' --tier thorough','evidence_file':'evidence/%s.json'%i,
        'technique':"solver-based checking: symbolic execution of the LLVM IR of /repo's sources, z3 decides every branch and assertion, counterexamples replayed natively",
        'level':'model_checking','level_note':note})
m={'version':1,'setup_cmd':'make -s -C engine -j8','checks':checks,'not_applicable':[{'property':k,'reason':v} for k,v in NA.items()],
   'notes':'No hooks in /repo: the harnesses in harness/ call the public interface (components are replaced through the virtual interfaces of the library itself).'}
json.dump(m,open(V+'MANIFEST.json','w'),indent=1)
