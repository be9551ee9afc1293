#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in a script so that the long records stay readable and diffable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=hook)))
T='srcs/toolbox/'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'props_data.py')).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=True)+'\n')
print(len(P))
