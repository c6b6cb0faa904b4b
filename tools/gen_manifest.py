"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
from vlib import core; core.setup_paths()
T={}
exec(open(os.path.join(V,'tools','techniques.py')).read())
checks,na=[],[]
for line in open(os.path.join(V,'properties.jsonl')):
    p=json.loads(line); i=p['id']
    if os.path.exists(os.path.join(V,'checks',i.lower()+'.py')):
        m=importlib.import_module('checks.'+i.lower())
        tech,note=T[i]
        checks.append(dict(property=i,quick_cmd=f'/opt/venv/bin/python run.py {i} --tier quick',thorough_cmd=f'/opt/venv/bin/python run.py {i} --tier thorough',evidence_file=f'evidence/{i}.json',technique=tech,level=getattr(m,'LEVEL','exploration'),level_note=note))
    else:
        na.append(dict(property=i,reason='check not built yet'))
json.dump(dict(version=1,setup_cmd='/opt/venv/bin/python tools/selftest.py',checks=checks,not_applicable=na,notes='All checks: property-based testing with Hypothesis against explicit reference models; see DESIGN.md. No hooks in /repo.'),open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
