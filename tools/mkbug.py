import sys, os, json, subprocess, textwrap
def bug(id, prop, edits, needs, breaks, demo):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout.strip()
    for f,old,new in edits:
        p='/repo/pyactr/'+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old)); open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(textwrap.dedent(PRE)+textwrap.dedent(demo))
PRE='''
import sys, io, contextlib
sys.path.insert(0, "/repo")
import numpy as np
import pyactr as actr

def run(m, t=1.0, **kw):
    """Run the model; returns the printed trace as a list of (time, module, action)."""
    sim = m.simulation(gui=False, **kw)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sim.run(t)
    tr = []
    for l in out.getvalue().splitlines():
        if l.startswith("("):
            x = eval(l, {"np": np})
            tr.append((round(float(x[0]), 4), x[1], x[2]))
    return tr

def times(dm):
    return {str(c): [round(float(x), 4) for x in dm[c]] for c in dm}

def check(got, want):
    if got != want:
        print("got", got, "want", want)
        sys.exit(1)
'''
