"""mut.py FILE 'old' 'new' CHECKS... : tries a mutation: tests, then the checks"""
import sys, subprocess, json
f, old, new, *checks = sys.argv[1:]
p='/repo/pyactr/'+f; s=open(p).read(); n=s.count(old)
if n!=1: print('count',n); sys.exit(1)
open(p,'w').write(s.replace(old,new))
try:
    subprocess.run(['bash','/opt/vp/test.sh','/tmp/mut.json'],capture_output=True,text=True)
    d=json.load(open('/tmp/mut.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
    print('failing:',[x for x in b if x not in d['passed']][:3])
    for c in checks:
        r=subprocess.run(['./check',c,'quick'],cwd='/verif',capture_output=True,text=True)
        print(c, r.returncode, '\n'.join(l[:250] for l in r.stdout.splitlines()[1:4]))
finally:
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
