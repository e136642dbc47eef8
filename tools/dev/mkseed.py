"""mkseed.py FILE: FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]; writes /verif/seeded/<id>"""
import os as _o
ROOT=_o.path.dirname(_o.path.dirname(_o.path.dirname(_o.path.abspath(__file__))))
import sys,subprocess,os,json,runpy
S=runpy.run_path(sys.argv[1])['SEEDS']
wt='/tmp/mkwt'
subprocess.run(['rm','-rf',wt]); subprocess.run(['git','clone','-q',_o.environ.get('QG_REPO','/repo'),wt],check=True)
for s in S:
    if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
    subprocess.run(['git','checkout','-q','--','.'],cwd=wt,check=True)
    for f,o,n in s['edits']:
        p=f'{wt}/src/quanguru/{f}'; t=open(p).read()
        assert t.count(o)==1,(s['id'],f,t.count(o),o)
        open(p,'w').write(t.replace(o,n))
    d=subprocess.run(['git','diff'],cwd=wt,capture_output=True,text=True,check=True).stdout
    out=ROOT+f'/seeded/{s["id"]}'; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(d)
    open(out+'/demo.py','w').write(s['demo'].lstrip('\n'))
    open(out+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1)
    print(s['id'])
subprocess.run(['rm','-rf',wt])
