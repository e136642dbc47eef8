"""catch.py ID...: run the property's quick check against a copy with the patch"""
import os as _o
ROOT=_o.path.dirname(_o.path.dirname(_o.path.dirname(_o.path.abspath(__file__))))
import subprocess,sys,json,os,time
for i in [a for a in sys.argv[1:] if not a.startswith('-')]:
    d=ROOT+f'/seeded/{i}'; prop=json.load(open(d+'/meta.json'))['property']
    wt=f'/tmp/cw_{i}'; vf=f'/tmp/cv_{i}'
    subprocess.run(['rm','-rf',wt,vf]); subprocess.run(['git','clone','-q',_o.environ.get('QG_REPO','/repo'),wt],check=True)
    subprocess.run(['git','apply',f'{d}/patch.diff'],cwd=wt,check=True)
    subprocess.run(['cp','-a',ROOT,vf],check=True)
    t=time.time()
    r=subprocess.run(['/opt/venv/bin/python','symx/run.py',prop,'--tier','quick'],cwd=vf,env=dict(os.environ,QG_REPO=wt),capture_output=True,text=True)
    vio=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(i,prop,'rc',r.returncode,len(vio),'violations',f'{time.time()-t:.0f}s')
    print('    '+'\n    '.join(r.stdout.split('\n')[:4])[:700])
    if r.returncode!=1: print(r.stdout[-500:],r.stderr[-1500:])
    subprocess.run(['rm','-rf',wt,vf])
