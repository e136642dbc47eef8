"""usage: seedtest.py ID...: for each /verif/seeded/ID verify patch applies, demo passes/fails and stable tests pass (in /tmp/wt copies)"""
import os as _o
ROOT=_o.path.dirname(_o.path.dirname(_o.path.dirname(_o.path.abspath(__file__))))
import subprocess,sys,json,os,shutil
from concurrent.futures import ThreadPoolExecutor
base=json.load(open('/opt/vp/BASELINE.json'))
def run(i):
    wt=f'/tmp/wt_{i}'
    subprocess.run(['rm','-rf',wt]); subprocess.run(['cp','-a',_o.environ.get('QG_REPO','/repo'),wt],check=True)
    d=ROOT+f'/seeded/{i}'
    out=[i]
    tmpd=f'/tmp/demo_{i}'; subprocess.run(['rm','-rf',tmpd]); shutil.copytree(d,tmpd)
    env=dict(os.environ)
    r=subprocess.run(['bash',f'{tmpd}/demo.sh'],cwd=wt,capture_output=True,text=True,env=env)
    out.append(f'clean rc={r.returncode}'+('' if r.returncode==0 else r.stdout[-500:]+r.stderr[-800:]))
    a=subprocess.run(['git','apply',f'{d}/patch.diff'],cwd=wt,capture_output=True,text=True)
    out.append(f'apply rc={a.returncode} {a.stderr[:200]}')
    r=subprocess.run(['bash',f'{tmpd}/demo.sh'],cwd=wt,capture_output=True,text=True,env=env)
    out.append(f'patched rc={r.returncode} {r.stdout[-200:]} {r.stderr[-300:]}')
    if '--notest' not in sys.argv:
        e=dict(env,PYTHONPATH=wt+'/src:/opt/vp/plugins',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',PYTHONHASHSEED='0',MPLBACKEND='Agg')
        ps=[subprocess.Popen(['/opt/venv/bin/python','-m','pytest','-q','--rootdir='+wt,'-p','no:cacheprovider','-p','vp_seed',*g],cwd=wt,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,env=e) for g in (['tests/QuantumToolbox'],['tests/classes/Integration'],['tests','--ignore=tests/QuantumToolbox','--ignore=tests/classes/Integration'])]
        for p in ps:
            o=p.communicate()[0]
            out.append('tests: '+o.strip().split('\n')[-1])
            if p.returncode: out.append('\n'.join(l for l in o.split('\n') if l.startswith(('FAILED','ERROR'))))
    subprocess.run(['rm','-rf',wt,tmpd])
    return '\n   '.join(out)
ids=[a for a in sys.argv[1:] if not a.startswith('-')]
with ThreadPoolExecutor(2) as ex:
    for o in ex.map(run,ids): print(o,flush=True)
