"""usage: mutate.py FILE CHECKS [--sample N] [--only FUNC,...] [--out LOG] [--jobs N]
mutation analysis: FILE relative to src/quanguru; CHECKS comma separated, tried in order.
Each mutant is first given to the unit tests, then to the checks, and a survivor to the integration tests."""
import argparse, ast, copy, os, random, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
ROOT=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SRC=os.environ.get('QG_REPO','/tmp/w/repo')
PY='/opt/venv/bin/python'
SKIPNAMES={'_instances','_internalInstances','_externalInstances','label','__slots__'}

class Site:
    def __init__(self,path,desc,apply): self.path,self.desc,self.apply=path,desc,apply

def functions(tree):
    out=[]
    def walk(node,pre):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch,(ast.FunctionDef,)):
                out.append((pre+ch.name,ch)); walk(ch,pre+ch.name+'.')
            elif isinstance(ch,ast.ClassDef): walk(ch,pre+ch.name+'.')
            else: walk(ch,pre)
    walk(tree,'')
    return out

def mutants(source,only):
    """list of (description, source)"""
    tree=ast.parse(source)
    res=[]; seen=set()
    def emit(desc):
        text=ast.unparse(tree)
        if text not in seen and text!=base:
            seen.add(text); res.append((desc,text))
    base=ast.unparse(tree)
    for name,fn in functions(tree):
        if only and not any(o in name for o in only): continue
        if name.split('.')[-1] in ('__repr__','__str__'): continue
        body=list(ast.walk(fn))
        inner={id(n) for sub in ast.walk(fn) if sub is not fn and isinstance(sub,ast.FunctionDef) for n in ast.walk(sub)}
        deco={id(n) for d in fn.decorator_list for n in ast.walk(d)}
        for node in body:
            if id(node) in inner or id(node) in deco: continue
            line=getattr(node,'lineno',0)
            # statement deletion
            for field in ('body','orelse','finalbody'):
                lst=getattr(node,field,None)
                if isinstance(lst,list):
                    for i,st in enumerate(list(lst)):
                        if isinstance(st,(ast.Assign,ast.AugAssign,ast.Expr,ast.Delete,ast.Continue,ast.Break)) :
                            if isinstance(st,ast.Expr) and isinstance(st.value,ast.Constant): continue
                            old=lst[i]; lst[i]=ast.Pass(); emit(f'{name}:{st.lineno} delete `{ast.unparse(old)[:70]}`'); lst[i]=old
                        elif isinstance(st,ast.If):
                            old=st.test
                            for val in (True,False):
                                st.test=ast.Constant(val); emit(f'{name}:{st.lineno} if `{ast.unparse(old)[:60]}` -> {val}')
                            st.test=old
                        elif isinstance(st,ast.Return) and st.value is not None and isinstance(st.value,ast.IfExp):
                            pass
            if isinstance(node,ast.IfExp):
                old=node.test
                for val in (True,False):
                    node.test=ast.Constant(val); emit(f'{name}:{line} ifexp `{ast.unparse(old)[:60]}` -> {val}')
                node.test=old
            if isinstance(node,ast.Compare) and len(node.ops)==1:
                old=node.ops[0]
                table={ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Lt:[ast.LtE,ast.Gt],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE,ast.Lt],ast.GtE:[ast.Gt],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is],ast.In:[ast.NotIn],ast.NotIn:[ast.In]}
                for new in table.get(type(old),[]):
                    node.ops[0]=new(); emit(f'{name}:{line} `{ast.unparse(node)[:60]}` ({type(old).__name__})'); 
                node.ops[0]=old
            if isinstance(node,(ast.BinOp,ast.AugAssign)):
                old=node.op
                table={ast.Add:[ast.Sub],ast.Sub:[ast.Add],ast.Mult:[ast.Div],ast.Div:[ast.Mult],ast.FloorDiv:[ast.Div],ast.Pow:[ast.Mult],ast.Mod:[ast.Mult]}
                for new in table.get(type(old),[]):
                    if isinstance(node,ast.BinOp) and isinstance(node.left,(ast.JoinedStr,)) : continue
                    if isinstance(node,ast.BinOp) and isinstance(node.left,ast.Constant) and isinstance(node.left.value,str): continue
                    node.op=new(); emit(f'{name}:{line} `{ast.unparse(node)[:60]}` (was {type(old).__name__})')
                node.op=old
                if isinstance(node,ast.BinOp) and isinstance(old,(ast.MatMult,ast.Sub)):
                    node.left,node.right=node.right,node.left; emit(f'{name}:{line} `{ast.unparse(node)[:60]}` (swapped)'); node.left,node.right=node.right,node.left
            if isinstance(node,ast.BoolOp):
                old=node.op
                node.op=ast.Or() if isinstance(old,ast.And) else ast.And(); emit(f'{name}:{line} `{ast.unparse(node)[:60]}` (bool op)'); node.op=old
                for i in range(len(node.values)):
                    vals=node.values; node.values=vals[:i]+vals[i+1:]
                    if len(node.values)>=1 and len(vals)>1:
                        if len(node.values)==1: node.values=node.values*2
                        emit(f'{name}:{line} drop `{ast.unparse(vals[i])[:50]}` from bool op')
                    node.values=vals
            if isinstance(node,ast.Constant) and not isinstance(node.value,(str,bytes,type(None),type(...))):
                old=node.value
                if isinstance(old,bool): node.value=not old
                elif isinstance(old,(int,float)): node.value=old+1
                elif isinstance(old,complex): node.value=-old
                emit(f'{name}:{line} constant {old}'); node.value=old
            if isinstance(node,ast.UnaryOp) and isinstance(node.op,ast.USub):
                pass
            if isinstance(node,ast.Call):
                if len(node.args)>=2 and not any(isinstance(a,ast.Starred) for a in node.args[:2]):
                    node.args[0],node.args[1]=node.args[1],node.args[0]; emit(f'{name}:{line} `{ast.unparse(node)[:60]}` (args swapped)'); node.args[0],node.args[1]=node.args[1],node.args[0]
                for i,kw in enumerate(list(node.keywords)):
                    old=node.keywords; node.keywords=old[:i]+old[i+1:]; emit(f'{name}:{line} `{ast.unparse(node)[:60]}` (keyword {kw.arg} dropped)'); node.keywords=old
        # calls replaced by their first argument / receiver
        class Rep(ast.NodeTransformer):
            def __init__(self,target): self.target=target; self.done=None
            def visit_Call(self,node):
                if node is self.target:
                    if isinstance(node.func,ast.Attribute) and not node.args and not node.keywords: self.done=ast.unparse(node); return node.func.value
                    if len(node.args)==1 and not node.keywords and isinstance(node.func,ast.Name) and node.func.id in ('hc','abs','int','float','complex','copy','list','reversed','sorted','max','min','_parToQobj'): self.done=ast.unparse(node); return node.args[0]
                self.generic_visit(node); return node
            def visit_Attribute(self,node):
                if node is self.target and node.attr in ('T','real','imag','A'):
                    self.done=ast.unparse(node); return node.value
                self.generic_visit(node); return node
            def visit_UnaryOp(self,node):
                if node is self.target and isinstance(node.op,(ast.USub,ast.Not)): self.done=ast.unparse(node); return node.operand
                self.generic_visit(node); return node
        for node in body:
            if id(node) in inner or id(node) in deco: continue
            if isinstance(node,(ast.Call,ast.Attribute,ast.UnaryOp)):
                keep=copy.deepcopy(tree)
                # find the same node in a deep copy by position
                for n2 in ast.walk(keep):
                    if type(n2) is type(node) and getattr(n2,'lineno',None)==node.lineno and n2.col_offset==node.col_offset and n2.end_col_offset==node.end_col_offset and n2.end_lineno==node.end_lineno:
                        rep=Rep(n2); rep.visit(keep)
                        if rep.done:
                            try: text=ast.unparse(ast.fix_missing_locations(keep))
                            except Exception: break
                            if text not in seen and text!=base: seen.add(text); res.append((f'{name}:{node.lineno} unwrap `{rep.done[:60]}`',text))
                        break
    return res

def main():
    par=argparse.ArgumentParser()
    par.add_argument('file'); par.add_argument('checks'); par.add_argument('--sample',type=int,default=0)
    par.add_argument('--only',default=''); par.add_argument('--out'); par.add_argument('--jobs',type=int,default=4)
    par.add_argument('--list',action='store_true'); par.add_argument('--nointegration',action='store_true')
    a=par.parse_args()
    rel='src/quanguru/'+a.file
    source=open(f'{SRC}/{rel}').read()
    muts=mutants(source,[o for o in a.only.split(',') if o])
    bad=('raise','warn','print(','isinstance','checkCorType','checkNotVal','checkVal')
    total=len(muts)
    if a.sample and len(muts)>a.sample:
        random.Random(1).shuffle(muts); muts=muts[:a.sample]
    print(f'{a.file}: {total} mutants, {len(muts)} tried',flush=True)
    if a.list:
        for d,_ in muts: print(d)
        return
    out=open(a.out or f'/tmp/w/mut-{os.path.basename(a.file)}.log','a')
    vt='/tmp/mv'
    subprocess.run(['rm','-rf',vt]); shutil.copytree(ROOT,vt,ignore=shutil.ignore_patterns('.git','seeded'))
    counts={}
    def one(args):
        k,(desc,text)=args
        wt=f'/tmp/mut_{os.path.basename(a.file)}_{k}'
        subprocess.run(['rm','-rf',wt])
        shutil.copytree(SRC,wt,ignore=shutil.ignore_patterns('.git','docs','*.ipynb','examples'))
        open(f'{wt}/{rel}','w').write(text)
        env=dict(os.environ,PYTHONPATH=wt+'/src:/opt/vp/plugins',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',PYTHONHASHSEED='0',MPLBACKEND='Agg')
        status='SURVIVED'
        try:
            def tests(*g):
                return subprocess.run(['timeout','400',PY,'-m','pytest','-q','-x','--rootdir='+wt,'-p','no:cacheprovider','-p','vp_seed',*g],cwd=wt,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,env=env).returncode
            if tests('tests','--ignore=tests/classes/Integration'): status='tests'
            else:
                notes=[]
                for c in a.checks.split(','):
                    e=dict(env,QG_REPO=wt,SYMX_FIRST='1'); e.pop('PYTHONPATH')
                    r=subprocess.run(['timeout','600',PY,'symx/run.py',c,'--workers','2'],cwd=vt,capture_output=True,text=True,env=e)
                    if r.returncode==1: status='caught '+c; break
                    if r.returncode: notes.append(f'{c} rc={r.returncode} '+r.stderr.strip().split('INCONCLUSIVE')[-1][:200].replace('\n',' '))
                else:
                    if not a.nointegration and tests('tests/classes/Integration'): status='tests'
                    elif notes: status='INCONCLUSIVE '+'; '.join(notes)
        finally:
            subprocess.run(['rm','-rf',wt])
        out.write(f'{status} | {desc}\n'); out.flush()
        return status.split()[0]
    with ThreadPoolExecutor(a.jobs) as ex:
        for s in ex.map(one,enumerate(muts)): counts[s]=counts.get(s,0)+1
    print(a.file,counts,flush=True)
main()
