"""mutate.py gen | mutate.py run WORKERS SCALE OUT.jsonl [files]: AST mutants of every pykalman module, each
run in a scratch clone of /repo against the monitors with scaled-down plans; resumable, one JSON line each."""
import ast, sys, os, json, copy, random, subprocess, shutil, hashlib, time
FILES=['pykalman/standard.py','pykalman/unscented.py','pykalman/sqrt/cholesky.py','pykalman/sqrt/bierman.py','pykalman/sqrt/unscented.py','pykalman/utils/_sklearn.py','pykalman/utils/_numpy.py','pykalman/datasets/base.py']
HOME=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mutants(src):
    tree=ast.parse(src)
    # parents, skip docstrings
    out=[]
    nodes=list(ast.walk(tree))
    for p in nodes:
        for c in ast.iter_child_nodes(p): c._p=p
    def seg(n): return ast.get_source_segment(src,n)
    lines=src.split('\n')
    def off(l,c):  # byte offset cols -> assume ascii
        return sum(len(x)+1 for x in lines[:l-1])+c
    def rep(n,new,desc):
        a=off(n.lineno,n.col_offset); b=off(n.end_lineno,n.end_col_offset)
        out.append((n.lineno,desc,src[:a]+new+src[b:]))
    def isdoc(n):
        return isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant) and isinstance(n.value.value,str)
    for n in nodes:
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            o=n.ops[0]; l,r=seg(n.left),seg(n.comparators[0])
            m={ast.Lt:['<=','>'],ast.LtE:['<','>'],ast.Gt:['>=','<'],ast.GtE:['>','<'],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is'],ast.In:['not in'],ast.NotIn:['in']}
            for k in m.get(type(o),[]): rep(n,'(%s %s %s)'%(l,k,r),'cmp %s'%k)
        elif isinstance(n,ast.BinOp):
            l,r=seg(n.left),seg(n.right)
            m={ast.Add:['-'],ast.Sub:['+'],ast.Mult:['/'],ast.Div:['*'],ast.MatMult:[],ast.Mod:[],ast.Pow:['*'],ast.FloorDiv:['/']}
            if not (isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)):
                for k in m.get(type(n.op),[]): rep(n,'((%s) %s (%s))'%(l,k,r),'bin %s'%k)
                if isinstance(n.op,(ast.Add,ast.Sub)): rep(n,'(%s)'%l,'drop right')
        elif isinstance(n,ast.Constant) and not isinstance(getattr(n,'_p',None),ast.JoinedStr):
            v=n.value
            if v is True or v is False: rep(n,str(not v),'bool')
            elif isinstance(v,int): rep(n,str(v+1),'const+1'); (v>0) and rep(n,str(v-1),'const-1')
            elif isinstance(v,float): rep(n,repr(v*1.01+1e-3),'float')
        elif isinstance(n,ast.UnaryOp):
            if isinstance(n.op,(ast.USub,ast.Not)): rep(n,'(%s)'%seg(n.operand),'unary')
        elif isinstance(n,ast.BoolOp):
            k=' or ' if isinstance(n.op,ast.And) else ' and '
            rep(n,'('+k.join('(%s)'%seg(v) for v in n.values)+')','bool '+k)
        elif isinstance(n,ast.Attribute) and n.attr=='T': rep(n,'(%s)'%seg(n.value),'drop .T')
        elif isinstance(n,ast.Subscript) and isinstance(n.ctx,ast.Load):
            s=n.slice
            if isinstance(s,ast.Name): 
                rep(s,s.id+' + 1','index+1'); rep(s,s.id+' - 1','index-1')
        elif isinstance(n,ast.Call):
            f=seg(n.func)
            if f in('np.copy','np.array','np.asarray','deepcopy','copy.deepcopy','np.atleast_1d','np.atleast_2d','ma.asarray','np.asanyarray') and n.args: rep(n,'(%s)'%seg(n.args[0]),'drop '+f)
            if isinstance(n.func,ast.Attribute) and n.func.attr=='copy' and not n.args: rep(n,'(%s)'%seg(n.func.value),'drop copy')
            if len(n.args)>=2 and not any(isinstance(a,ast.Starred) for a in n.args):
                for i in range(len(n.args)-1):
                    a,b=n.args[i],n.args[i+1]
                    A=off(a.lineno,a.col_offset);A2=off(a.end_lineno,a.end_col_offset);B=off(b.lineno,b.col_offset);B2=off(b.end_lineno,b.end_col_offset)
                    if src[A:A2]!=src[B:B2]: out.append((n.lineno,'swap args %d'%i,src[:A]+src[B:B2]+src[A2:B]+src[A:A2]+src[B2:]))
            for kw in n.keywords:
                if kw.arg:
                    a=off(kw.lineno,kw.col_offset); b=off(kw.end_lineno,kw.end_col_offset)
                    t=src[b:]; 
                    e=b+(1 if t[:1]==',' else 0)
                    out.append((kw.lineno,'drop kw '+kw.arg,src[:a]+src[e:]))
            sw={'np.any':'np.all','np.all':'np.any','np.zeros':'np.ones','np.ones':'np.zeros','np.eye':'np.ones','ma.is_masked':'bool','np.max':'np.min','max':'min','min':'max'}
            if f in sw: rep(n.func,sw[f],'call '+sw[f])
        elif isinstance(n,(ast.If,ast.IfExp,ast.While)):
            rep(n.test,'True','if True'); rep(n.test,'False','if False')
        if isinstance(n,(ast.Assign,ast.AugAssign,ast.Expr,ast.Raise,ast.Delete)) and not isdoc(n):
            rep(n,'pass','delete stmt')
    res=[];seen=set()
    for ln,d,s in out:
        if s in seen or s==src: continue
        seen.add(s)
        try: compile(s,'x','exec')
        except Exception: continue
        res.append((ln,d,s))
    return res
ORDER={'pykalman/standard.py':'P01 P02 P03 P08 P07 P05 P16 P15 P18 P20 P17 P04 P23 P24 P25 P06 P14 P11 P21',
'pykalman/unscented.py':'P13 P05 P12 P16 P15 P18 P17 P04 P14 P23 P24 P25 P22 P20 P09 P21 P11',
'pykalman/sqrt/cholesky.py':'P01 P02 P09 P05 P03 P10 P08 P18 P17 P04 P23 P24 P25 P14 P20 P21 P22 P11',
'pykalman/sqrt/bierman.py':'P01 P02 P09 P05 P03 P10 P08 P22 P18 P17 P04 P23 P24 P25 P14 P20 P21 P11',
'pykalman/sqrt/unscented.py':'P13 P09 P05 P12 P22 P16 P15 P18 P17 P04 P14 P23 P24 P25 P20 P21 P11',
'pykalman/utils/_sklearn.py':'P03 P22 P16 P18 P17 P15 P01','pykalman/utils/_numpy.py':'P01 P18 P05 P17 P08 P13 P20','pykalman/datasets/base.py':'P19 P18'}
def gen():
    L=[]
    for f in FILES:
        for i,(ln,d,s) in enumerate(mutants(open('/repo/'+f).read())): L.append((f,ln,d,i))
    return L
CHILD='''
import sys,os,time,json,signal,importlib
sys.path.insert(0,os.environ["KV_REPO"]); sys.path.insert(0,os.environ["KV_HOME"])
os.environ.update(OMP_NUM_THREADS="1",OPENBLAS_NUM_THREADS="1")
import warnings; warnings.simplefilter("ignore")
import numpy as np; np.seterr(all="ignore")
from kv import core
props=sys.argv[1].split(); scale=float(sys.argv[2])
out=dict(status="survived")
try:
    core.check_import()
    for p in props:
        m=importlib.import_module("kv.props."+p.lower())
        ctx=core.Ctx(p,"quick"); plan=m.PLAN["quick"]; jobs=[]
        for k,n in plan.items():
            q=max(3,int(n*scale)); jobs+=[(j/q,k,(1000003+7919*j)&0xFFFFFFFF) for j in range(q)]
        jobs.sort()
        t0=time.time()
        for _,k,s in jobs:
            signal.alarm(60)
            core.run_case(ctx,m,k,s)
            if ctx.violations: out=dict(status="killed",by=p,mech=ctx.violations[0]["mech"]); break
            if time.time()-t0>float(os.environ.get("LIM","40")): break
        if out["status"]=="killed": break
        if ctx.counts["oracle_degenerate_cases"]>0.05*len(jobs): out=dict(status="inconclusive",by=p); break
except BaseException as e:
    out=dict(status="error",what=type(e).__name__+": "+str(e)[:150])
print("@@"+json.dumps(out))
'''
def one(args):
    f,ln,d,i,scale=args
    pid=os.getpid(); R='/tmp/kvmut/w%d'%pid
    if not os.path.exists(R):
        os.makedirs('/tmp/kvmut',exist_ok=True); subprocess.run(['git','clone','-q','/repo',R],check=True)
    src=open('/repo/'+f).read(); s=cache(f)[i][2]
    open(R+'/'+f,'w').write(s)
    env=dict(os.environ,KV_REPO=R,KV_HOME=HOME,PYTHONDONTWRITEBYTECODE='1',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1')
    t=time.time()
    try:
        r=subprocess.run(['/opt/venv/bin/python','-c',CHILD,ORDER[f],str(scale)],env=env,capture_output=True,text=True,timeout=1200)
        l=[x for x in r.stdout.split('\n') if x.startswith('@@')]
        o=json.loads(l[-1][2:]) if l else dict(status='died',what=(r.stderr[-200:]))
    except subprocess.TimeoutExpired: o=dict(status='timeout')
    open(R+'/'+f,'w').write(src)
    o.update(file=f,line=ln,desc=d,i=i,sec=round(time.time()-t,1)); return o
C={}
def cache(f):
    if f not in C: C[f]=mutants(open('/repo/'+f).read())
    return C[f]
if __name__=='__main__':
    L=gen()
    if sys.argv[1]=='gen':
        from collections import Counter; print(len(L),Counter(x[0] for x in L)); sys.exit()
    import multiprocessing as mp
    n=int(sys.argv[2]); scale=float(sys.argv[3]); outp=sys.argv[4]
    sel=sys.argv[5:] 
    done=set()
    if os.path.exists(outp):
        for l in open(outp): o=json.loads(l); done.add((o['file'],o['i']))
    L=[x for x in L if (not sel or x[0] in sel) and (x[0],x[3]) not in done]
    random.Random(1).shuffle(L)
    with mp.Pool(n) as pool, open(outp,'a') as fh:
        for o in pool.imap_unordered(one,[(*x,scale) for x in L]): fh.write(json.dumps(o)+'\n'); fh.flush()
