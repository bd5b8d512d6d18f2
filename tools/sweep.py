import sys,re,os,random,subprocess,shutil,ast,tokenize,io,json,glob
from concurrent.futures import ThreadPoolExecutor
# sweep.py FILE PER_FUNC SEED WORKERS [funcs]
FILE,PER,SEED,W=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4])
only=sys.argv[5].split(',') if len(sys.argv)>5 else None
MODN=FILE[:-3]
T={};FUN={}
for p in glob.glob('/verif/evidence/C??.json'):
    if not os.path.exists('/verif/sa/checks/'+os.path.basename(p)[:3].lower()+'.py'): continue
    d=json.load(open(p)); i=d['property']
    FUN[i]=set(d['coverage'].get('functions_analysed',[]))
TIME={}
for l in open('/tmp/ra.log'):
    m=re.match(r'(C\d\d) rc=.* ([\d.]+) s',l)
    if m: TIME[m.group(1)]=float(m.group(2))
# number of obligations whose anchor file is this file
src=open('/repo/electrode/'+FILE).read(); lines=src.split('\n')
rnd=random.Random(SEED)
tree=ast.parse(src)
defs=[]
def walk(n,pre):
    for c in ast.iter_child_nodes(n):
        if isinstance(c,ast.ClassDef): walk(c,pre+[c.name])
        elif isinstance(c,(ast.FunctionDef,)):
            defs.append((MODN+'.'+'.'.join(pre+[c.name]),c))
walk(tree,[])
OP={'+':'-','-':'+','*':'/','/':'*','<':'<=','>':'>=','<=':'<','>=':'>','==':'!=','!=':'==','**':'*','+=':'-=','-=':'+=','*=':'/=','/=':'*=','%':'+','//':'*'}
toks=list(tokenize.generate_tokens(io.StringIO(src).readline))
M=[]
for name,fn in defs:
    if only and not any(name.endswith('.'+o) for o in only): continue
    if not only and 'plot' in name: continue
    mm=[]
    doc=set()
    for n in ast.walk(fn):
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant) and isinstance(n.value.value,str):
            doc|=set(range(n.lineno,n.end_lineno+1))
    rng=[i for i in range(fn.lineno,fn.end_lineno+1) if i not in doc]
    rs=set(rng)
    for t in toks:
        i,c=t.start
        if i not in rs or t.start[0]!=t.end[0]: continue
        l=lines[i-1]; rep=None
        if t.type==tokenize.OP and t.string in OP and not (t.string in '*-+' and l[:c].rstrip()[-1:] in '(,=[:') and not (t.string=='**' and l[:c].rstrip()[-1:] in '(,'): rep=[OP[t.string]]
        elif t.type==tokenize.NUMBER:
            v=eval(t.string); rep=[str(v+1)]+([str(v-1)] if not isinstance(v,complex) and v!=0 else [])
        elif t.string in ('and','or','not','True','False','is','continue','break'): rep=[{'and':'or','or':'and','not':'','True':'False','False':'True','is':'is not','continue':'pass','break':'pass'}[t.string]]
        elif t.type==tokenize.NAME and t.string in('sin','cos','min','max','argmin','argmax','any','all','dc','rf','floor','ceil','append','extend'):
            rep=[{'sin':'cos','cos':'sin','min':'max','max':'min','argmin':'argmax','argmax':'argmin','any':'all','all':'any','dc':'rf','rf':'dc','floor':'ceil','ceil':'floor','append':'extend','extend':'append'}[t.string]]
        for r in rep or []: mm.append((name,i-1,l[:c]+r+l[t.end[1]:]))
    for i in rng:
        l=lines[i-1]
        if re.match(r'\s+[\w\.\[\], :]+ ?[-+*/]?= .*[^,(\[\\]$',l) and l.count('(')==l.count(')') and l.count('[')==l.count(']') or re.match(r'\s+[\w\.]+\(.*\)$',l) and l.count('(')==l.count(')'):
            mm.append((name,i-1,re.match(r'\s*',l).group(0)+'pass'))
        m=re.match(r'(\s+)(if|elif|while) (.*):$',l)
        if m and m.group(2)!='while':
            mm.append((name,i-1,'%s%s (%s) or True:'%(m.group(1),m.group(2),m.group(3))))
            mm.append((name,i-1,'%s%s (%s) and False:'%(m.group(1),m.group(2),m.group(3))))
        if '.T' in l: mm.append((name,i-1,l.replace('.T','',1)))
        if '.copy()' in l: mm.append((name,i-1,l.replace('.copy()','',1)))
    rnd.shuffle(mm)
    M+=mm[:PER]
uncovered=[]
def checks(name):
    ids=[i for i in FUN if name in FUN[i]]
    # focused checks first: those with few functions of other modules
    return sorted(ids,key=lambda i:TIME.get(i,30)+ (0 if sum(f.startswith(MODN+'.') for f in FUN[i])*3>len(FUN[i]) else 20))
def run(a):
    k,(name,i,t)=a
    ids=checks(name)
    if not ids: return (name,i,t),'uncovered',''
    d='/tmp/cm/s%s_%s_%d'%(MODN,SEED,k)
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/electrode')
    for f in os.listdir('/repo/electrode'):
        if f!=FILE: os.symlink('/repo/electrode/'+f,d+'/electrode/'+f)
    for f in os.listdir('/repo'):
        if f not in('electrode','.git'): os.symlink('/repo/'+f,d+'/'+f)
    s=list(lines); s[i]=t
    try: compile('\n'.join(s),'x','exec')
    except SyntaxError: shutil.rmtree(d); return (name,i,t),'syntax',''
    open(d+'/electrode/'+FILE,'w').write('\n'.join(s))
    vc='/tmp/cm/v%s_%s_%d'%(MODN,SEED,k); os.makedirs(vc+'/evidence')
    for f in('sa','known_findings.txt','properties.jsonl'): os.symlink('/tmp/vcopy/'+f,vc+'/'+f)
    e=dict(os.environ,SA_REPO=d,PYTHONDONTWRITEBYTECODE='1')
    und=[]
    res='SURVIVED'
    for c in ids:
        try:
            p=subprocess.run(['python3','-W','ignore','-m','sa.run',c,'quick'],cwd='/tmp/vcopy',env=dict(e,SA_EVID=vc+'/evidence'),capture_output=True,text=True,timeout=400)
            rc,out=p.returncode,p.stdout
        except subprocess.TimeoutExpired: rc,out=99,'timeout'
        m=re.search(r'(\d+) undecided',out)
        if m and int(m.group(1)): und.append(c+':'+m.group(1))
        if rc==1: res='caught '+c; break
        if rc!=0: und.append(c+' rc%s'%rc)
    shutil.rmtree(d); shutil.rmtree(vc)
    return (name,i,t),res,' '.join(und)+' ['+','.join(ids)+']'
os.makedirs('/tmp/cm',exist_ok=True)
from collections import Counter
C=Counter(); un=set()
print(FILE,len(M),'mutants',flush=True)
with ThreadPoolExecutor(W) as ex:
    for (name,i,t),res,und in ex.map(run,enumerate(M)):
        C[res.split()[0]]+=1
        if res=='uncovered': un.add(name)
        elif res=='SURVIVED': print(name,i+1,'|',lines[i].strip(),'->',t.strip(),'|',und,flush=True)
print(C); print('uncovered',sorted(un))
