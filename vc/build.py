"""Builds a driver translation unit against /repo's current headers, turns it into inlined SSA IR.
What the extraction does: clang -O0 IR of the instantiated templates, every function except those
named in `keep` (functions under contract, called modularly) inlined, sroa/early-cse/simplifycfg/
loop-simplify applied by LLVM.  Nothing is dropped except debug intrinsics and lifetime markers."""
import json,os,re,subprocess,hashlib,tempfile,shutil
from .llir import Module
REPO=os.environ.get('VERIF_REPO','/repo')
HERE=os.path.dirname(os.path.abspath(__file__))
OUT=os.environ.get('VERIF_OUT') or os.path.join(tempfile.gettempdir(),'mi_verif_%d'%os.getuid())
PASSES='always-inline,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify)'
class BuildError(Exception): pass
def run(cmd,**k):
    p=subprocess.run(cmd,capture_output=True,text=True,**k)
    if p.returncode: raise BuildError('%s\n%s'%(' '.join(cmd),(p.stderr or '')[-4000:]))
    return p.stdout
def strip(d):
    o=[];n=0;i=0
    while i<len(d):
        c=d[i]
        if d.startswith('operator<',i) or d.startswith('operator-',i) : o.append(d[i:i+9]); i+=9; continue
        if d.startswith('operator>',i): o.append(d[i:i+9]); i+=9; continue
        if c=='<': n+=1
        elif c=='>': n-=1
        elif n==0: o.append(c)
        i+=1
    return ''.join(o)
def classify(d):
    """(class, layer number or '', function) of a demangled name"""
    s=strip(d).replace('operator()','operator_call').replace('(anonymous namespace)','anon')
    q=s.split('(')[0].split(' ')[-1].split('::')
    cls=q[-2] if len(q)>1 else ''; fn=q[-1]; lay=''
    i=d.find('::'+cls+'<')
    if i>=0:
        j=i+len(cls)+2; n=0
        for k in range(j,len(d)):
            if d[k]=='<': n+=1
            elif d[k]=='>':
                n-=1
                if n==0: break
        m=re.search(r'nth_layer<(\d+)',d[j:k]); lay=m.group(1) if m else ''
    return cls,lay,fn
def kmatch(k,d):
    if not k.startswith('#'): return re.search(k,d)
    return re.fullmatch(k[1:],'|'.join(classify(d)))
def ir(driver,keep=(),flags=(),passes=PASSES,tag='',keepto=None):
    """returns Module for driver (a file in vc/drivers). keep: regexes on demangled names kept as calls"""
    os.makedirs(OUT,exist_ok=True)
    src=os.path.join(HERE,'drivers',driver)
    d=tempfile.mkdtemp(prefix=driver.replace('.','_')+tag,dir=OUT)
    try:
        raw=os.path.join(d,'raw.ll')
        run(['clang++-18','-std=c++17','-I'+REPO+'/include','-O0','-Xclang','-disable-O0-optnone','-gline-tables-only','-fno-discard-value-names','-w','-emit-llvm','-S',src,'-o',raw]+list(flags))
        txt=open(raw).read()
        names=sorted(set(re.findall(r'^define [^@]*@("?)([^"(]+)\1\(',txt,re.M)))
        names=[n for _,n in names]
        dem=run(['llvm-cxxfilt-18'],input='\n'.join(names)).split('\n')
        kept={}
        for n,dn in zip(names,dem):
            for k in keep:
                if kmatch(k,dn) and 'lambda' not in dn: kept[n]=dn
        txt=re.sub(r'^(attributes #\d+ = \{)(.*)$',lambda m:m.group(1)+' alwaysinline'+m.group(2).replace(' noinline',' ').replace(' optnone',' ').replace(' alwaysinline',' '),txt,flags=re.M)
        out=[]
        entry=set(n for n in names if not n.startswith('_Z'))
        for line in txt.split('\n'):
            if line.startswith('define '):
                m=re.search(r'@("?)([^"(]+)\1\(',line)
                if m and (m.group(2) in kept or m.group(2) in entry):
                    line=re.sub(r'\) (.*?)#\d+(?=[^#]*$)',lambda q:') '+q.group(1)+'#99999',line)
            out.append(line)
        txt='\n'.join(out)+'\nattributes #99999 = { noinline }\n'
        raw2=os.path.join(d,'raw2.ll'); open(raw2,'w').write(txt)
        fin=os.path.join(d,'fin.ll')
        run(['opt-18','-S','-passes='+passes,raw2,'-o',fin])
        if keepto:
            shutil.copy(fin,keepto); json.dump(kept,open(keepto+'.kept','w'))
        m=Module(fin); m.path=keepto; m.kept=kept; m.srcfile=src
        m.sha=hashlib.sha256(open(fin,'rb').read()).hexdigest()[:16]
        if os.environ.get('VERIF_KEEPIR'): shutil.copy(fin,os.environ['VERIF_KEEPIR'])
        return m
    finally: shutil.rmtree(d,ignore_errors=True)
