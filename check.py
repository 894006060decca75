#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property for /repo's current tree.
1. deductive part: every obligation of the functions under contract the property rests on (vc/), SMT-discharged
2. bounded part (labelled so): histories over the real containers with a reference model (harness/)
Exit 0: held. Exit 1: VIOLATION line."""
import sys,os,json,time,subprocess,threading,queue,re,shutil,tempfile,signal,heapq
HERE=os.path.dirname(os.path.abspath(__file__)); os.chdir(HERE); sys.path.insert(0,HERE)
from vc import build
from vc.units import UNITS
from props import PROPS
PY=sys.executable
def main():
    t0=time.time(); pid=sys.argv[1]; P=PROPS[pid]
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    if tier not in('quick','thorough'): tier='quick'
    limit=(780 if tier=='quick' else 3*3600)
    scratch=tempfile.mkdtemp(prefix='miv_%s_'%pid); build.OUT=scratch
    hooked=[]
    ncpu=os.cpu_count() or 4
    R=dict(obl=[],units={},undecided=[],harness=[],fails=[],fn=[],notes=set(),qtime=0.0,shas={})
    lock=threading.Lock(); jobs=[]; cv=threading.Condition(lock); pending=[0]; cnt=[0]
    def submit(prio,f):
        with cv: cnt[0]+=1; pending[0]+=1; heapq.heappush(jobs,(-prio,cnt[0],f)); cv.notify()
    def worker():
        while True:
            with cv:
                while not jobs and pending[0]>0: cv.wait(1)
                if not jobs: return
                _,_,f=heapq.heappop(jobs)
            try: f()
            except Exception as e:
                with lock: R['undecided'].append('machinery: %r'%e)
            finally:
                with cv: pending[0]-=1; cv.notify_all()
    left=lambda: limit-(time.time()-t0)
    # ---- deductive
    units=[UNITS[u] for u in P['units']]
    if tier=='quick': units=[u for u in units if not u.thorough]
    irs={}
    for u in units: irs.setdefault(u.irkey(),[]).append(u)
    def mkir(idx,key,us):
        def f():
            d,fl,kp=key
            try: m=build.ir(d,keep=kp,flags=fl,keepto=os.path.join(scratch,'ir%d.ll'%idx)); path=m.path
            except Exception as e:
                with lock:
                    for u in us: R['undecided'].append('%s: extraction failed: %s'%(u.name,str(e)[-300:])); R['units'][u.name]=dict(ok=0,n=0)
                return
            with lock: R['shas'][d+' '+' '.join(fl)]=m.sha
            for u in us:
                for k in range(u.parts): submit(u.cost/u.parts,mkwork(u,k,path))
        return f
    def mkwork(u,k,path):
        def f():
            budget=max(20,min(left()-60,(600 if tier=='quick' else 5400)))
            try:
                p=subprocess.run([PY,'-m','vc.worker',u.name,str(k),str(u.parts),str(budget),path],capture_output=True,text=True,timeout=max(30,left()-20),cwd=HERE)
                line=[l for l in p.stdout.split('\n') if l.startswith('RESULT ')]
                r=json.loads(line[-1][7:]) if line else dict(obl=[],tool='worker died: '+p.stderr[-300:],qtime=0,notes=[],paths=0,t=0,nq=0,reach=0)
            except subprocess.TimeoutExpired: r=dict(obl=[],tool='time limit',qtime=0,notes=[],paths=0,t=0,nq=0,reach=0)
            with lock:
                U=R['units'].setdefault(u.name,dict(desc=u.desc,n=0,ok=0,paths=0,solver_s=0.0,queries=0,tool=[],failed=[],unknown=[],backends={},reach=0))
                if 'desc' not in U: return
                for o in r['obl']:
                    U['n']+=1
                    if o[1]=='ok': U['ok']+=1; U['backends'][o[3]]=U['backends'].get(o[3],0)+1
                    elif o[1]=='failed': U['failed'].append(o)
                    else: U['unknown'].append(o)
                U['paths']=max(U['paths'],r['paths']); U['solver_s']=round(U['solver_s']+r['qtime'],2); U['queries']+=r['nq']; U['reach']+=r.get('reach') or 0
                if r['tool']: U['tool'].append(r['tool'])
                R['notes']|=set(r['notes'])
        return f
    for i,(key,us) in enumerate(irs.items()): submit(5000,mkir(i,key,us))
    # ---- lemmas of the metatheory, checked by the Lean kernel
    def mklemma(l):
        def f():
            src=os.path.join(HERE,'vc','lemmas',l+'.lean'); t=time.time()
            tmp=os.path.join(scratch,l+'.lean'); txt=open(src).read(); th=re.findall(r'^theorem (\w+)',txt,re.M)
            open(tmp,'w').write(txt+''.join('\n#print axioms %s'%x for x in th)+'\n')
            try: p=subprocess.run(['lean',tmp],capture_output=True,text=True,timeout=max(30,min(left()-30,400)),cwd=scratch); out=p.stdout; rc=p.returncode
            except (subprocess.TimeoutExpired,OSError) as e: out=str(e); rc=-1
            good=rc==0 and 'sorry' not in out and out.count('axiom')>=len(th)
            with lock:
                R['units']['lemma/'+l]=dict(desc='lemmas '+', '.join(th)+' (Lean)',n=len(th),ok=len(th) if good else 0,paths=len(th),solver_s=round(time.time()-t,1),queries=len(th),tool=[] if good else ['lean: '+out[-200:]],failed=[],unknown=[],backends={'lean kernel':len(th)} if good else {},reach=1)
        return f
    for l in P.get('lemmas',[]): submit(4500,mklemma(l))
    # ---- bounded harness
    H=P.get('harness',{}).get(tier) or P.get('harness',{}).get('quick') or []
    CXX=['clang++-18','-std=c++17','-g1','-w','-I'+build.REPO+'/include']
    def hkey(h): return (h['src'],tuple(h.get('flags',())))
    exes={}
    def mkhar(k,hs):
        def f():
            src,fl=k; exe=os.path.join(scratch,'h%d'%list(hk).index(k))
            o=['-O1','-fsanitize=address,undefined','-fno-sanitize-recover=undefined']
            cmd=CXX+o+list(fl)+[os.path.join(HERE,'harness',src),'-o',exe]
            p=subprocess.run(cmd,capture_output=True,text=True,timeout=max(60,left()))
            if p.returncode:
                with lock: R['undecided'].append('bounded stand-in %s %s does not compile: %s'%(src,' '.join(fl),p.stderr[:300])); 
                return
            for h in hs:
                for m,c in h['modes']: submit(800,mkrun(cmd,exe,m,c))
        return f
    def mkrun(cmd,exe,m,c):
        def f():
            s=1+(seed-1)*100000
            args=[exe,m,str(s),str(c),'6']
            tl=max(30,min(left()-15,300 if tier=='quick' else 3600))
            try: p=subprocess.run(args,capture_output=True,text=True,timeout=tl,errors='replace'); out=p.stdout; err=p.stderr; rc=p.returncode
            except subprocess.TimeoutExpired as e: out=(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or ''); err='timeout'; rc=None
            L=out.split('\n'); d=dict(mode=m,flags=[x for x in cmd if x.startswith('-D')],rc=rc)
            for i,l in enumerate(L):
                if l.startswith('DONE '): d.update((k,int(v)) for k,v in re.findall(r'(\w+)=(\d+)(?= |$)',l))
                if l.startswith(('FAIL ','CRASH ')):
                    hist=L[i+1] if i+1<len(L) and L[i+1].startswith('HISTORY') else ''
                    tags=re.search(r'tags=(\S*)',l); tags=set(t for t in re.split(r'[,; ]+',tags.group(1) if tags else '') if t)
                    sd=re.search(r'seed=(\d+)',l)
                    with lock: R['fails'].append(dict(line=l,hist=hist,tags=tags,crash=l.startswith('CRASH'),cmd=cmd,run='%s %s %s 1 1'%('EXE',m,sd.group(1) if sd else s),err=err[-1500:] if l.startswith('CRASH') else ''))
            if rc is None and 'DONE' not in out:
                with lock: R['undecided'].append('bounded stand-in %s %s: time limit'%(m,d['flags']))
            elif rc not in(0,1) and not any(l.startswith('CRASH') for l in L):
                with lock: R['fails'].append(dict(line='CRASH rc=%s mode=%s'%(rc,m),hist='',tags=set(),crash=True,cmd=cmd,run=' '.join(['EXE']+args[1:]),err=err[-1500:]))
            with lock: R['harness'].append(d)
        return f
    hk={}
    for h in H: hk.setdefault(hkey(h),[]).append(h)
    for k,hs in hk.items(): submit(4000,mkhar(k,hs))
    ts=[threading.Thread(target=worker) for _ in range(ncpu)]
    for t in ts: t.start()
    for t in ts: t.join()
    # ---- verdict
    viol=[]; n=ok=0
    for name,U in R['units'].items():
        n+=U['n']; ok+=U['ok']
        if 'desc' not in U: continue
        for x in U['tool']: R['undecided'].append('%s: %s'%(name,x))
        for o in U['unknown']: R['undecided'].append('%s: obligation %s not decided by the solvers'%(name,o[0]))
        if not U['tool'] and (U['n']==0 or U['reach']==0): R['undecided'].append('%s: vacuous (no obligation or no reachable exit)'%name)
    hit=[f for f in R['fails'] if pid in f['tags'] or f['crash']]
    refuted=[(name,o) for name,U in R['units'].items() for o in U.get('failed',[])]
    known=[]
    try:
        for l in open(os.path.join(HERE,'known_findings.txt')):
            m=re.match(r'finding: property=(\S+) match=(.*?) :: (.*)',l)
            if m and m.group(1)==pid: known.append((m.group(2),m.group(3).strip()))
    except OSError: pass
    for pat,what in known: print('KNOWN-FINDING: property=%s %s'%(pid,what))
    hit=[f for f in hit if not any(re.search(p,f['line']) for p,_ in known)]
    rdir=os.path.join(HERE,'evidence','replay'); os.makedirs(rdir,exist_ok=True)
    lines=[]
    if hit or refuted:
        path=os.path.join(rdir,'%s.txt'%pid)
        with open(path,'w') as f:
            f.write('property %s, tier %s, seed %d\n'%(pid,tier,seed))
            for h in hit[:5]:
                f.write('\nREAL CODE FAILS: %s\n%s\n%s\nreplay:\n  cd %s && %s && %s\n'%(h['line'],h['hist'],h['err'],HERE,' '.join(x if not x.startswith(scratch) else '/tmp/replay_exe' for x in h['cmd']),h['run'].replace('EXE','/tmp/replay_exe')))
            for name,o in refuted[:40]:
                f.write('\nFAILED OBLIGATION %s of %s (%s)\n  path %s\n  solver: %s refuted it; model: %s\n'%(o[0],name,R['units'][name]['desc'],o[4],o[3],o[5]))
        lines.append('VIOLATION property=%s replay=%s%s'%(pid,path,'' if hit else ' no-failing-input-found'))
    wall=round(time.time()-t0,1)
    ev=dict(property=pid,tier=tier,seed=seed,level=P['level'],wall_s=wall,violations=len(hit)+len(refuted),
      assumptions=sorted(set(P.get('assumptions',[]))|R['notes']),
      coverage=dict(obligations=n,discharged=ok,checker_cmd='python3-vt /verif/check.py %s  (z3 %s; cvc5 as second back end)'%(pid,__import__('z3').get_version_string()),
        trusted_base=P.get('trusted',[])+TRUST,
        functions_under_contract=[dict(unit=k,function=U.get('desc'),obligations=U['n'],discharged=U['ok'],refuted=len(U.get('failed',[])),undecided=len(U.get('unknown',[])),paths=U.get('paths'),solver_s=U.get('solver_s'),queries=U.get('queries'),backends=U.get('backends')) for k,U in sorted(R['units'].items())],
        undecided=R['undecided'],extracted_ir=R['shas'],solver_s=round(sum(U.get('solver_s',0) for U in R['units'].values()),1),
        bounded_standin=dict(note='bounded, never counted as proved: histories generated from a seed, run on the real containers under ASan/UBSan against a reference model',
          runs=sorted(R['harness'],key=lambda d:(str(d['flags']),d['mode'])),cases=sum(d.get('cases',0) for d in R['harness']),operations=sum(d.get('ops',0) for d in R['harness']),checks=sum(d.get('checks',0) for d in R['harness']),injected_exceptions=sum(d.get('throws',0) for d in R['harness'])),
        other_property_failures=sorted(set(','.join(sorted(f['tags'])) for f in R['fails'] if f not in hit))))
    json.dump(ev,open(os.path.join(HERE,'evidence',pid+'.json'),'w'),indent=1)
    shutil.rmtree(scratch,ignore_errors=True)
    for x in R['undecided'][:20]: print('undecided:',x[:300])
    for name,o in refuted[:10]: print('refuted: %s of %s'%(o[0],name))
    for h in hit[:3]: print(h['line'][:300]); print(h['hist'][:600])
    c=ev['coverage']['bounded_standin']
    print('%s: %d/%d obligations discharged in %d functions, solver %.0f s; bounded stand-in: %d histories, %d operations; wall %.0f s'%(pid,ok,n,len(R['units']),ev['coverage']['solver_s'],c['cases'],c['operations'],wall))
    for l in lines: print(l)
    return 1 if lines else 0
TRUST=['clang 18 -O0 code generation and the LLVM 18 passes always-inline, sroa, early-cse, simplifycfg, instsimplify, loop-simplify','the VC generator vc/sym.py and the contract files in vc/','z3 and cvc5','libc++/libstdc++ facilities as compiled by clang from the installed headers']
if __name__=='__main__':
    try: rc=main()
    except Exception:
        import traceback; traceback.print_exc(); rc=0; print('undecided: check machinery failed')
    sys.exit(rc)
