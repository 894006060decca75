"""mkseed.py FILE.py: FILE defines SEEDS=[dict(id,prop,file,old,new,needs,breaks,demo[,n])]; writes seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json)."""
import sys,os,subprocess,json,tempfile,shutil
ns={}; exec(open(sys.argv[1]).read(),ns); only=sys.argv[2:]
SH='''#!/bin/bash
# cwd: the library's root; compiles demo.cpp (beside this file) against it and runs it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"; w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -w %s -I include "$here/demo.cpp" -o "$w/demo" || exit 3
timeout 120 "$w/demo"
'''
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp()
    subs=s.get('edits') or [(s['file'],s['old'],s['new'])]
    diff=''
    for f in sorted(set(x[0] for x in subs)):
        p='include/boost/multi_index/'+f if not f.startswith('include') else f
        t=open('/repo/'+p).read(); u=t
        for ff,o,n in subs:
            if ff!=f: continue
            c=u.count(o); k=s.get('n')
            assert c==1 or k is not None,(s['id'],c)
            if k is None: u=u.replace(o,n)
            else:
                parts=u.split(o); u=o.join(parts[:k+1])+n+o.join(parts[k+1:])
        for x,c in(('a',t),('b',u)):
            q=os.path.join(w,x,p); os.makedirs(os.path.dirname(q),exist_ok=True); open(q,'w').write(c)
        diff+=subprocess.run(['diff','-u','a/'+p,'b/'+p],capture_output=True,text=True,cwd=w).stdout
    shutil.rmtree(w)
    diff='\n'.join(l.split('\t')[0] if l.startswith(('---','+++')) else l for l in diff.split('\n'))
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(SH%s.get('flags','')); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(s['demo'])
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    print(s['id'])
