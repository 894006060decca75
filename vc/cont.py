"""Contracts for the container level: the functions of multi_index_container that own nodes, index_base (the bottom of
every chain of layers, base case of the induction in layer.py) and node_handle.

Ghost state: for every node its storage (allocated by which allocator with which size / freed), its element (not yet
constructed / live / destroyed) and whether it stands in the indices; ownership is exact: at every exit, normal or
exceptional, every node is either freed with a destroyed element or owned by the container or by a node handle."""
import z3
from .sym import *
from . import build
from .layer import lprobe,goal,setg,A,B,T,Fa
And=z3.And; Or=z3.Or; Not=z3.Not
KEEP=(r'#sequenced_index\|1\|.*_',)
def is_(eng,a,b):
    if a.eq(b) or z3.is_true(z3.simplify(a==b)): return True
    return not eng.feasible(a!=b)
class Nodes:
    @staticmethod
    def find(eng,st,addr):
        for i,n in enumerate(st.g['n']):
            if is_(eng,addr,n['a']): return i
        return None
    @staticmethod
    def upd(st,i,**k):
        l=list(st.g['n']); l[i]=dict(l[i],**k); setg(st,n=l)
def fieldof(eng,st,name,args):
    F=eng.mod.func(name); s=St(); s.heap=st.heap.copy(); s.local=dict(st.local); s.env={a:v for a,v in zip(F.args,args)}; last=None
    for I in F.blocks[0].ins:
        if I.op=='ret': break
        if I.op=='load': last=eng.norm(eng.ptr(eng.val(s,I.ops[0])))
        eng.simple(s,I,probing=True)
    return last
class K: pass
def handlers(eng,cx):
    def throws(outs): return outs+[(None,None,'throw')]
    val=lambda st,a: lprobe(eng,st,'p_value',[Ptr(a,0)]).addr()
    nsz=lambda st: lprobe(eng,st,'p_nodesize',[])
    c={}
    def alloc(eng,st,I,args):
        i,n,sz=[eng.num(a) for a in args]
        goal(eng,st,('allocate/container-allocator',i==cx.id),('allocate/one-node',And(n==1,sz==nsz(st))))
        def eff(s):
            y=eng.fresh('newnode'); eng.solver.add(y>0,y<2**62,*[y!=n['a'] for n in s.g['n']]+[y!=b for b in s.g['blockers']]); 
            setg(s,n=s.g['n']+[dict(a=y,al='yes',id=i,sz=sz,val='raw',ch='out',new=True)]); return Ptr(y,0)
        return throws([(None,eff,'ret')])
    c['al_alloc']=alloc
    def dealloc(eng,st,I,args):
        i,p,n,sz=eng.num(args[0]),A(eng,args[1]),eng.num(args[2]),eng.num(args[3])
        k=Nodes.find(eng,st,p)
        if k is None: goal(eng,st,('deallocate/known-node',Fa)); return [(None,None,'ret')]
        d=st.g['n'][k]
        goal(eng,st,('deallocate/allocated-and-not-yet-freed',B(d['al']=='yes')),('deallocate/same-allocator',i==d['id']),('deallocate/same-size',And(n==1,sz==d['sz'])),
             ('deallocate/element-destroyed-first',B(d['val']!='live')),('deallocate/in-no-index',B(d['ch']=='out')))
        return [(None,lambda s:Nodes.upd(s,k,al='freed'),'ret')]
    c['al_dealloc']=dealloc
    def ctor(how):
        def h(eng,st,I,args):
            k=Nodes.find(eng,st,A(eng,args[0]))
            if k is None: goal(eng,st,('construct/in-a-node',Fa)); return [(None,None,'ret')]
            d=st.g['n'][k]
            goal(eng,st,('construct/in-raw-storage',B(d['al']=='yes' and d['val']=='raw')),('construct/from-the-argument',A(eng,args[1])==cx.v),('construct/expected-operation',B(how in cx.ctors)))
            return throws([(None,lambda s:Nodes.upd(s,k,val='live'),'ret')])
        return h
    for n in('v_copy','v_move','v_conv'): c[n]=ctor(n)
    def assign(how):
        def h(eng,st,I,args):
            goal(eng,st,('assign/expected',B(how in cx.assigns)),('assign/target',A(eng,args[0])==cx.xval),('assign/source',A(eng,args[1])==cx.v))
            return throws([(None,lambda s:setg(s,assigned=s.g['assigned']+1),'ret')])
        return h
    for n in('v_assign','v_massign'): c[n]=assign(n)
    def dtor(eng,st,I,args):
        k=Nodes.find(eng,st,A(eng,args[0]))
        if k is None: goal(eng,st,('destroy/known-element',Fa)); return [(None,None,'ret')]
        d=st.g['n'][k]
        goal(eng,st,('destroy/live-element',B(d['al']=='yes' and d['val']=='live')),('destroy/in-no-index',B(d['ch']=='out')))
        return [(None,lambda s:Nodes.upd(s,k,val='dead'),'ret')]
    c['v_dtor']=dtor
    def X(st):
        return Nodes.find(eng,st,cx.x)
    def mod(eng,st,I,args):
        goal(eng,st,('modifier/applied-to-the-element',A(eng,args[0])==cx.xval),('modifier/once',B(st.g['mod'] is None)),('modifier/element-live',B(st.g['n'][X(st)]['val']=='live')))
        return [(None,lambda s:setg(s,mod='ok'),'ret'),(None,lambda s:setg(s,mod='threw'),'throw')]
    def back(eng,st,I,args):
        goal(eng,st,('rollback/applied-to-the-element',A(eng,args[0])==cx.xval),('rollback/after-a-failed-modification',B(st.g['mod']=='ok' and st.g['rb'] in('no','threw'))),('rollback/once',B(st.g['back'] is None)),('rollback/element-live',B(st.g['n'][X(st)]['val']=='live')))
        return [(None,lambda s:setg(s,back='ok'),'ret'),(None,lambda s:setg(s,back='threw'),'throw')]
    c['mod_']=mod; c['back_']=back
    # ---- the chain of indices (contract proved for every layer in layer.py, base case below)
    def s_insert(kind):
        def h(eng,st,I,args):
            goal(eng,st,('chain-insert/this',A(eng,args[0])==cx.c.addr()))
            v=A(eng,args[1]); loc=[a for a in args[2:] if isinstance(a,Ptr) and isinstance(a.b,Obj)]
            if len(loc)<1: raise ToolError('node reference not local')
            xr=loc[0]; hint=[a for a in args[2:] if isinstance(a,Ptr) and not isinstance(a.b,Obj)]
            if cx.hint is not None: goal(eng,st,('chain-insert/hint',B(len(hint)==1 and is_(eng,hint[0].addr(),cx.hint))))
            def ref(s):
                b=eng.fresh('blocker'); eng.solver.add(b>0,*[b!=n['a'] for n in s.g['n']]); setg(s,blockers=s.g['blockers']+[b],refused=True); return Ptr(b,0)
            if kind in('lvalue','rvalue'):
                goal(eng,st,('chain-insert/value',v==cx.v),('chain-insert/variant',B(kind==cx.variant)),('chain-insert/once',B(not any(n['new'] for n in st.g['n']))))
                # a refusal is recognised by result!=x: x must not accidentally name an element of the container
                goal(eng,st,('chain-insert/reference-cleared',B((xr.b,xr.o) in st.local and isinstance(st.local[(xr.b,xr.o)],Ptr) and is_(eng,A(eng,st.local[(xr.b,xr.o)]),z3.IntVal(0)))))
                def acc(s):
                    y=eng.fresh('newnode'); eng.solver.add(y>0,*[y!=n['a'] for n in s.g['n']]); s.local[(xr.b,xr.o)]=Ptr(y,0)
                    setg(s,n=s.g['n']+[dict(a=y,al='yes',id=cx.id,sz=nsz(s),val='live',ch='in',new=True)]); return Ptr(y,0)
                return throws([(None,acc,'ret'),(None,ref,'ret')])
            n=A(eng,st.local[(xr.b,xr.o)]); k=Nodes.find(eng,st,n)
            if k is None: goal(eng,st,('chain-insert/known-node',Fa)); return throws([])
            d=st.g['n'][k]
            if kind=='emplaced':
                goal(eng,st,('chain-insert/complete-element',B(d['al']=='yes' and d['val']=='live' and d['ch']=='out')),('chain-insert/value',v==val(st,n)))
                def acc(s): Nodes.upd(s,k,ch='in'); return Ptr(n,0)
            else:
                goal(eng,st,('chain-insert/element-of-source',B(d['ch']=='src')),('chain-insert/value',v==val(st,n)),('chain-insert/source',A(eng,args[-1])==cx.src.addr()))
                def acc(s):
                    Nodes.upd(s,k,ch='in'); b,o=fieldof(eng,s,'p_count',[cx.src]); s.heap.store(o,'v',b,lprobe(eng,s,'p_count',[cx.src])-1); return Ptr(n,0)
            return throws([(None,acc,'ret'),(None,ref,'ret')])
        return h
    def chk(eng,st,args,i,what,pl='in'):
        n=A(eng,args[i]); k=Nodes.find(eng,st,n)
        goal(eng,st,(what+'/this',A(eng,args[0])==cx.c.addr()),(what+'/element-of-container',B(k is not None and st.g['n'][k]['ch']==pl and st.g['n'][k]['val']=='live')))
        return k
    def s_extract(eng,st,I,args):
        k=chk(eng,st,args,1,'chain-extract')
        if k is None: return []
        return [(None,lambda s:Nodes.upd(s,k,ch='out'),'ret')]
    def s_extract_tr(eng,st,I,args):
        n=A(eng,args[1]); k=Nodes.find(eng,st,n)
        goal(eng,st,('chain-extract/source',A(eng,args[0])==cx.src.addr()),('chain-extract/element-of-source',B(k is not None and st.g['n'][k]['ch']=='src')))
        if k is None: return []
        return [(None,lambda s:Nodes.upd(s,k,ch='moving'),'ret')]
    def s_replace(var):
        def h(eng,st,I,args):
            k=chk(eng,st,args,2,'chain-replace'); goal(eng,st,('chain-replace/value',A(eng,args[1])==cx.v),('chain-replace/variant',B(var==cx.variant)),('chain-replace/once',B(st.g['rep'] is None)))
            return throws([(None,lambda s:(setg(s,rep=True),T)[1],'ret'),(None,lambda s:(setg(s,rep=False),Fa)[1],'ret')])
        return h
    def s_modify(eng,st,I,args):
        k=chk(eng,st,args,1,'chain-modify'); goal(eng,st,('chain-modify/after-modifier',B(st.g['mod']=='ok' and st.g['rb'] is None)))
        if k is None: return []
        def yes(s): setg(s,rb='yes'); return T
        def no(s): setg(s,rb='no'); Nodes.upd(s,k,ch='out'); return Fa
        def th(s): setg(s,rb='threw'); Nodes.upd(s,k,ch='out')
        return [(None,yes,'ret'),(None,no,'ret'),(None,th,'throw')]
    def s_rollback(eng,st,I,args):
        k=chk(eng,st,args,1,'chain-modify-rollback'); goal(eng,st,('chain-modify-rollback/after-modifier',B(st.g['mod']=='ok' and st.g['rb'] is None)))
        if k is None: return []
        return [(None,lambda s:(setg(s,rb='yes'),T)[1],'ret'),(None,lambda s:(setg(s,rb='no'),Fa)[1],'ret'),(None,lambda s:setg(s,rb='threw'),'throw')]
    def s_check(eng,st,I,args):
        k=chk(eng,st,args,1,'chain-check'); goal(eng,st,('chain-check/after-rollback',B(st.g['back']=='ok' and st.g['rb'] in('no','threw'))))
        return [(None,lambda s:(setg(s,chk=True),T)[1],'ret'),(None,lambda s:(setg(s,chk=False),Fa)[1],'ret'),(None,lambda s:setg(s,chk=False),'throw')]
    def s_delall(eng,st,I,args):
        goal(eng,st,('delete-all/this',A(eng,args[0])==cx.c.addr()),('delete-all/once-while-indices-intact',B(not st.g['delall'] and not st.g['cleared'])))
        return [(None,lambda s:setg(s,delall=True),'ret')]
    def s_clear(eng,st,I,args):
        goal(eng,st,('chain-clear/this',A(eng,args[0])==cx.c.addr()))
        return [(None,lambda s:setg(s,cleared=True),'ret')]
    for n,d in eng.mod.kept.items():
        k=build.classify(d)
        if k[:2]!=('sequenced_index','1'): continue
        f=k[2]; h=None
        if f=='insert_':
            h=s_insert('lvalue' if d.endswith('lvalue_tag)') else 'rvalue' if d.endswith('rvalue_tag)') else 'emplaced' if d.endswith('emplaced_tag)') else 'transfer')
        elif f=='extract_': h=s_extract if d.endswith('invalidate_iterators)') else s_extract_tr
        elif f=='replace_': h=s_replace('lvalue' if d.endswith('lvalue_tag)') else 'rvalue')
        else: h={'modify_':s_modify,'modify_rollback_':s_rollback,'check_rollback_':s_check,'delete_all_nodes_':s_delall,'clear_':s_clear}.get(f)
        if h is None: continue
        def guard(h=h):
            def g(eng,st,I,args):
                try: return h(eng,st,I,args)
                except (IndexError,AttributeError,KeyError,TypeError,ValueError) as e: raise ToolError('contract does not fit the call: %r'%e)
            return g
        c[n]=guard()
    return c
CASES=['f_insert','f_insert_rv','f_insert_hint','f_insert_rv_hint','f_insert_ref','f_insert_ref_hint','f_emplace','f_emplace_hint','f_insert_nh','f_insert_nh_empty','f_insert_nh_hint','f_insert_nh_hint_empty','f_transfer',
 'f_extract','f_extract_for_transfer','f_erase','f_delete_node','f_clear','f_replace','f_replace_rv','f_modify','f_modify_back',
 'g_insert','g_insert_rv','g_insert_emp','g_insert_hint','g_insert_rv_hint','g_insert_hint_emp','g_transfer','g_extract','g_replace','g_replace_rv','g_modify','g_modify_rollback','g_check_rollback','c_size','c_empty']
NHCASES=['h_dtor','h_dtor_empty','h_default','h_bool','h_bool_empty','h_empty','h_empty_empty','h_release','h_release_empty']+['h_%s_%d%d'%(f,a,b) for f in('move','assign','swap') for a in(0,1) for b in(0,1) if not(f=='move' and a)]+['h_assign_self0','h_assign_self1']
def run(eng,case):
    eng.fn=case; cx=K(); fn=case[:-6] if case.endswith('_empty') and case!='c_empty' and case!='h_empty' else case
    if fn.startswith('h_') and fn.count('_')>=2: fn='_'.join(fn.split('_')[:2])
    F=eng.mod.func(fn); a=F.args
    eng.solver.push()
    try:
        st=St(); st.heap=Heap('h0'); C=z3.Int('C'); cx.c=Ptr(C,0); eng.solver.add(C>0,C<2**62); cx.hint=None; cx.src=Ptr(z3.Int('SRC'),0); eng.solver.add(z3.Int('SRC')>0,z3.Int('SRC')<2**62,z3.Int('SRC')!=C)
        X=z3.Int('x'); v=z3.Int('v'); eng.solver.add(X>0,v>0,X<2**62,v<2**62); cx.x=X; cx.v=v
        cx.xval=eng.ptr(eng.probe('p_value',[Ptr(X,0)],st.heap)).addr()
        cx.id=eng.num(eng.probe('p_alid',[cx.c],st.heap)); eng.range_fact(cx.id,0,2**32-1)
        n0=eng.num(eng.probe('p_count',[cx.c],st.heap)); m0=eng.num(eng.probe('p_count',[cx.src],st.heap)); eng.range_fact(n0,0,2**64-2); eng.range_fact(m0,0,2**64-2)
        nsz=eng.num(eng.probe('p_nodesize',[],st.heap))
        hdr=eng.ptr(eng.probe('p_header',[cx.c],st.heap)).addr()
        g=dict(n=[],blockers=[],refused=False,assigned=0,mod=None,back=None,rb=None,rep=None,chk=None,delall=False,cleared=False)
        node=lambda ch,id=None: dict(a=X,al='yes',id=cx.id if id is None else id,sz=nsz,val='live',ch=ch,new=False)
        cx.ctors=(); cx.assigns=(); cx.variant=None
        st.env[a[0]]=cx.c; xr=None; out=None; flag=None; nh=None
        name=case
        stores=[]
        if case.startswith('h_'): return run_nh(eng,case,F,st,cx,nsz)
        if case.startswith('f_') and len(a)>=4 and a[2].ty.k=='ptr' and case not in('f_replace','f_replace_rv'):
            out=Obj('result'); flag=Obj('done'); st.env[a[1]]=Ptr(out,0); st.env[a[2]]=Ptr(flag,0)
            if 'hint' in case: h=z3.Int('hint'); eng.solver.add(h>0,h<2**62); cx.hint=h; st.env[a[4]]=Ptr(h,0)
            if '_nh' in case:
                nh=Obj('handle'); st.env[a[3]]=Ptr(nh,0)
                k=[fieldof_local(eng,st,p,nh) for p in('p_nhnode','p_nhid')]; hid=cx.id    # node handle of an equal allocator
                st.local[k[0]]=NULL if case.endswith('_empty') else Ptr(X,0); st.local[k[1]]=hid
                if not case.endswith('_empty'): g['n']=[node('out')]
            elif case=='f_transfer':
                st.env[a[3]]=Ptr(cx.src.b,0); st.env[a[4]]=Ptr(X,0); g['n']=[node('src')]; eng.solver.add(m0>=1)
            else: st.env[a[3]]=Ptr(v,0)
            cx.variant='rvalue' if '_rv' in case else 'lvalue'
            if '_ref' in case or 'emplace' in case: cx.ctors=('v_conv',)
        elif case in('f_extract','f_extract_for_transfer','f_erase','f_modify','f_modify_back','g_extract','g_modify','g_modify_rollback','g_check_rollback'):
            st.env[a[1]]=Ptr(X,0); g['n']=[node('in')]; eng.solver.add(n0>=1)
            if case=='f_extract': nh=Obj('handle'); st.env[a[2]]=Ptr(nh,0)
        elif case=='f_delete_node': st.env[a[1]]=Ptr(X,0); g['n']=[node('out')]
        elif 'replace' in case:
            st.env[a[1]]=Ptr(v,0); st.env[a[2]]=Ptr(X,0); g['n']=[node('in')]; cx.variant='rvalue' if '_rv' in case else 'lvalue'
            cx.assigns=('v_massign','v_assign') if '_rv' in case else ('v_assign',)
        elif case.startswith('g_insert') or case=='g_transfer':
            st.env[a[1]]=Ptr(v,0); i=2
            if 'hint' in case: h=z3.Int('hint'); eng.solver.add(h>0); st.env[a[2]]=Ptr(h,0); i=3
            xr=Obj('xref'); st.env[a[i]]=Ptr(xr,0)
            if 'emp' in case: st.local[(xr,0)]=Ptr(X,0); g['n']=[node('out')]
            elif case=='g_transfer': st.local[(xr,0)]=Ptr(X,0); g['n']=[node('src')]; st.env[a[i+1]]=cx.src; eng.solver.add(m0>=1)
            else: st.local[(xr,0)]=NULL; cx.ctors=('v_move',) if '_rv' in case else ('v_copy',)
        st.g=g; eng.contracts=handlers(eng,cx)
        cb,co=fieldof(eng,st,'p_count',[cx.c])
        def on_store(s,b,o,val,ty): setg(s,stores=s.g.get('stores',())+((b,o),))
        eng.on_store=on_store
        def on_exit(s,ek,val):
            G=s.g; N=G['n']
            if ek not in('ret','throw'): goal(eng,s,('no-%s'%ek,Fa)); return
            cnt=eng.num(lprobe(eng,s,'p_count',[cx.c])); scnt=eng.num(lprobe(eng,s,'p_count',[cx.src]))
            fr=[('frame/only-the-count',And([T]+[And(b==cb,B(o==co)) if not isinstance(b,Obj) else T for b,o in G.get('stores',())]))]
            def leak(*owned):
                return ('nothing-leaked',B(all((n['al']=='freed' and n['val']!='live') or (n['al']=='yes' and n['val']=='live' and (n['ch']=='in' or n['ch'] in owned)) for n in N)))
            gone=lambda n: n['ch']=='out' and n['val']=='dead' and n['al']=='freed'
            kept=lambda n: n['ch']=='in' and n['val']=='live' and n['al']=='yes'
            if out is not None:
                new=[n for n in N if n['ch']=='in']
                ins=ek=='ret' and bool(new)
                if ek=='ret':
                    r=A(eng,s.local[(out,0)]); b=eng.boolv(s.local[(flag,0)])
                    goal(eng,s,('says-whether-inserted',b==B(bool(new))),('result',r==new[0]['a'] if new else r==hdr if case.endswith('_empty') else Or([r==x for x in G['blockers']]+[Fa])))
                    if not new: goal(eng,s,('refused-for-a-reason',B(G['refused'] or case.endswith('_empty'))))
                if ek=='throw': goal(eng,s,('throw/nothing-inserted',B(not new)))
                goal(eng,s,('count',cnt==(n0+1 if ins else n0)),*fr)
                if nh is not None:
                    hn=A(eng,lprobe(eng,s,'p_nhnode',[Ptr(nh,0)]))
                    goal(eng,s,('handle',hn==(0 if ins or case.endswith('_empty') else X)),('element-intact',B(all(n['val']=='live' and n['al']=='yes' for n in N))))
                elif case=='f_transfer': goal(eng,s,('source-count',scnt==(m0-1 if ins else m0)),('element-stays-in-source-unless-inserted',B(ins or N[0]['ch']=='src')))
                else: goal(eng,s,leak())
                return
            if case=='f_extract':
                goal(eng,s,('no-throw',B(ek=='ret')),('count',cnt==n0-1),('out-of-the-indices-and-intact',B(N[0]['ch']=='out' and N[0]['val']=='live' and N[0]['al']=='yes' and len(N)==1)),
                  ('handle-owns-the-node',A(eng,lprobe(eng,s,'p_nhnode',[Ptr(nh,0)]))==X),('handle-has-the-allocator',eng.num(lprobe(eng,s,'p_nhid',[Ptr(nh,0)]))==cx.id),*fr); return
            if case=='f_extract_for_transfer': goal(eng,s,('no-throw',B(ek=='ret')),('count',cnt==n0-1),('out-of-the-indices-and-intact',B(N[0]['ch']=='out' and N[0]['val']=='live' and N[0]['al']=='yes')),*fr); return
            if case=='f_erase': goal(eng,s,('no-throw',B(ek=='ret')),('count',cnt==n0-1),('destroyed-and-freed',B(gone(N[0]))),*fr); return
            if case=='f_delete_node': goal(eng,s,('no-throw',B(ek=='ret')),('count',cnt==n0),('destroyed-and-freed',B(gone(N[0]))),*fr); return
            if case=='f_clear': goal(eng,s,('no-throw',B(ek=='ret')),('count',cnt==0),('elements-deleted',B(G['delall'])),('indices-emptied',B(G['cleared'])),*fr); return
            if case in('f_replace','f_replace_rv'):
                goal(eng,s,('count',cnt==n0),('attempted',B(ek=='throw' or G['rep'] is not None)),*fr)
                if ek=='ret': goal(eng,s,('says-whether-replaced',eng.boolv(val)==B(bool(G['rep']))))
                return
            if case=='f_modify':
                x=N[0]
                goal(eng,s,('modified-or-gone',B(kept(x) and G['rb']=='yes' and ek=='ret' or gone(x) and (G['mod']=='threw' or G['rb'] in('no','threw')))),('count',cnt==(n0-1 if x['ch']!='in' else n0)),
                  ('exception-passed-on',B((ek=='throw')==(G['mod']=='threw' or G['rb']=='threw'))),*fr)
                if ek=='ret': goal(eng,s,('says-whether-modified',eng.boolv(val)==B(G['rb']=='yes')))
                return
            if case=='f_modify_back':
                x=N[0]; restored=kept(x) and G['back']=='ok' and G['chk'] is True and G['rb'] in('no','threw')
                lost=gone(x) and (G['mod']=='threw' or G['back']=='threw' or G['chk'] is False)
                goal(eng,s,('modified-restored-or-gone',B(kept(x) and G['rb']=='yes' and ek=='ret' or restored or lost)),('count',cnt==(n0-1 if x['ch']!='in' else n0)),*fr)
                if ek=='ret': goal(eng,s,('says-whether-modified',eng.boolv(val)==B(G['rb']=='yes')))
                threw=G['mod']=='threw' or G['rb']=='threw' or G['back']=='threw'
                if threw: goal(eng,s,('exception-passed-on',B(ek=='throw')))
                return
            # ---- index_base
            if case.startswith('g_insert'):
                r=A(eng,val) if ek=='ret' else None; x=A(eng,s.local[(xr,0)])
                if 'emp' in case: goal(eng,s,('no-throw',B(ek=='ret')),('accepts-the-node',And(r==X,x==X) if r is not None else Fa),('untouched',B(N[0]==g['n'][0])),*fr); return
                if ek=='throw': goal(eng,s,leak(),('nothing-kept',B(all(n['al']=='freed' for n in N)))); return
                goal(eng,s,('one-complete-element',B(len(N)==1 and N[0]['al']=='yes' and N[0]['val']=='live')),('returns-it',And(r==N[0]['a'],x==N[0]['a']) if N else Fa),('count',cnt==n0),*fr); return
            if case=='g_transfer':
                sb,so=fieldof(eng,s,'p_count',[cx.src])
                goal(eng,s,('no-throw',B(ek=='ret')),('accepts-the-node',And(A(eng,val)==X,A(eng,s.local[(xr,0)])==X)),('out-of-the-source',B(N[0]['ch']=='moving' and N[0]['val']=='live')),('source-count',scnt==m0-1),('count',cnt==n0),
                   ('frame/only-the-source-count',And([T]+[And(b==sb,B(o==so)) if not isinstance(b,Obj) else T for b,o in G.get('stores',())]))); return
            if case in('g_replace','g_replace_rv'):
                if ek=='ret': goal(eng,s,('accepts',eng.boolv(val)),('assigned-once',B(G['assigned']==1)),*fr)
                else: goal(eng,s,*fr)
                return
            if case=='g_extract': goal(eng,s,('no-effect',B(ek=='ret' and N==g['n'])),*fr); return
            if case.startswith('g_'): goal(eng,s,('accepts',eng.boolv(val) if ek=='ret' else Fa),('no-effect',B(N==g['n'])),*fr); return
            if case=='c_size': goal(eng,s,('count',eng.num(val)==n0),*fr); return
            if case=='c_empty': goal(eng,s,('count',eng.boolv(val)==(n0==0)),*fr); return
            raise ToolError('case '+case)
        eng.run(F,st,on_exit,(),fnname=eng.fn)
    finally: eng.solver.pop(); eng.on_store=None
def fieldof_local(eng,st,name,obj):
    f=fieldof(eng,st,name,[Ptr(obj,0)])
    return (f[0],f[1])
def run_nh(eng,case,F,st,cx,nsz):
    """node_handle: H1 (destination / this) and H2 (source); each empty or owning a node of an allocator"""
    base='_'.join(case.split('_')[:2]); suf=case[len(base)+1:]
    self_=suf.startswith('self'); two=base in('h_move','h_assign','h_swap')
    full1=suf[:1]=='1' if two and not self_ else suf=='self1' if self_ else suf!='empty'
    full2=suf[1:2]=='1' if two and not self_ else None
    H1=Obj('h1'); H2=H1 if self_ else Obj('h2'); a=F.args
    st.env[a[0]]=Ptr(H1,0)
    if two: st.env[a[1]]=Ptr(H2,0)
    X1,X2,i1,i2=z3.Ints('x1 x2 id1 id2'); eng.solver.add(X1>0,X2>0,X1!=X2,i1>=0,i1<2**32,i2>=0,i2<2**32)
    prop=eng.prop
    if full1 and full2 and not prop: eng.solver.add(i1==i2)      # library precondition: equal allocators unless propagated
    f=lambda p,h: fieldof_local(eng,st,p,h)
    N=[]; mk=lambda x,i: dict(a=x,al='yes',id=i,sz=nsz,val='live',ch='out',new=False)
    raw=base in('h_move','h_default')
    if not raw:
        st.local[f('p_nhnode',H1)]=Ptr(X1,0) if full1 else NULL
        if full1: st.local[f('p_nhid',H1)]=i1; N.append(mk(X1,i1))
    if two and not self_:
        st.local[f('p_nhnode',H2)]=Ptr(X2,0) if full2 else NULL
        if full2: st.local[f('p_nhid',H2)]=i2; N.append(mk(X2,i2))
    st.g=dict(n=N,blockers=[],refused=False,assigned=0,mod=None,back=None,rb=None,rep=None,chk=None,delall=False,cleared=False)
    cx.x=X1; eng.contracts=handlers(eng,cx)
    def on_exit(s,ek,val):
        L=s.g['n']; nd=lambda h: A(eng,s.local[f('p_nhnode',h)]); idd=lambda h: eng.num(s.local[f('p_nhid',h)])
        gone=lambda x: B(any(n['a'].eq(x) and n['al']=='freed' and n['val']=='dead' for n in L)); live=lambda x: B(any(n['a'].eq(x) and n['al']=='yes' and n['val']=='live' for n in L))
        gs=[('no-throw',B(ek=='ret')),('frame',B(not s.touched))]
        if base=='h_dtor':
            if full1: gs.append(('element-destroyed-and-freed',gone(X1)))
        elif base=='h_default': gs.append(('empty',nd(H1)==0))
        elif base in('h_bool','h_empty'): gs+=[('result',eng.boolv(val)==B(full1==(base=='h_bool'))),('unchanged',nd(H1)==(X1 if full1 else 0))]
        elif base=='h_release': gs+=[('empty',nd(H1)==0)]+([('element-intact',live(X1))] if full1 else [])
        elif base=='h_swap':
            gs+=[('exchanged',And(nd(H1)==(X2 if full2 else 0),nd(H2)==(X1 if full1 else 0)))]
            if full1: gs+=[('intact-1',live(X1)),('allocator-1',idd(H2)==i1)]
            if full2: gs+=[('intact-2',live(X2)),('allocator-2',idd(H1)==i2)]
        elif self_: gs+=[('unchanged',nd(H1)==(X1 if full1 else 0))]+([('intact',live(X1)),('allocator',idd(H1)==i1)] if full1 else [])
        else:
            gs+=[('source-empty',nd(H2)==0),('destination',nd(H1)==(X2 if full2 else 0))]
            if full2: gs+=[('element-intact',live(X2)),('allocator',idd(H1)==i2)]
            if full1 and not raw: gs+=[('old-element-destroyed-and-freed',gone(X1))]
        goal(eng,s,*gs)
    eng.run(F,st,on_exit,(),fnname=eng.fn)
ENGKW=dict(tagged=())
