"""Contracts for the layer functions of every kind of index (insert_, extract_, replace_, modify_, modify_rollback_,
check_rollback_, clear_).  A container is a chain of index layers ending in index_base; each layer function calls the
same function of the layer below (super::).  Every layer is verified against the same contract, assuming it of the layer
below; since the layer below is arbitrary (known by its contract only), the contract holds for every index list by
induction on the list, with index_base (cont.py) as the base case.

Ghost state: where the element x stands in this layer (here/slot) and in the layers below (below/bslot); every user
operation may throw.  Primitive structure operations (link, unlink, link_point, ...) are known by their contracts."""
import z3
from .sym import *
from . import build
KEEP=(r'#(ordered_index_impl|hashed_index)\|1\|(link_point|hinted_link_point|in_place|find_bucket|reserve_for_insert|link|unlink)',
 r'#ordered_index_node_impl\|\|(link|rebalance_for_extract|restore|increment|decrement)',
 r'#sequenced_index\|2\|.*_',r'#sequenced_index_node_impl\|\|(link|unlink)',
 r'#random_access_index_ptr_array\|\|(room_for_one|push_back|erase|clear)',
 r'#bucket_array\|\|(at|clear)',r'#unlink_undo_assigner\|\|operator_call')
I_=z3.IntSort(); KF=z3.Function('kf',I_,I_); FIT=z3.Function('fits_original_place',I_,z3.BoolSort())
CONT0=z3.Function('content',I_,I_); T=z3.BoolVal(True); Fa=z3.BoolVal(False)
And=z3.And; Or=z3.Or; Not=z3.Not
BUC=z3.Function('bucket_of',I_,I_,I_); AT=z3.Function('bucket_at',I_,I_,I_)
def B(b): return T if b else Fa
def lprobe(eng,st,name,args):
    """evaluates an accessor of the driver in the current state (locals included)"""
    F=eng.mod.func(name); s=St(); s.heap=st.heap.copy(); s.local=dict(st.local); s.env={A:a for A,a in zip(F.args,args)}
    if len(F.blocks)!=1: raise ToolError('accessor %s is not straight-line'%name)
    for I in F.blocks[0].ins:
        if I.op=='ret': return eng.ptr(eng.val(s,I.ops[0])) if I.ops[0].ty.k=='ptr' else eng.val(s,I.ops[0])
        eng.simple(s,I,probing=True)
    raise ToolError('accessor '+name)
def lfield(eng,st,name,args):
    """(object, offset) of the local cell an accessor reads"""
    F=eng.mod.func(name); s=St(); s.heap=st.heap.copy(); s.local={}; s.env={A:a for A,a in zip(F.args,args)}
    for I in F.blocks[0].ins:
        if I.op=='ret': break
        eng.simple(s,I,probing=True)
    ks=[k for k in s.local if k[0] is args[0].b]
    if len(ks)!=1: raise ToolError('cannot locate field read by '+name)
    return ks[0]
class Cx:
    """the objects of one call: container C, element x, value argument v"""
    pass
def setg(s,**k): s.g=dict(s.g); s.g.update(k)
def A(eng,v): return eng.ptr(v).addr()
def goal(eng,st,*gs): return eng.prove_all(st,eng.fn,[g for g in gs])
def content(st,a):
    for t,c in st.g['cont']:
        if t.eq(a): return c
    return CONT0(a)
def setcontent(s,a,c): setg(s,cont=[(t,k) for t,k in s.g['cont'] if not t.eq(a)]+[(a,c)])
def impl(eng,st,x): return lprobe(eng,st,'p_impl',[Ptr(x,0)]).addr()
def target(st):
    """content of the value the element must be placed by"""
    return st.g['target']
def handlers(eng,kind,cx):
    ordered=kind<4; hashed=kind in(4,5); uniq=kind in(0,2,4)
    def throws(outs): return outs+[(None,None,'throw')]
    def user(f):
        def h(eng,st,I,args): return throws([(None,lambda s:f(s,args),'ret')])
        return h
    c={}
    def kfh(s,args):
        r=KF(content(s,A(eng,args[0]))); eng.range_fact(r,0,2**32-1); return r
    c['kf']=user(kfh)
    c['cmp']=user(lambda s,a:eng.fresh('cmp','bool'))
    def eqf(eng,st,I,args):
        # eq_(key of the new value, key of the element where it stands): equivalent values share their place
        a,b=[eng.num(x,32) for x in args]; cs=[k for _,k in st.g['cont']]; t=st.g['target']
        is_=lambda x,k: z3.is_true(z3.simplify(x==KF(k)))
        if st.g['slot']=='orig' and any((is_(a,t) and is_(b,o)) or (is_(b,t) and is_(a,o)) for o in cs if not o.eq(t)):
            def eff(r):
                def f(s): setg(s,fit=s.g['fit']+[(t,r)]); return B(r)
                return f
            return throws([(FIT(t),eff(True),'ret'),(None,lambda s:Fa,'ret')])
        return throws([(None,lambda s:eng.fresh('eq','bool'),'ret')])
    c['eqf']=eqf
    def hfh(s,a):
        r=eng.fresh('hash'); eng.range_fact(r,0,2**64-1); return r
    c['hf']=user(hfh)
    # ---- this layer's structure operations
    def header(st): return impl(eng,st,lprobe(eng,st,'p_header',[cx.this]).addr())
    def lp_out(s,inf,key,ok,pos=None,side=None,last=None):
        d=dict(key=key,ok=ok,ver=s.g['ver'],pos=pos,side=side,last=last)
        for n,v in(('q_pos',pos),('q_side',side),('q_last',last)):
            if v is None: continue
            k=lfield(eng,s,n,[inf]); s.local[k]=v if n=='q_side' else Ptr(v,0)
        setg(s,lp=d)
    def link_point_o(eng,st,I,args):
        inf=eng.ptr(args[-1]); k=eng.num(args[1],32)
        if not isinstance(inf.b,Obj): raise ToolError('insertion point not in a local')
        def eff(ok):
            def f(s):
                pos=eng.fresh('lp_pos'); side=eng.fresh('lp_side'); eng.solver.add(pos>0)
                if ok: lp_out(s,inf,k,True,pos,side)
                else:
                    b=eng.fresh('blocker'); eng.solver.add(b>0,*([b!=s.g['X']] if s.g['X'] is not None else [])); lp_out(s,inf,k,False,lprobe(eng,s,'p_impl',[Ptr(b,0)]).addr(),side)
                    setg(s,blockers=s.g['blockers']+[b],refused=True)
                return B(ok)
            return f
        outs=[(None,eff(True),'ret')]
        if uniq: outs.append((None,eff(False),'ret'))
        return throws(outs)
    def link_o(eng,st,I,args):
        x,side,pos,hd=args; lp=st.g['lp']; X=st.g['X']
        goal(eng,st,('link/element-not-linked',B(st.g['here']=='out' and X is not None)),
             ('link/insertion-point-accepted-and-current',B(lp is not None and lp['ok'] and lp['ver']==st.g['ver'])))
        if lp is not None and X is not None:
            goal(eng,st,('link/right-element',A(eng,x)==impl(eng,st,X)),('link/side-and-position',And(eng.num(side,32)==lp['side'],A(eng,pos)==lp['pos'])),
                 ('link/header',A(eng,hd)==header(st)),('link/by-key-of-value',lp['key']==KF(target(st))))
        def eff(s): setg(s,here='in',slot='new',ver=s.g['ver']+1)
        return [(None,eff,'ret')]
    def leave(s): setg(s,here='out',ver=s.g['ver']+1,left=s.g['ver']+1,leftslot=s.g['slot'],slot=None)
    def extract_o(eng,st,I,args):
        z,root,lm,rm=args; X=st.g['X']; root=eng.ptr(root)
        if isinstance(root.b,Obj): root=eng.ptr(st.local[(root.b,root.o)])   # parent_ref passed by reference to a copy
        goal(eng,st,('extract/element-linked',B(st.g['here']=='in')),('extract/right-element',A(eng,z)==impl(eng,st,X)),
          ('extract/header-fields',And(A(eng,root)==lprobe(eng,st,'a_root',[cx.this]).addr(),A(eng,lm)==lprobe(eng,st,'a_left',[cx.this]).addr(),A(eng,rm)==lprobe(eng,st,'a_right',[cx.this]).addr())))
        def eff(s): leave(s); return Ptr(impl(eng,s,X),0)
        return [(None,eff,'ret')]
    def restore_o(eng,st,I,args):
        x,pos,hd=args; X=st.g['X']; su=st.g['succ']
        goal(eng,st,('restore/element-not-linked',B(st.g['here']=='out')),('restore/successor-known-and-nothing-changed',B(su is not None and st.g['left']==st.g['ver'] and st.g['leftslot']=='orig')),
             ('restore/right-element',A(eng,x)==impl(eng,st,X)),('restore/header',A(eng,hd)==header(st)))
        if su is not None: goal(eng,st,('restore/position-is-successor',A(eng,pos)==su))
        def eff(s): setg(s,here='in',slot='orig',ver=s.g['ver']+1)
        return [(None,eff,'ret')]
    def increment(eng,st,I,args):
        q=eng.ptr(args[0])
        if not isinstance(q.b,Obj): raise ToolError('increment of a non-local')
        cur=A(eng,st.local[(q.b,q.o)]); X=st.g['X']
        goal(eng,st,('increment/element-linked',B(st.g['here']=='in')))
        def eff(s):
            r=eng.fresh('succ'); eng.solver.add(r>0); s.local[(q.b,q.o)]=Ptr(r,0)
            if s.g['slot']=='orig' and z3.is_true(z3.simplify(cur==impl(eng,s,X))): setg(s,succ=r)
            return None
        return [(None,eff,'ret')]
    def in_place(eng,st,I,args):
        X=st.g['X']
        goal(eng,st,('in_place/element-linked',B(st.g['here']=='in')))
        if ordered:
            ct=content(st,A(eng,args[1])); goal(eng,st,('in_place/right-element',A(eng,args[2])==X))
        else:
            ct=st.g.get('inpc')
            k=eng.num(args[2],32); goal(eng,st,('in_place/right-element',A(eng,args[1])==impl(eng,st,X)),('in_place/bucket-of-key',eng.num(args[3])==BUC(z3.IntVal(st.g['bver']),k)))
            ct=[c for _,c in st.g['cont'] if z3.is_true(z3.simplify(KF(c)==k))]
            if len(ct)!=1: raise ToolError('in_place: key of unknown value')
            ct=ct[0]
        if st.g['slot']=='orig':
            def eff(b):
                def f(s): setg(s,fit=s.g['fit']+[(ct,b)]); return B(b)
                return f
            return throws([(FIT(ct),eff(True),'ret'),(Not(FIT(ct)),eff(False),'ret')])
        return throws([(None,lambda s:eng.fresh('inpl','bool'),'ret')])
    # hashed
    def reserve(eng,st,I,args):
        n=eng.num(args[1]); cnt=lprobe(eng,st,'p_count',[cx.cont])
        goal(eng,st,('reserve/room-for-one-more',Or(n==cnt+1,n==0)))
        def eff(s): setg(s,bver=s.g['bver']+1,ver=s.g['ver']+1)
        return throws([(None,eff,'ret')])
    def find_bucket(eng,st,I,args):
        def eff(s):
            r=BUC(z3.IntVal(s.g['bver']),KF(content(s,A(eng,args[1])))); eng.range_fact(r,0,2**64-1); return r
        return throws([(None,eff,'ret')])
    def at(eng,st,I,args):
        def eff(s):
            r=AT(z3.IntVal(s.g['bver']),eng.num(args[1])); eng.solver.add(r>0); return Ptr(r,0)
        return [(None,eff,'ret')]
    def link_point_h(eng,st,I,args):
        v=A(eng,args[1]); inf=eng.ptr(args[2])
        if not isinstance(inf.b,Obj): raise ToolError('insertion point not in a local')
        key=KF(content(st,v)); cur=lprobe(eng,st,'q_pos',[inf]).addr(); bv=z3.IntVal(st.g['bver'])
        goal(eng,st,('link_point/bucket-of-value',cur==AT(bv,BUC(bv,key))),('link_point/element-not-linked',B(st.g['X'] is None or st.g['here']=='out')))
        def ok1(s):
            pos=cur
            if kind==5:
                pos=eng.fresh('lp_first'); eng.solver.add(pos>0); lp_out(s,inf,key,True,pos,None,eng.fresh('lp_last'))
            else: lp_out(s,inf,key,True,pos)
            return T
        def bad(s):
            b=eng.fresh('blocker'); eng.solver.add(b>0,*([b!=s.g['X']] if s.g['X'] is not None else [])); lp_out(s,inf,key,False,impl(eng,s,b)); setg(s,blockers=s.g['blockers']+[b],refused=True); return Fa
        outs=[(None,ok1,'ret')]
        if kind==4: outs.append((None,bad,'ret'))
        return throws(outs)
    def link_h(eng,st,I,args):
        x=A(eng,args[1]); lp=st.g['lp']; X=st.g['X']; p=eng.ptr(args[2])
        goal(eng,st,('link/element-not-linked',B(st.g['here']=='out' and X is not None)),('link/insertion-point-accepted-and-current',B(lp is not None and lp['ok'] and lp['ver']==st.g['ver'])))
        if lp is not None and X is not None:
            gs=[('link/right-element',x==X),('link/by-key-of-value',lp['key']==KF(target(st)))]
            if isinstance(p.b,Obj):
                gs.append(('link/position',lprobe(eng,st,'q_pos',[p]).addr()==lp['pos']))
                if kind==5: gs.append(('link/position-last',lprobe(eng,st,'q_last',[p]).addr()==lp['last']))
            elif kind==4: gs.append(('link/position',p.addr()==lp['pos']))
            else: raise ToolError('link: unexpected insertion point')
            goal(eng,st,*gs)
        def eff(s): setg(s,here='in',slot='new',ver=s.g['ver']+1)
        return [(None,eff,'ret')]
    def unlink_h(eng,st,I,args):
        X=st.g['X']
        goal(eng,st,('unlink/element-linked',B(st.g['here']=='in')),('unlink/right-element',A(eng,args[1])==X))
        u=eng.ptr(args[2]) if len(args)>2 else None
        if u is not None and not isinstance(u.b,Obj): raise ToolError('undo record not a local')
        def eff(s):
            leave(s); setg(s,undo=(u.b,s.g['ver']) if u is not None else None)
        return [(None,eff,'ret')]
    def undo(eng,st,I,args):
        if len(args)!=1: raise ToolError('undo: assignment under contract called directly')
        u=eng.ptr(args[0]); r=st.g.get('undo')
        goal(eng,st,('undo/element-not-linked',B(st.g['here']=='out')),('undo/recorded-and-nothing-changed',B(r is not None and r[0] is u.b and r[1]==st.g['ver'] and st.g['leftslot']=='orig')))
        def eff(s): setg(s,here='in',slot='orig',undo=None,ver=s.g['ver']+1)
        return [(None,eff,'ret')]
    # sequenced
    def link_s(eng,st,I,args):
        X=st.g['X']; goal(eng,st,('link/element-not-linked',B(st.g['here']=='out' and X is not None)))
        if X is not None: goal(eng,st,('link/right-element',A(eng,args[0])==impl(eng,st,X)),('link/at-the-end',A(eng,args[1])==header(st)))
        return [(None,lambda s:setg(s,here='in',slot='new',ver=s.g['ver']+1),'ret')]
    def unlink_s(eng,st,I,args):
        X=st.g['X']; goal(eng,st,('unlink/element-linked',B(st.g['here']=='in')),('unlink/right-element',A(eng,args[0])==impl(eng,st,X)))
        return [(None,leave,'ret')]
    # random access
    def ptrs(st): return lprobe(eng,st,'p_ptrs',[cx.this]).addr()
    def room(eng,st,I,args):
        goal(eng,st,('room_for_one/own-array',A(eng,args[0])==ptrs(st)))
        return throws([(None,lambda s:setg(s,room=True),'ret')])
    def push_back(eng,st,I,args):
        X=st.g['X']; goal(eng,st,('push_back/room-reserved',B(st.g.get('room'))),('push_back/element-not-linked',B(st.g['here']=='out' and X is not None)))
        if X is not None: goal(eng,st,('push_back/right-element',And(A(eng,args[0])==ptrs(st),A(eng,args[1])==impl(eng,st,X))))
        return [(None,lambda s:setg(s,here='in',slot='new',room=False),'ret')]
    def erase_r(eng,st,I,args):
        X=st.g['X']; goal(eng,st,('erase/element-linked',B(st.g['here']=='in')),('erase/right-element',And(A(eng,args[0])==ptrs(st),A(eng,args[1])==impl(eng,st,X))))
        return [(None,leave,'ret')]
    def clear_r(eng,st,I,args):
        return [(None,lambda s:setg(s,cleared=True),'ret')]
    # ---- the layer below
    def s_insert(eng,st,I,args):
        v=A(eng,args[1]); xr=None; hint=None
        loc=[a for a in args[2:] if isinstance(a,Ptr) and isinstance(a.b,Obj)]
        if not loc: raise ToolError('super insert_: node reference not found')
        xr=loc[0]
        goal(eng,st,('super-insert/value',v==cx.v),('super-insert/own-node-reference',B(xr.b is cx.xref)),('super-insert/called-once',B(st.g['below']=='out')),
            ('super-insert/same-object',A(eng,args[0])==cx.this.addr()))
        def acc(s):
            if cx.transfer: X=cx.x0
            else:
                X=eng.fresh('newnode'); eng.solver.add(X>0,*[X!=b for b in s.g['blockers']])
                s.local[(xr.b,xr.o)]=Ptr(X,0)
            setg(s,X=X,below='in',bslot='new',cont=s.g['cont']+[(lprobe(eng,s,'p_value',[Ptr(X,0)]).addr(),s.g['target'])])
            return Ptr(X,0)
        def ref(s):
            b=eng.fresh('blocker'); eng.solver.add(b>0); eng.solver.add(b!=A(eng,s.local[(xr.b,xr.o)]))
            setg(s,blockers=s.g['blockers']+[b],refused=True); return Ptr(b,0)
        return throws([(None,acc,'ret'),(None,ref,'ret')])
    def s_x(eng,st,args,i):
        goal(eng,st,('super/same-object',A(eng,args[0])==cx.this.addr()),('super/right-element',A(eng,args[i])==st.g['X']))
    def s_extract(eng,st,I,args):
        s_x(eng,st,args,1); goal(eng,st,('super-extract/element-linked-below',B(st.g['below']=='in')))
        return [(None,lambda s:setg(s,below='out',bslot=None),'ret')]
    def s_replace(eng,st,I,args):
        s_x(eng,st,args,2); goal(eng,st,('super-replace/once',B(st.g['below']=='in' and st.g['bslot']=='orig')),('super-replace/value',A(eng,args[1])==cx.v))
        def yes(s): setg(s,bslot='new'); setcontent(s,cx.xval,s.g['target']); return T
        def no(s): setg(s,refused=True); return Fa
        return throws([(None,yes,'ret'),(None,no,'ret')])
    def s_modify(eng,st,I,args):
        s_x(eng,st,args,1); goal(eng,st,('super-modify/once',B(st.g['below']=='in' and st.g['bslot']=='orig')))
        def yes(s): setg(s,bslot='new'); return T
        def no(s): setg(s,below='out',bslot=None,refused=True); return Fa
        def th(s): setg(s,below='out',bslot=None)
        return [(None,yes,'ret'),(None,no,'ret'),(None,th,'throw')]
    def s_rollback(eng,st,I,args):
        s_x(eng,st,args,1); goal(eng,st,('super-modify-rollback/once',B(st.g['below']=='in' and st.g['bslot']=='orig')))
        def yes(s): setg(s,bslot='new'); return T
        def no(s): setg(s,refused=True); return Fa
        return throws([(None,yes,'ret'),(None,no,'ret')])
    def s_check(eng,st,I,args):
        s_x(eng,st,args,1)
        def r(b):
            def f(s): setg(s,bcheck=b); return B(b)
            return f
        return throws([(None,r(True),'ret'),(None,r(False),'ret')])
    def s_clear(eng,st,I,args):
        goal(eng,st,('super-clear/same-object',A(eng,args[0])==cx.this.addr()))
        return [(None,lambda s:setg(s,below='out'),'ret')]
    tab={('sequenced_index','2','insert_'):s_insert,('sequenced_index','2','extract_'):s_extract,('sequenced_index','2','replace_'):s_replace,('sequenced_index','2','modify_'):s_modify,
      ('sequenced_index','2','modify_rollback_'):s_rollback,('sequenced_index','2','check_rollback_'):s_check,('sequenced_index','2','clear_'):s_clear,
      ('ordered_index_impl','1','link_point'):link_point_o,('ordered_index_impl','1','hinted_link_point'):link_point_o,('ordered_index_impl','1','in_place'):in_place,
      ('ordered_index_node_impl','','link'):link_o,('ordered_index_node_impl','','rebalance_for_extract'):extract_o,('ordered_index_node_impl','','restore'):restore_o,('ordered_index_node_impl','','increment'):increment,
      ('hashed_index','1','reserve_for_insert'):reserve,('hashed_index','1','find_bucket'):find_bucket,('bucket_array','','at'):at,('hashed_index','1','link_point'):link_point_h,('hashed_index','1','link'):link_h,
      ('hashed_index','1','unlink'):unlink_h,('unlink_undo_assigner','','operator_call'):undo,('hashed_index','1','in_place'):in_place,('bucket_array','','clear'):clear_r,
      ('sequenced_index_node_impl','','link'):link_s,('sequenced_index_node_impl','','unlink'):unlink_s,
      ('random_access_index_ptr_array','','room_for_one'):room,('random_access_index_ptr_array','','push_back'):push_back,('random_access_index_ptr_array','','erase'):erase_r,('random_access_index_ptr_array','','clear'):clear_r}
    def untouched(what):
        def h(eng,st,I,args):
            goal(eng,st,('element-never-%s-by-an-index'%what,Fa)); return [(None,None,'ret')]
        return h
    for n,w in(('v_copy','copied'),('v_move','moved'),('v_conv','constructed'),('v_assign','assigned'),('v_massign','assigned'),('v_dtor','destroyed'),('mod_','modified'),('back_','modified')): c[n]=untouched(w)
    for n in('al_alloc','al_dealloc'): c[n]=untouched('reallocated')
    def guard(h):
        def g(eng,st,I,args):
            try: return h(eng,st,I,args)
            except (IndexError,AttributeError,KeyError,TypeError,ValueError) as e: raise ToolError('contract does not fit the call: %r'%e)
        return g
    for n,d in eng.mod.kept.items():
        k=build.classify(d)
        if k in tab: c[n]=guard(tab[k])
    return c
NAMES={0:'ordered_unique',1:'ordered_non_unique',2:'ranked_unique',3:'ranked_non_unique',4:'hashed_unique',5:'hashed_non_unique',6:'sequenced',7:'random_access'}
CASES=['insert','insert_rv','insert_emp','insert_hint','insert_hint_emp','transfer','extract','replace','replace_rv','modify','modify_rollback','check_rollback','clear']
def run(eng,name,kind=None):
    if kind is None: kind=eng.kind
    F=eng.mod.func('f_'+name); eng.fn='%s/%s'%(NAMES[kind],name); cx=Cx()
    eng.solver.push()
    try:
        st=St(); st.heap=Heap('h0'); cx.this=Ptr(z3.Int('C'),0); eng.solver.add(z3.Int('C')>0); st.env[F.args[0]]=cx.this
        cx.transfer=name=='transfer'; cx.xref=None; cx.v=None
        ins=name.startswith('insert') or name=='transfer'
        X=z3.Int('x'); v=z3.Int('v'); eng.solver.add(X>0,v>0)
        cx.cont=eng.ptr(eng.probe('p_final',[cx.this],st.heap))
        cx.xval=eng.ptr(eng.probe('p_value',[Ptr(X,0)],st.heap)).addr(); cx.x0=X
        cv,cxc=z3.Int('content_v'),z3.Int('content_x')
        g=dict(here='out' if ins else 'in',slot=None if ins else 'orig',below='out' if ins else 'in',bslot=None if ins else 'orig',X=None if ins and not cx.transfer else X,
          lp=None,ver=0,bver=0,left=None,leftslot=None,succ=None,undo=None,blockers=[],refused=False,fit=[],room=False,cont=[],target=cxc,bcheck=None,cleared=False)
        a=F.args
        if ins:
            cx.v=v; st.env[a[1]]=Ptr(v,0); g['target']=cv; g['cont']=[(v,cv)]
            if cx.transfer: g['cont'].append((cx.xval,cv)) ; eng.solver.add(v==cx.xval); g['cont']=[(v,cv),(cx.xval,cv)]
            i=2
            if 'hint' in name: st.env[a[2]]=Ptr(z3.Int('hint'),0); eng.solver.add(z3.Int('hint')>0); i=3
            cx.xref=Obj('xref'); st.env[a[i]]=Ptr(cx.xref,0)
            st.local[(cx.xref,0)]=Ptr(X,0) if cx.transfer else NULL
            if cx.transfer: st.env[a[i+1]]=Ptr(z3.Int('other'),0)
        elif name.startswith('replace'):
            cx.v=v; st.env[a[1]]=Ptr(v,0); st.env[a[2]]=Ptr(X,0); g['target']=cv; g['cont']=[(v,cv),(cx.xval,cxc)]; eng.solver.add(cv!=cxc)
        elif name!='clear':
            st.env[a[1]]=Ptr(X,0); g['cont']=[(cx.xval,cxc)]
        st.g=g; eng.contracts=handlers(eng,kind,cx)
        def on_exit(s,ek,val):
            G=s.g; fr=[('frame/no-other-write',B(not s.touched or name=='clear'))]
            if ek not in('ret','throw'): goal(eng,s,('no-%s'%ek,Fa)); return
            same=G['here']=='in' and G['slot']=='orig' and G['below']=='in' and G['bslot']=='orig'
            gone=G['here']=='out' and G['below']=='out'
            fits=lambda: Or([FIT(c)==T if z3.is_true(z3.simplify(c==G['target'])) else Fa for c,b in G['fit'] if b]+[Fa]) if G['slot']=='orig' else B(True)
            def placed():
                """well placed here for the target value"""
                if G['here']!='in': return Fa
                if G['slot']=='new': return T      # link() checked the insertion point against the target's key
                if kind in(6,7): return T          # position does not depend on the value
                return B(any(b and z3.is_true(z3.simplify(c==G['target'])) for c,b in G['fit']))
            belowdone=B(G['below']=='in' and G['bslot']=='new')
            if ins:
                if ek=='throw': goal(eng,s,('throw/nothing-inserted',B(gone)),*fr); return
                r=A(eng,val); x=A(eng,s.local[(cx.xref,0)])
                if G['below']=='in':
                    goal(eng,s,('inserted/linked-here',placed()),('inserted/returns-the-node',And(r==G['X'],x==G['X'])),*fr)
                else:
                    goal(eng,s,('refused/unchanged',B(G['here']=='out')),('refused/not-mistaken-for-inserted',r!=x),('refused/names-a-blocker',Or([r==b for b in G['blockers']]+[Fa])),('refused/for-a-reason',B(G['refused'])),*fr)
                return
            if name=='clear':
                gs=[('emptied-below',B(G['below']=='out'))]
                if kind<4:
                    H=header(eng,s,cx); P=lambda n: lprobe(eng,s,n,[cx.this])
                    gs+=[('header-reset',And(P('h_root').addr()==0,P('h_left').addr()==H,P('h_right').addr()==H,eng.num(P('h_color'),32)==0))]
                elif kind==6:
                    H=header(eng,s,cx); P=lambda n: lprobe(eng,s,n,[cx.this]); gs+=[('header-reset',And(P('h_next').addr()==H,P('h_prior').addr()==H))]
                else: gs+=[('emptied-here',B(G['cleared']))]
                goal(eng,s,('no-throw',B(ek=='ret')),*gs); return
            if name=='extract': goal(eng,s,('no-throw',B(ek=='ret')),('out-of-this-and-lower-indices',B(gone)),*fr); return
            if name=='check_rollback':
                goal(eng,s,('unchanged',B(same)),*fr)
                if ek=='ret':
                    r=eng.boolv(val)
                    here=T if kind in(6,7) else (FIT(cxc) if G['fit'] else None)
                    if here is None: goal(eng,s,('true-only-if-checked',Not(r)))
                    elif G['bcheck'] is None: goal(eng,s,('in-original-place',And(Not(r),Not(here))))
                    else: goal(eng,s,('in-original-place',r==And(here,B(G['bcheck']))))
                return
            if ek=='throw':
                if name=='modify': goal(eng,s,('throw/gone-from-all',B(gone)),*fr)
                else: goal(eng,s,('throw/original-place-everywhere',B(same)),*fr)
                return
            r=z3.simplify(eng.boolv(val)); 
            done=And(placed(),belowdone)
            if z3.is_true(r): goal(eng,s,('done/placed-here-and-below',done),*fr)
            elif z3.is_false(r):
                goal(eng,s,('refused/for-a-reason',B(G['refused'])),('refused/gone-from-all' if name=='modify' else 'refused/original-place-everywhere',B(gone if name=='modify' else same)),*fr)
            else: goal(eng,s,('result',If3(r,done,And(B(G['refused']),B(gone if name=='modify' else same)))),*fr)
        eng.run(F,st,on_exit,(),fnname=eng.fn)
    finally: eng.solver.pop()
def If3(c,a,b): return z3.And(z3.Implies(c,a),z3.Implies(z3.Not(c),b))
def header(eng,st,cx): return impl(eng,st,lprobe(eng,st,'p_header',[cx.this]).addr())
ENGKW=dict(tagged=())
