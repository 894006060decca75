"""Registry: functions under contract.  A unit is one function (or one case of its contract)."""
from . import sym
class Unit:
    def __init__(s,name,desc,driver,run,flags=(),keep=(),parts=1,engkw=None,cost=10,thorough=False):
        s.name=name; s.desc=desc; s.driver=driver; s._run=run; s.flags=tuple(flags); s.keep=tuple(keep); s.parts=parts; s.engkw=engkw or {}; s.cost=cost; s.thorough=thorough
    def irkey(s): return (s.driver,s.flags,s.keep)
    def engine(s,m,budget): return sym.Engine(m,budget=budget,**s.engkw)
    def run(s,eng): return s._run(eng)
UNITS={}
def add(*a,**k):
    u=Unit(*a,**k); UNITS[u.name]=u; return u
# ---- red-black node algorithms
from . import rb
def _rb(case):
    def run(eng):
        fn,c=rb.CASES[case]; setup,loops,post=c()
        rb.run_case(eng,case,fn,setup,loops,post)
    return run
for n,parts,cost,fn in (('link/left',3,96,'link(to_left) with rebalance'),('link/right',3,96,'link(to_right) with rebalance'),('rebalance_for_extract',8,636,'rebalance_for_extract'),
      ('increment',1,4,'increment'),('decrement',1,6,'decrement'),('restore',5,205,'restore')):
    add('rb/'+n,'ordered_index_node_impl::'+fn,'rb.cpp',_rb(n),parts=parts,cost=cost,engkw=dict(tagged={0}))
# ---- composite keys: every arity the library supports by default (1..10), every shorter operand length
from . import ck
CK=[]
for N in range(1,11):
    for M in range(1,N+1):
        u=add('ck/%d/%d'%(N,M),'composite_key_compare/equal_to/hash and composite_key_result operators, %d components%s'%(N,'' if M==N else ' against operands of length %d'%M),'ck.cpp',
            (lambda N,M:lambda eng: ck.run_all(eng,N,M))(N,M),flags=('-DCKN=%d'%N,'-DCKM_=%d'%M),cost=3)
        CK.append(u.name)
# ---- ordered index: lookups, ranges, insertion points, in-place test
from . import ordix
ORDQ={'find':'find(x,comp)','find_k':'find(key)','lower_bound':'lower_bound(x,comp)','lower_bound_k':'lower_bound(key)','upper_bound':'upper_bound(x,comp)','upper_bound_k':'upper_bound(key)',
  'equal_range':'equal_range(x,comp)','equal_range_k':'equal_range(key)','contains':'contains(x,comp)','range':'range(lower,upper)','range_lu':'range(unbounded,upper)','range_uu':'range(lower,unbounded)','range_bu':'range(unbounded,unbounded)','begin':'begin()','end':'end()'}
ORDI={'link_point':'link_point','hinted_link_point':'hinted_link_point','lower_link_point':'lower_link_point','in_place':'in_place'}
OLOOK=[];OINS=[];OPLACE=[];ORANK=[]
for vn,fl,un in (('unique',('-DUNIQUE',),True),('non_unique',(),False),('ranked_unique',('-DRANKED','-DUNIQUE'),True),('ranked_non_unique',('-DRANKED',),False)):
    for k,d in list(ORDQ.items())+list(ORDI.items()):
        if k=='lower_link_point' and un: continue
        heavy=k in('equal_range','equal_range_k','range')
        u=add('ordix/%s/%s'%(vn,k),'ordered_index_impl::%s, %s'%(d,vn.replace('_',' ')),'ordidx.cpp',(lambda k,un:lambda eng: ordix.run(eng,k,un))(k,un),
            flags=('-fno-access-control',)+fl,keep=ordix.KEEP,engkw=dict(ordix.ENGKW),cost=60 if heavy else 3,thorough=heavy and vn.startswith('ranked'))
        (OLOOK if k in ORDQ else OPLACE if k=='in_place' else OINS).append(u.name)
    for k in('count','count_k'):
        u=add('ordix/%s/%s'%(vn,k),'ordered_index%s::%s, %s'%('_impl' if 'ranked' not in vn else '', 'count(x,comp)' if k=='count' else 'count(key)',vn.replace('_',' ')),'ordidx.cpp',(lambda k,un:lambda eng: ordix.run(eng,k,un))(k,un),
            flags=('-fno-access-control',)+fl,keep=ordix.KEEPCOUNT,engkw=dict(ordix.ENGKW),cost=2)
        OLOOK.append(u.name)
        if 'ranked' in vn: ORANK.append(u.name)
    if 'ranked' in vn:
        for k in ordix.RKCASES:
            heavy=k in('equal_range_rank','equal_range_rank_k','range_rank')
            ORANK.append(add('ordix/%s/%s'%(vn,k),'ranked_index::%s, %s'%(k.replace('_k',' (key)').replace('_lu',' (unbounded lower)').replace('_uu',' (unbounded upper)').replace('_bu',' (both unbounded)'),vn.replace('_',' ')),'ordidx.cpp',
              (lambda k,un:lambda eng: ordix.run(eng,k,un))(k,un),flags=('-fno-access-control',)+fl,keep=ordix.KEEP,engkw=dict(ordix.ENGKW),cost=90 if heavy else 4,thorough=heavy and un).name)
ORANK.append(add('ordix/lemma_positions','lemma: induction step of the counting lemma for positions','ordidx.cpp',lambda eng: ordix.run(eng,'lemma_positions'),flags=('-fno-access-control','-DRANKED'),keep=ordix.KEEP,engkw=dict(ordix.ENGKW),cost=1).name)
def _rbk(case,full):
    def run(eng):
        fn,c=rb.CASES[case]; setup,loops,post=c(); eng.ranked=True; eng.sizeonly=not full
        rb.run_case(eng,case,fn,setup,loops,post)
    return run
RBK=[]
for n,parts,cost in (('link/left',1,27),('link/right',1,27),('rebalance_for_extract',3,124),('restore',2,61)):
    RBK.append(add('rbk/'+n,'ordered_index_node_impl<rank_policy>::%s: subtree sizes'%n,'rb.cpp',_rbk(n,False),flags=('-DVC_RANKED',),parts=parts,cost=cost,engkw=dict(tagged={0})).name)
    RBK.append(add('rbk/full/'+n,'ordered_index_node_impl<rank_policy>::%s: subtree sizes and structure'%n,'rb.cpp',_rbk(n,True),flags=('-DVC_RANKED',),parts=8,cost=cost*8,engkw=dict(tagged={0}),thorough=True).name)
# ---- sequenced node algorithms
from . import seq
SEQ=[]
for k in seq.CASES:
    SEQ.append(add('seq/'+k,'sequenced_index_node_impl::'+k,'seq.cpp',(lambda k:lambda eng: seq.run(eng,k))(k),cost=6).name)
# ---- the layer functions of every kind of index
from . import layer
LAYER={}
LDESC={'insert':'insert_(v,x,lvalue_tag)','insert_rv':'insert_(v,x,rvalue_tag)','insert_emp':'insert_(v,x,emplaced_tag)','insert_hint':'insert_(v,position,x,lvalue_tag)','insert_hint_emp':'insert_(v,position,x,emplaced_tag)',
  'transfer':'insert_(v,x,source container)','extract':'extract_','replace':'replace_(v,x,lvalue_tag)','replace_rv':'replace_(v,x,rvalue_tag)','modify':'modify_','modify_rollback':'modify_rollback_','check_rollback':'check_rollback_','clear':'clear_'}
for k,kn in layer.NAMES.items():
    for c in layer.CASES:
        LAYER.setdefault(c,[]).append(add('layer/%s/%s'%(kn,c),'%s layer: %s'%(kn,LDESC[c]),'layer.cpp',(lambda k,c:lambda eng: layer.run(eng,c,k))(k,c),
            flags=('-fno-access-control','-DKIND=%d'%k),keep=layer.KEEP,engkw=dict(layer.ENGKW),cost=1).name)
def layer_units(*cases): return [u for c in cases for u in LAYER[c]]
# ---- container level, index_base, node_handle
from . import cont
CONT={}
def _cont(p,c):
    def run(eng): eng.prop=p; return cont.run(eng,c)
    return run
for p in(0,1):
    for c in (cont.CASES if p==0 else [])+cont.NHCASES:
        what={'f_':'multi_index_container::','g_':'index_base::','h_':'node_handle::','c_':'multi_index_container::'}[c[:2]]
        CONT.setdefault(c,[]).append(add('cont/%s%s'%(c,'/propagating' if p else ''),what+c[2:]+(', propagating allocator' if p else ''),'cont.cpp',_cont(p,c),flags=('-fno-access-control','-DPROP=%d'%p),keep=cont.KEEP,engkw=dict(cont.ENGKW),cost=1).name)
def cont_units(*pre): return [u for c in CONT for u in CONT[c] if c.startswith(pre)]
# ---- hashed node algorithms
from . import hash as hsh
HNODE=[]; HREH=[]
HDESC={'link':'link(x,bucket,end)','link_group':'link(x,first,last)','unlink':'unlink','unlink_undo':'unlink(x,undo) followed by undo()'}
for vn,un,cs in (('unique',True,hsh.UC),('non_unique',False,hsh.NC)):
    for k in cs:
        (HREH if k in('append','unlink_last','link_range','append_range','unlink_last_group','unlink_range','unlink_undo') else HNODE).append(
          add('hash/%s/%s'%(vn,k),'hashed_index_node_alg::%s, %s'%(HDESC.get(k,k),vn.replace('_',' ')),'hash.cpp',(lambda k,un:lambda eng: hsh.run(eng,k,un))(k,un),flags=('-DUNIQUE',) if un else (),
            parts=2 if not un and k in('unlink','unlink_range','link_range','link_group','unlink_last_group') else 1,cost=5 if un else 60).name)
# ---- hashed index: lookups, placement, buckets
from . import hidx
HIDX=[]
HXD={'find':'find(x,hash,eq)','find_k':'find(key)','count':'count(x,hash,eq)','count_k':'count(key)','contains':'contains(x,hash,eq)','equal_range':'equal_range(x,hash,eq)','equal_range_k':'equal_range(key)'}
for vn,un,cs in (('unique',True,hidx.CASES),('non_unique',False,hidx.NUCASES)):
    for k in cs:
        HIDX.append(add('hidx/%s/%s'%(vn,k),'hashed_index::%s, %s'%(HXD.get(k,k),vn.replace('_',' ')),'hashidx.cpp',(lambda k,un:lambda eng: hidx.run(eng,k,un))(k,un),
            flags=('-fno-access-control',)+(('-DUNIQUE',) if un else ()),keep=hidx.KEEP,engkw=dict(hidx.ENGKW),cost=4 if un else 110 if k in('last_of_range','end_of_range') else 50 if k=='count' else 20).name)
# ---- random-access indices
from . import rnd
RND=[];RNDO=[]
for k in rnd.CASES:
    kind={'f':'random_access_index_node_impl::','a':'random_access_index_ptr_array::','o':'random_access_index_','i':'random_access_index::'}[k[0]]
    u=add('rnd/'+k,kind+k[2:].replace(':back',' (range, backwards)').replace(':fwd',' (range, forwards)'),'rnd.cpp',(lambda k:lambda eng: rnd.run(eng,k))(k),
        flags=('-fno-access-control',),keep=rnd.KEEP,engkw=dict(),cost={'o_merge':30,'f_gather_nulls':5}.get(k,9 if 'range' in k else 1))
    RND.append(u.name)
