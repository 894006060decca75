"""LLVM IR front end: reads a .ll/.bc file through the LLVM-C API into plain Python objects.
Nothing is interpreted here; GEP offsets are computed with the module's own data layout."""
import ctypes as C, glob, os

def _lib():
    for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'):
        if os.path.exists(p):
            return C.CDLL(p)
    raise RuntimeError('libLLVM-18 not found')
L = _lib()
V = C.c_void_p
def _d(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
ContextCreate=_d('LLVMContextCreate',V)
MemBuf=_d('LLVMCreateMemoryBufferWithContentsOfFile',C.c_int,C.c_char_p,C.POINTER(V),C.POINTER(C.c_char_p))
ParseIR=_d('LLVMParseIRInContext',C.c_int,V,V,C.POINTER(V),C.POINTER(C.c_char_p))
FirstF=_d('LLVMGetFirstFunction',V,V); NextF=_d('LLVMGetNextFunction',V,V)
FirstG=_d('LLVMGetFirstGlobal',V,V); NextG=_d('LLVMGetNextGlobal',V,V)
GetInit=_d('LLVMGetInitializer',V,V)
IsGConst=_d('LLVMIsGlobalConstant',C.c_int,V)
GetName=_d('LLVMGetValueName2',C.c_char_p,V,C.POINTER(C.c_size_t))
CountP=_d('LLVMCountParams',C.c_uint,V); GetParam=_d('LLVMGetParam',V,V,C.c_uint)
CountBB=_d('LLVMCountBasicBlocks',C.c_uint,V)
FirstBB=_d('LLVMGetFirstBasicBlock',V,V); NextBB=_d('LLVMGetNextBasicBlock',V,V)
BBName=_d('LLVMGetBasicBlockName',C.c_char_p,V)
FirstI=_d('LLVMGetFirstInstruction',V,V); NextI=_d('LLVMGetNextInstruction',V,V)
Opcode=_d('LLVMGetInstructionOpcode',C.c_int,V)
NumOps=_d('LLVMGetNumOperands',C.c_int,V); GetOp=_d('LLVMGetOperand',V,V,C.c_uint)
TypeOf=_d('LLVMTypeOf',V,V); TypeKind=_d('LLVMGetTypeKind',C.c_int,V)
IntW=_d('LLVMGetIntTypeWidth',C.c_uint,V)
ValKind=_d('LLVMGetValueKind',C.c_int,V)
ICmp=_d('LLVMGetICmpPredicate',C.c_int,V)
FCmp=_d('LLVMGetFCmpPredicate',C.c_int,V)
NumSucc=_d('LLVMGetNumSuccessors',C.c_uint,V); GetSucc=_d('LLVMGetSuccessor',V,V,C.c_uint)
IsCond=_d('LLVMIsConditional',C.c_int,V); GetCond=_d('LLVMGetCondition',V,V)
CountInc=_d('LLVMCountIncoming',C.c_uint,V); IncVal=_d('LLVMGetIncomingValue',V,V,C.c_uint); IncBB=_d('LLVMGetIncomingBlock',V,V,C.c_uint)
CalledVal=_d('LLVMGetCalledValue',V,V); NumArgs=_d('LLVMGetNumArgOperands',C.c_uint,V)
NormDest=_d('LLVMGetNormalDest',V,V); UnwDest=_d('LLVMGetUnwindDest',V,V)
GEPSrc=_d('LLVMGetGEPSourceElementType',V,V)
AllocaTy=_d('LLVMGetAllocatedType',V,V)
SExtV=_d('LLVMConstIntGetSExtValue',C.c_longlong,V); ZExtV=_d('LLVMConstIntGetZExtValue',C.c_ulonglong,V)
ConstOp=_d('LLVMGetConstOpcode',C.c_int,V)
DataLayout=_d('LLVMGetModuleDataLayout',V,V)
SizeOf=_d('LLVMABISizeOfType',C.c_ulonglong,V,V)
OffOf=_d('LLVMOffsetOfElement',C.c_ulonglong,V,V,C.c_uint)
StructN=_d('LLVMCountStructElementTypes',C.c_uint,V); StructE=_d('LLVMStructGetTypeAtIndex',V,V,C.c_uint)
ElemT=_d('LLVMGetElementType',V,V); ArrLen=_d('LLVMGetArrayLength',C.c_uint,V)
NumIdx=_d('LLVMGetNumIndices',C.c_uint,V); GetIdx=_d('LLVMGetIndices',C.POINTER(C.c_uint),V)
NumClauses=_d('LLVMGetNumClauses',C.c_uint,V); GetClause=_d('LLVMGetClause',V,V,C.c_uint); IsCleanup=_d('LLVMIsCleanup',C.c_int,V)
DbgLine=_d('LLVMGetDebugLocLine',C.c_uint,V)
DbgFile=_d('LLVMGetDebugLocFilename',C.c_char_p,V,C.POINTER(C.c_uint))
PrintV=_d('LLVMPrintValueToString',C.c_void_p,V)
GlobalValTy=_d('LLVMGlobalGetValueType',V,V)
ArrElt=getattr(L,'LLVMGetAggregateElement'); ArrElt.restype=V; ArrElt.argtypes=[V,C.c_uint]

OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',53:'extractvalue',54:'insertvalue',58:'resume',59:'landingpad',66:'fneg',68:'freeze'}
PRED={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
TK={0:'void',2:'float',3:'double',8:'int',10:'struct',11:'array',12:'ptr',13:'vector',7:'label',16:'metadata',4:'x86_fp80',9:'func',18:'token'}

class Ty:
    __slots__=('k','w','ref','elts','size','n','offs')
    def __repr__(s): return s.k+(str(s.w) if s.k=='int' else '')
class Val: pass
class Arg(Val):
    def __init__(s,i,ty): s.i=i; s.ty=ty
    def __repr__(s): return '%%arg%d'%s.i
class Const(Val):
    def __init__(s,kind,ty,v=None,ops=None): s.kind=kind; s.ty=ty; s.v=v; s.ops=ops
    def __repr__(s): return 'const(%s,%s)'%(s.kind,s.v)
class Instr(Val):
    def __repr__(s): return '%%%d=%s'%(s.id,s.op)
class Block:
    def __repr__(s): return 'bb%d'%s.id
class Func: pass

class Module:
    def __init__(self,path):
        ctx=ContextCreate(); buf=V(); err=C.c_char_p()
        if MemBuf(path.encode(),C.byref(buf),C.byref(err)): raise RuntimeError('cannot read '+path)
        m=V(); err=C.c_char_p()
        if ParseIR(ctx,buf,C.byref(m),C.byref(err)): raise RuntimeError('IR parse: %s'%err.value)
        self.m=m; self.dl=DataLayout(m); self.tys={}; self.funcs={}; self.globals={}
        g=FirstG(m)
        while g:
            self.globals[self.nm(g)]=g; g=NextG(g)
        fs=[]; f=FirstF(m)
        while f:
            fs.append(f); f=NextF(f)
        self.decls=set()
        self._raw={}
        for f in fs:
            n=self.nm(f)
            if CountBB(f)==0: self.decls.add(n)
            else: self._raw[n]=f
    def nm(self,v):
        n=C.c_size_t(); s=GetName(v,C.byref(n)); return s[:n.value].decode()
    def ty(self,t):
        if t in self.tys: return self.tys[t]
        x=Ty(); x.k=TK.get(TypeKind(t),'?%d'%TypeKind(t)); x.w=None; x.ref=t; x.elts=None; x.n=None; x.offs=None; x.size=None
        self.tys[t]=x
        if x.k=='int': x.w=IntW(t); x.size=SizeOf(self.dl,t)
        elif x.k in('ptr','double','float'): x.size=SizeOf(self.dl,t)
        elif x.k=='struct':
            try: n=StructN(t)
            except Exception: n=0
            x.elts=[self.ty(StructE(t,i)) for i in range(n)]
            x.offs=[OffOf(self.dl,t,i) for i in range(n)]
            x.size=SizeOf(self.dl,t)
        elif x.k=='array':
            x.elts=[self.ty(ElemT(t))]; x.n=ArrLen(t); x.size=SizeOf(self.dl,t)
        return x
    def func(self,name):
        if name in self.funcs: return self.funcs[name]
        f=self._raw[name]; F=Func(); F.name=name; F.args=[]; F.blocks=[]
        self.funcs[name]=F; vm={}
        for i in range(CountP(f)):
            a=GetParam(f,i); A=Arg(i,self.ty(TypeOf(a))); vm[a]=A; F.args.append(A)
        bm={}; b=FirstBB(f)
        bl=[]
        while b:
            B=Block(); B.id=len(bl); B.ins=[]; B.name=BBName(b).decode(); bm[b]=B; bl.append((b,B)); b=NextBB(b)
        F.blocks=[B for _,B in bl]; n=0; todo=[]
        for b,B in bl:
            i=FirstI(b)
            while i:
                I=Instr(); I.id=n; n+=1; I.op=OPC.get(Opcode(i),'?%d'%Opcode(i)); I.ty=self.ty(TypeOf(i)); I.raw=i; I.bb=B
                I.line=DbgLine(i) if True else 0
                if I.line:
                    l=C.c_uint(); s=DbgFile(i,C.byref(l)); I.file=os.path.basename(s[:l.value].decode()) if s else ''
                else: I.file=''
                vm[i]=I; B.ins.append(I); todo.append((i,I)); i=NextI(i)
        def val(v):
            if v in vm: return vm[v]
            return self.const(v)
        for i,I in todo:
            op=I.op
            if op=='phi':
                I.inc=[(val(IncVal(i,k)),bm[IncBB(i,k)]) for k in range(CountInc(i))]; I.ops=[]
            elif op=='br':
                I.succ=[bm[GetSucc(i,k)] for k in range(NumSucc(i))]
                I.ops=[val(GetCond(i))] if IsCond(i) else []
            elif op=='switch':
                I.succ=[bm[GetSucc(i,k)] for k in range(NumSucc(i))]
                ops=[GetOp(i,k) for k in range(NumOps(i))]
                I.ops=[val(ops[0])]; I.cases=[val(ops[k]) for k in range(2,len(ops),2)]
            elif op in('call','invoke'):
                na=NumArgs(i); I.ops=[val(GetOp(i,k)) if TK.get(TypeKind(TypeOf(GetOp(i,k))))!='metadata' else None for k in range(na)]
                cv=CalledVal(i); I.callee=val(cv)
                I.cname=I.callee.v if isinstance(I.callee,Const) and I.callee.kind=='func' else None
                if op=='invoke': I.succ=[bm[NormDest(i)],bm[UnwDest(i)]]
                else: I.succ=[]
            elif op=='gep':
                I.src=self.ty(GEPSrc(i)); I.ops=[val(GetOp(i,k)) for k in range(NumOps(i))]
            elif op=='landingpad':
                I.cleanup=bool(IsCleanup(i)); I.clauses=[self.const(GetClause(i,k)) for k in range(NumClauses(i))]; I.ops=[]
            elif op in('extractvalue','insertvalue'):
                nidx=NumIdx(i); p=GetIdx(i); I.idx=[p[k] for k in range(nidx)]; I.ops=[val(GetOp(i,k)) for k in range(NumOps(i))]
            else:
                I.ops=[val(GetOp(i,k)) for k in range(NumOps(i))]
                if op=='icmp': I.pred=PRED[ICmp(i)]
                if op=='fcmp': I.pred=FCmp(i)
                if op=='alloca': I.aty=self.ty(AllocaTy(i))
            if op in('ret','resume','unreachable'): I.succ=[]
        self.cfg(F); return F
    def const(self,v):
        t=self.ty(TypeOf(v)); k=ValKind(v)
        # LLVMValueKind: 5 Function,8 GlobalVariable(?),...
        if k==5: return Const('func',t,self.nm(v))
        nm={0:'arg',1:'bb',2:'memuse',5:'func',6:'alias',7:'ifunc',8:'global',9:'blockaddr',10:'expr',11:'array',12:'struct',13:'vector',14:'undef',15:'zero',16:'dataarray',17:'datavector',18:'int',19:'fp',20:'null',21:'tokennone',22:'md',23:'asm',24:'instr',25:'poison',26:'targetnone'}.get(k,'?%d'%k)
        if nm=='int': return Const('int',t,ZExtV(v) if t.w<=64 else None)
        if nm=='null': return Const('null',t)
        if nm in('undef','poison'): return Const('undef',t)
        if nm=='global': return Const('global',t,self.nm(v))
        if nm=='zero': return Const('zero',t)
        if nm=='expr':
            op=OPC.get(ConstOp(v)); ops=[self.const(GetOp(v,i)) for i in range(NumOps(v))]
            c=Const('expr',t,op,ops)
            if op=='gep': c.src=self.ty(GEPSrc(v))
            return c
        if nm in('struct','array'): return Const(nm,t,None,[self.const(GetOp(v,i)) for i in range(NumOps(v))])
        if nm=='dataarray': return Const(nm,t,v)
        if nm=='fp':
            ls=C.c_int(); f=L.LLVMConstRealGetDouble; f.restype=C.c_double; f.argtypes=[V,C.POINTER(C.c_int)]
            return Const('fp',t,f(v,C.byref(ls)))
        return Const(nm,t)
    def global_ints(self,name):
        """value of a constant global array of integers (e.g. a size table)"""
        g=self.globals[name]; ini=GetInit(g)
        if not ini: return None
        t=self.ty(TypeOf(ini))
        if t.k!='array' or t.elts[0].k!='int': return None
        return [ZExtV(ArrElt(ini,i)) for i in range(t.n)]
    def cfg(self,F):
        for B in F.blocks: B.preds=[]
        for B in F.blocks:
            B.succ=list(dict.fromkeys(B.ins[-1].succ))
            for s in B.succ: s.preds.append(B)
        # DFS back edges, rpo
        color={}; F.back=set(); order=[]
        stack=[(F.blocks[0],iter(F.blocks[0].succ))]; color[F.blocks[0]]=1
        while stack:
            b,it=stack[-1]
            for s in it:
                if s not in color:
                    color[s]=1; stack.append((s,iter(s.succ))); break
                if color[s]==1: F.back.add((b,s))
            else:
                color[b]=2; order.append(b); stack.pop()
        order.reverse(); F.rpo=order
        F.headers={}
        for (t,h) in F.back:
            body={h}; st=[t]
            while st:
                x=st.pop()
                if x in body: continue
                body.add(x); st.extend(x.preds)
            F.headers.setdefault(h,set()).update(body)
