import ast, random, sys, json, os, subprocess
REPO='/repo'
MAP={
'mplang/edsl/serde.py':'s01 s02 e05','mplang/edsl/typing.py':'e04 e05','mplang/edsl/tracer.py':'e01 e03 p02',
'mplang/edsl/graph.py':'e01 e05 r01','mplang/edsl/program.py':'e05','mplang/tool/program.py':'e05','mplang/edsl/primitive.py':'e01 e02 e03',
'mplang/edsl/context.py':'e01 c04 d01','mplang/edsl/registry.py':'e01 e02','mplang/runtime/interpreter.py':'e01 r01 c04 e03 p01 o01',
'mplang/runtime/object_store.py':'r02 r03','mplang/runtime/value.py':'s01 s02',
'mplang/backends/simp_worker/base.py':'c01 c02 c04','mplang/backends/simp_worker/collectives.py':'c02','mplang/backends/simp_worker/collective_algorithms.py':'c02',
'mplang/backends/simp_worker/comm_context.py':'c01 c04','mplang/backends/simp_worker/mem.py':'c01 c04','mplang/backends/simp_worker/ops.py':'p01 p02 c04',
'mplang/backends/simp_worker/http.py':'c03 c04 c01','mplang/backends/simp_worker/infra.py':'c01 c02 c04','mplang/backends/simp_driver/http.py':'c03 c04 p01','mplang/backends/simp_driver/mem.py':'p01 c04','mplang/backends/simp_driver/ops.py':'p01 p02 c03',
'mplang/dialects/simp.py':'p01 p02','mplang/dialects/tensor.py':'t01 t02 e02','mplang/backends/tensor_impl.py':'t01 t02 e02 b03','mplang/dialects/_jax_utils.py':'t01 t02 e02',
'mplang/dialects/table.py':'b01 b02 b03','mplang/backends/table_impl.py':'b01 b02 b03','mplang/dialects/crypto.py':'k01 k02','mplang/backends/crypto_impl.py':'k01 k02',
'mplang/dialects/phe.py':'k03','mplang/backends/phe_impl.py':'k03','mplang/dialects/bfv.py':'k04','mplang/backends/bfv_impl.py':'k04','mplang/dialects/tee.py':'k05','mplang/backends/tee_impl.py':'k05',
'mplang/dialects/field.py':'f01','mplang/backends/field_impl.py':'f01 f02','mplang/kernels/py_kernels.py':'f01 f02',
'mplang/libs/mpc/psi/rr22.py':'m01','mplang/libs/mpc/psi/cuckoo.py':'m01','mplang/libs/mpc/psi/oprf.py':'m01','mplang/libs/mpc/psi/unbalanced.py':'m01','mplang/libs/mpc/psi/okvs_gct.py':'f02 m01','mplang/libs/mpc/psi/okvs.py':'f02',
'mplang/libs/mpc/ot/base.py':'m02','mplang/libs/mpc/ot/extension.py':'m02','mplang/libs/mpc/ot/silent.py':'m03','mplang/libs/mpc/vole/gilboa.py':'m03','mplang/libs/mpc/vole/ldpc.py':'m03','mplang/libs/mpc/vole/silver.py':'m03',
'mplang/libs/mpc/analytics/aggregation.py':'m04','mplang/libs/mpc/analytics/groupby.py':'m04','mplang/libs/mpc/analytics/permutation.py':'m04','mplang/libs/ml/sgb.py':'m05',
'mplang/libs/device/api.py':'d01','mplang/libs/device/cluster.py':'d02','mplang/libs/collective.py':'p01 d01','mplang/dialects/spu.py':'d01','mplang/backends/spu_impl.py':'d01','mplang/backends/spu_state.py':'d01',
'mplang/extend/arrow/vector.py':'b01 b02 b03','mplang/extend/arrow/compute.py':'b01','mplang/backends/func_impl.py':'e01','mplang/dialects/func.py':'e01','mplang/dialects/dtypes.py':'t01 s01 b03','mplang/libs/mpc/_utils.py':'m02 m01',
'mplang/backends/channel.py':'d01','mplang/__init__.py':'e01 p01','mplang/utils/func_utils.py':'e03','mplang/cli.py':'d02 d03',
}
CMP={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.In:'not in',ast.NotIn:'in',ast.Is:'is not',ast.IsNot:'is'}
BIN={ast.Add:'-',ast.Sub:'+',ast.Mult:'//',ast.FloorDiv:'*',ast.Mod:'//',ast.BitAnd:'|',ast.BitOr:'&',ast.LShift:'>>',ast.RShift:'<<',ast.BitXor:'|',ast.Div:'*'}
def sites(path):
    src=open(os.path.join(REPO,path)).read(); tree=ast.parse(src)
    lines=src.split('\n'); offs=[0]
    for l in lines: offs.append(offs[-1]+len(l.encode())+1)
    b=src.encode()
    pos=lambda n:(offs[n.lineno-1]+n.col_offset, offs[n.end_lineno-1]+n.end_col_offset)
    seg=lambda n:b[slice(*pos(n))].decode()
    out=[]
    def rep(n,new,kind): s,e=pos(n); out.append((s,e,new,kind,n.lineno))
    def walk(n,infn):
        if isinstance(n,(ast.FunctionDef,ast.AsyncFunctionDef)):
            for d in n.args.defaults+[k for k in n.args.kw_defaults if k]: walk(d,infn)
            for s in n.body: walk(s,True)
            return
        if isinstance(n,ast.ClassDef):
            for s in n.body: walk(s,infn)
            return
        if isinstance(n,ast.Assert): return
        if isinstance(n,ast.Raise):
            if infn: rep(n,'pass','drop raise')
            return
        if isinstance(n,ast.AnnAssign):
            if n.value: walk(n.value,infn)
            return
        if isinstance(n,ast.Expr):
            if isinstance(n.value,ast.Constant): return
            s=seg(n)
            if s.startswith(('logg','self._log','print','warnings')): return
            if infn and isinstance(n.value,(ast.Call,ast.Await)): rep(n,'pass','drop call')
        if isinstance(n,ast.Call):
            f=seg(n.func)
            if f.startswith(('logg','cast','warnings','isinstance','getattr','hasattr')):
                if f in('isinstance','hasattr'): return
                for a in n.args: walk(a,infn)
                return
            if infn:
                for k in n.keywords:
                    if k.arg and len(n.keywords)>=1:
                        s,e=pos(k); 
                        # remove "k=v" plus following comma
                        e2=e
                        while e2<len(b) and b[e2:e2+1] in b' \n': e2+=1
                        if b[e2:e2+1]==b',': e2+=1
                        elif True:
                            s2=s
                            while b[s2-1:s2] in (b' ',b'\n'): s2-=1
                            if b[s2-1:s2]==b',': s=s2-1
                        out.append((s,e2,'','drop kw '+k.arg,n.lineno))
                if f=='sorted' and len(n.args)==1: rep(n,'list('+seg(n.args[0])+')','unsort')
                for i in range(len(n.args)-1):
                    x,y=n.args[i],n.args[i+1]
                    if isinstance(x,ast.Name) and isinstance(y,ast.Name) and x.id!=y.id and f not in('isinstance',):
                        s,_=pos(x);_,e=pos(y); mid=b[pos(x)[1]:pos(y)[0]].decode()
                        out.append((s,e,seg(y)+mid+seg(x),'swap args',n.lineno))
        if isinstance(n,ast.AugAssign) and infn: rep(n,'pass','drop aug')
        if isinstance(n,ast.Assign) and infn and isinstance(n.targets[0],(ast.Attribute,ast.Subscript)): rep(n,'pass','drop store')
        if isinstance(n,ast.Delete): rep(n,'pass','drop del')
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            o=type(n.ops[0])
            rep(n,f'({seg(n.left)} {CMP[o]} {seg(n.comparators[0])})','cmp')
        if isinstance(n,ast.BinOp) and type(n.op) in BIN and not isinstance(n.left,(ast.Constant,ast.JoinedStr)) :
            if not(isinstance(n.right,(ast.JoinedStr,)) or (isinstance(n.right,ast.Constant) and isinstance(n.right.value,str))):
                rep(n,f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})','bin')
        if isinstance(n,ast.BoolOp):
            op=' or ' if isinstance(n.op,ast.And) else ' and '
            rep(n,'('+op.join('('+seg(v)+')' for v in n.values)+')','boolop')
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): rep(n,'('+seg(n.operand)+')','drop not')
        if isinstance(n,ast.Constant) and infn:
            if isinstance(n.value,bool): rep(n,str(not n.value),'flip bool')
            elif isinstance(n.value,int): rep(n,str(n.value+1),'const+1')
        if isinstance(n,(ast.If,ast.IfExp)) and infn:
            rep(n.test,'True','if True'); rep(n.test,'False','if False')
        if isinstance(n,ast.Continue): rep(n,'break','cont->break')
        if isinstance(n,ast.Break): rep(n,'continue','break->cont') if False else None
        if isinstance(n,ast.JoinedStr): return
        for c in ast.iter_child_nodes(n):
            if isinstance(n,(ast.arg,)): continue
            walk(c,infn)
    walk(tree,False)
    return b,[o for o in out]
if __name__=='__main__':
    seed=int(sys.argv[1]); n=int(sys.argv[2]); only=sys.argv[3:] 
    rng=random.Random(seed); jobs=[]
    for p in MAP:
        if only and not any(o in p for o in only): continue
        if not os.path.exists(os.path.join(REPO,p)): print('missing',p,file=sys.stderr); continue
        b,ss=sites(p)
        for s in ss: jobs.append((p,s))
    print(len(jobs),'sites',file=sys.stderr)
    # weight: sqrt of file site count
    byf={}
    for p,s in jobs: byf.setdefault(p,[]).append(s)
    ws={p:len(v)**.6 for p,v in byf.items()}; tot=sum(ws.values())
    res=[]
    for p,v in byf.items():
        k=max(1,round(n*ws[p]/tot)); 
        for s in rng.sample(v,min(k,len(v))): res.append(dict(file=p,start=s[0],end=s[1],new=s[2],kind=s[3],line=s[4],checks=MAP[p].split()))
    rng.shuffle(res)
    for i,r in enumerate(res): r['id']=f'm{seed}_{i:03d}'; print(json.dumps(r))
