import sys,json,subprocess; sys.path.insert(0,'/verif')
from engine.api import *
from engine import interp as I, terms as T, lib as L
from engine.arr import *
CASES='''
jnp.linalg.norm(X,axis=1)**2
jnp.sqrt(V)**2
jnp.sum(X,axis=0)
jnp.sum(X,axis=(0,1),keepdims=True)
jnp.mean(X,axis=-1)
jnp.var(X,axis=1,ddof=1)
jnp.var(X)
jnp.std(X,axis=0)**2
jnp.prod(Y,axis=0)
jnp.cumsum(X,axis=1)
jnp.cumsum(X)
jnp.diff(X)
jnp.diff(X,axis=0)
jnp.ptp(Y)
jnp.max(Y,axis=0)
jnp.argmax(Y,axis=0)
jnp.argmin(X)
jnp.argsort(X,axis=1)
jnp.sort(X,axis=1)
jnp.sort(X)[:, ::-1]
jnp.flip(X,0)
jnp.fliplr(X)
jnp.concatenate([X,X],axis=0)
jnp.stack([X,X],axis=-1)
jnp.vstack([V,V])
jnp.hstack([X,X])
jnp.hstack([V,V])
jnp.column_stack([V,V])
jnp.split(V,3)[1]
jnp.split(V,[1])[1]
jnp.array_split(V,2)[0]
jnp.tile(V,2)
jnp.tile(X,(2,1))
jnp.repeat(V,2)
jnp.repeat(X,2,axis=0)
jnp.eye(3,k=1)
jnp.diag(V,k=1)
jnp.diag(S,k=-1)
jnp.diagonal(S,1)
jnp.trace(S)
jnp.tril(S)
jnp.triu(S,1)
jnp.where(X>1,X,0.)
jnp.clip(X,0,2)
jnp.take(X,jnp.array([0,2]),axis=1)
jnp.take(X,3)
jnp.take_along_axis(X,jnp.array([[0],[2]]),axis=1)
jnp.einsum('ij,jk->ik',X,Y)
jnp.einsum('ij,ij->i',X,X)
jnp.einsum('ii',S)
jnp.einsum('ii->i',S)
jnp.einsum('ij->ji',X)
jnp.tensordot(X,Y,1)
jnp.tensordot(X,X,([0,1],[0,1]))
jnp.kron(X,V)
jnp.outer(V,V)
jnp.inner(X,V)
jnp.vdot(V,V)
jnp.dot(X,Y)
X@Y
V@Y
jnp.linspace(0,1,5)
jnp.linspace(0,1,4,endpoint=False)
jnp.logspace(0,2,3)
jnp.geomspace(1,100,3)
jnp.arange(1,7,2)
jnp.expand_dims(X,-1)
jnp.moveaxis(X[None],0,2)
jnp.swapaxes(X[None],0,2)
jnp.transpose(X[None],(2,0,1))
jnp.searchsorted(V,jnp.array([1.,3.,9.]))
jnp.searchsorted(V,jnp.array([1.,3.,9.]),side='right')
jnp.digitize(jnp.array([1.,3.,9.]),V)
jnp.cov(X)
jnp.cov(X,rowvar=False)
jnp.cov(X,rowvar=False,bias=True)
jnp.average(X,axis=1,weights=V)
jnp.bincount(jnp.array([0,1,1]),length=3)
jnp.bincount(jnp.array([0,1,1]),weights=V,length=3)
jnp.floor(X/2)
jnp.ceil(X/2)
jnp.sign(X)
jnp.abs(X)
X//2
X%2
-X%3
jnp.maximum(X,1)
jnp.fmin(X,1)
jnp.logical_and(X>0,X<3)
jnp.logical_not(X>0)
jnp.any(X>4,axis=1)
jnp.all(X>-5)
jnp.allclose(X,X)
jnp.array_equal(X,X)
jnp.full((2,),4)
jnp.full_like(X,2)
jnp.heaviside(X,0.5)
jnp.median(V)
jnp.broadcast_to(V,(2,3))
jnp.squeeze(X[None])
jnp.reshape(X,(3,-1))
X.reshape(-1)
X.ravel(order='F')
X.T
X[1]
X[:,1:]
X[...,None]
X[-1,-1]
X[::-1]
X[jnp.array([1,0])]
X[jnp.array([0,1]),jnp.array([2,0])]
X[:,jnp.array([[0,1],[1,2]])]
X[None,:,0]
X.at[0].set(9.)
X.at[:,1].add(1.)
X.at[jnp.array([0,0]),jnp.array([1,1])].add(1.)
X.at[0,1].multiply(3.)
X.at[0].min(0.5)
jnp.meshgrid(V,jnp.arange(2))[0]
jnp.meshgrid(V,jnp.arange(2),indexing='ij')[1]
jnp.linalg.inv(jnp.diag(V))
jnp.linalg.det(jnp.diag(V))
jnp.linalg.solve(jnp.diag(V),V)
jax.nn.one_hot(jnp.array([0,2]),3)
jax.nn.relu(X)
jax.lax.top_k(V,2)[0]
jax.lax.top_k(V,2)[1]
jax.lax.cond(True,lambda x:x,lambda x:-x,X)
jax.lax.switch(1,[lambda x:x,lambda x:-x],X)
jax.lax.fori_loop(0,3,lambda i,c:c+i,X)
jax.lax.while_loop(lambda c:c[1]<3,lambda c:(c[0]*2,c[1]+1),(X,0))[0]
jax.lax.scan(lambda c,x:(c+x,c*x),V[:2]*0,X.T)[1]
jax.lax.scan(lambda c,x:(c+x,c*x),V[:2]*0,X.T,reverse=True)[0]
jax.lax.map(lambda r:r.sum(),X)
jax.lax.map(lambda r:r.sum(),Y,batch_size=2)
jax.vmap(lambda x,y:x*y,in_axes=(0,None))(X,V)
jax.vmap(lambda x:x*2,in_axes=1,out_axes=1)(X)
jax.vmap(lambda x,y:x@y,in_axes=(1,0))(X,Y.T[:,:2].T)
jax.grad(lambda x:jnp.sum(x**3))(X)
jax.jacrev(lambda x:x**2)(V)
jax.jacfwd(lambda x:x@Y)(V)
jax.hessian(lambda x:jnp.sum(x)**3)(V)
jax.jvp(lambda x:x**2,(V,),(V,))[1]
jax.vjp(lambda x:x@Y,V)[1](jnp.ones(2))[0]
jax.linearize(lambda x:x**2,V)[1](V)
jax.value_and_grad(lambda x:jnp.sum(x**2))(V)[1]
jax.tree.map(lambda x,y:x+y,[X],[X])[0]
jax.flatten_util.ravel_pytree({'b':X,'a':V})[0]
jax.ops.segment_sum(V,jnp.array([0,1,1]),2)
jnp.float_power(V,2)
jnp.power(X,2)
2**V
jnp.histogram(V,bins=jnp.array([1.,2.5,6.]))[0]
jnp.nanmean(V)
jnp.unique(jnp.array([3,1,3]),size=2)
jnp.identity(3)
jnp.round(X/2)
jnp.divmod(X,2)[0]
jnp.nan_to_num(X)
jnp.dot(S,V)
jnp.ravel(X)
X.mean(0)
X.var(0)
X.astype(int).sum()
X.min(axis=1,keepdims=True)
X.flatten()[2]
X.item if False else X.size
jnp.shape(X)[1]*V
jnp.linalg.multi_dot([X,Y,Y.T])
jnp.linalg.slogdet(jnp.diag(V))[0]
jnp.interp if False else V
jnp.nansum(X,axis=0)
jnp.minimum(X,V)
jnp.square(X)
jnp.reciprocal(V)
jnp.asarray([1,2])/2
jnp.array([1,2])//2
jnp.concat([X,X],axis=1)
jnp.permute_dims(X,(1,0))
jnp.exp2(jnp.log2(V))
jnp.sqrt(X*X)
'''.strip().splitlines()
src='import jax, jax.flatten_util, jax.numpy as jnp\nX=jnp.array([[0.,1.,2.],[3.,-4.,5.]])\nY=jnp.array([[1.,2.],[3.,4.],[5.,7.]])\nV=jnp.array([2.,3.,5.])\nS=jnp.array([[1.,2.,3.],[2.,5.,6.],[3.,6.,9.]])\n'
real=subprocess.run(['/opt/venv/bin/python','-c',src+'import json,numpy as np\nout=[]\nfor c in %r:\n  try: r=eval(c); out.append([list(r.shape),np.asarray(r,dtype=float).ravel().tolist()])\n  except Exception as e: out.append(str(e)[:200])\nprint(json.dumps(out))'%CASES],capture_output=True,text=True,env={'JAX_PLATFORMS':'cpu'})
real=json.loads(real.stdout.strip().splitlines()[-1])
import ast
from engine import randeval
from props import base
def run(c):
    def body(it):
        m=I.ModuleV('t','t.py'); m.ns.update(__name__='t')
        it.modules['t']=m
        env=I.Env(None,m.ns); env.vars=m.ns
        it.frames.append([m,'<module>',0])
        try: it.exec_block(ast.parse(src+'R='+c).body,env)
        finally: it.frames.pop()
        return m.ns['R']
    import itertools
    it=I.Interp(ORACLE()) if False else mk()
    r=asarr(body(it))
    sh=[toint(d) for d in r.shape]
    return sh,[const_val(r.at(*[const(i) for i in ix])) for ix in itertools.product(*[range(n) for n in sh])]
def mk():
    return base.new_interp() if hasattr(base,'new_interp') else I.Interp('/repo')
for c,r in zip(CASES,real):
    try: g=run(c)
    except Exception as e: print('ERR',c,type(e).__name__,e,'| real',str(r)[:100]); continue
    if isinstance(r,str): print('REALERR',c,r); continue
    ok=g[0]==r[0] and len(g[1])==len(r[1]) and all(a is not None and abs(float(a)-b)<1e-5 for a,b in zip(g[1],r[1]))
    print('ok ' if ok else 'BAD',c,'' if ok else (g,r))
