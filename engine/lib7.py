"""JAX's own LOBPCG helpers, interpreted from the installed JAX source."""
import ast
import glob

from .interp import *          # noqa: F401,F403
from . import interp as I
from .lib import LIB, ext

PATHS = glob.glob('/opt/venv/lib/python3*/site-packages/jax/experimental/sparse/linalg.py')
NAMES = ('_check_inputs', '_mm', '_eigh_ascending', '_svqb', '_project_out', '_orthonormalize',
         '_rayleigh_ritz_orth', '_extend_basis', 'lobpcg_standard', '_lobpcg_standard_callable', '_lobpcg_standard_matrix')


def ref_module(it):
    m = it.modules.get('jax-reference')
    if m is None:
        if not PATHS:
            raise I.Unmodelled('the source of jax.experimental.sparse.linalg is not installed')
        m = I.ModuleV('jax-reference', PATHS[0])
        it.modules['jax-reference'] = m
        m.ns.update(jax=ext('jax'), jnp=ext('jax.numpy'), np=ext('numpy'), functools=ext('functools'),
                    Callable=ext('collections.abc.Callable'), __name__='jax-reference')
        env = I.Env(None, m.ns)
        env.vars = m.ns
        it.frames.append([m, '<module>', 0])
        h = it.hooks.pop('libcall', None)
        try:
            it.exec_block([s for s in ast.parse(open(PATHS[0], encoding='utf8').read()).body
                           if isinstance(s, ast.FunctionDef) and s.name in NAMES], env)
        finally:
            it.frames.pop()
            if h is not None:
                it.hooks['libcall'] = h
    return m


def jaxfun(n):
    def f(it, a, k):
        return it.call(ref_module(it).ns[n], a, k)
    b = I.Builtin(n, f)
    LIB['jax.experimental.sparse.linalg.' + n] = b


for _n in NAMES:
    jaxfun(_n)
