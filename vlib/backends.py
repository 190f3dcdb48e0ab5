"""The array backends that stheno supports, behind one small interface.

`grad(f, args)` gives the gradients of the scalar-valued function `f` with respect to all
of its arguments, which are arrays of the backend.
"""

import numpy as np


class Torch:
    name = "torch"

    def __init__(self):
        import stheno.torch  # noqa: F401
        import torch

        torch.set_num_threads(1)
        self.torch = torch

    def arr(self, x):
        return self.torch.tensor(np.array(x, dtype=float), dtype=self.torch.float64)

    def is_mine(self, x):
        return isinstance(x, self.torch.Tensor)

    def grad(self, f, args):
        args = [a.clone().requires_grad_(True) for a in args]
        out = f(*args)
        if not out.requires_grad:
            return [np.zeros(tuple(a.shape)) for a in args]
        gs = self.torch.autograd.grad(out, args, allow_unused=True)
        return [
            np.zeros(tuple(a.shape)) if g is None else g.numpy() for g, a in zip(gs, args)
        ]


class TensorFlow:
    name = "tensorflow"

    def __init__(self):
        import stheno.tensorflow  # noqa: F401
        import tensorflow as tf

        try:
            tf.config.threading.set_intra_op_parallelism_threads(1)
            tf.config.threading.set_inter_op_parallelism_threads(1)
        except RuntimeError:
            pass
        self.tf = tf

    def arr(self, x):
        return self.tf.constant(np.array(x, dtype=float), dtype=self.tf.float64)

    def is_mine(self, x):
        return self.tf.is_tensor(x)

    def grad(self, f, args):
        with self.tf.GradientTape() as t:
            for a in args:
                t.watch(a)
            out = f(*args)
        gs = t.gradient(out, args)
        return [
            np.zeros(tuple(a.shape)) if g is None else self.tf.convert_to_tensor(g).numpy()
            for g, a in zip(gs, args)
        ]


class JAX:
    name = "jax"

    def __init__(self):
        import jax
        import stheno.jax  # noqa: F401

        jax.config.update("jax_enable_x64", True)
        self.jax = jax

    def arr(self, x):
        return self.jax.numpy.array(np.array(x, dtype=float))

    def is_mine(self, x):
        return isinstance(x, self.jax.Array)

    def grad(self, f, args):
        gs = self.jax.grad(f, argnums=tuple(range(len(args))))(*args)
        return [np.array(g) for g in gs]


class AutoGrad:
    name = "autograd"

    def __init__(self):
        import autograd
        import stheno.autograd  # noqa: F401

        self.ag = autograd

    def arr(self, x):
        return np.array(x, dtype=float)

    def is_mine(self, x):
        return isinstance(x, (np.ndarray, np.generic))

    def grad(self, f, args):
        return [np.array(self.ag.grad(f, i)(*args)) for i in range(len(args))]


_CLASSES = {c.name: c for c in (Torch, TensorFlow, JAX, AutoGrad)}
_CACHE = {}


def get(name):
    if name not in _CACHE:
        _CACHE[name] = _CLASSES[name]()
    return _CACHE[name]
