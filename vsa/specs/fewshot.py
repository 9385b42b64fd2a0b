"""Specification programs for the few-shot evaluation (analysed like the code, never run)."""
import jax
import jax.numpy as jnp


def mean(x):
  return jnp.mean(x, axis=0, keepdims=True)


def whitened(x, mean, std):
  return (x - mean) / std


def targets(y, num_classes):
  return 2.0 * jax.nn.one_hot(y, num_classes) - 1.0


def gram(x):
  return jnp.einsum("ni,nj->ij", x, x)


def outer(x):
  return jnp.einsum("ni,mi->nm", x, x)


def weights(lhs, s, rhs):
  return jnp.einsum("ie,e,ec->ic", lhs, s, rhs)


def primal(x, q, s, y):
  return jnp.einsum("ie,e,je,nj,nc->ic", q, s, q, x, y)


def dual(x, q, s, y):
  return jnp.einsum("ni,ne,e,me,mc->ic", x, q, s, q, y)


def scores(x, lhs, s, rhs):
  return jnp.einsum("ti,ie,e,ec->tc", x, lhs, s, rhs)


def scale(eigs, l2_reg):
  return 1.0 / (eigs + l2_reg)
