"""Specification programs for mixup (analysed like the code, never run)."""
import jax
import jax.numpy as jnp


def mixed(x, key, concentration, size, devices, shape):
  y = x.reshape((devices, -1) + x.shape[1:])
  weights = -jnp.sort(-jax.random.dirichlet(key, jnp.full(shape, concentration)), axis=-1)
  def weight(i):
    w = weights[:, :, i]
    return w.reshape(w.shape + (1,) * (y.ndim - 2))
  out = sum(weight(i) * jnp.roll(y, -i, axis=1) for i in range(size))
  return out.reshape((-1,) + x.shape[1:])


def direct(x, key, concentration, shape, roll_axis):
  weights = -jnp.sort(-jax.random.dirichlet(key, jnp.full(shape, concentration)), axis=-1)
  n = len(shape) - 1
  def weight(i):
    w = weights[..., i]
    return w.reshape(w.shape + (1,) * (x.ndim - n))
  return sum(weight(i) * jnp.roll(x, -i, axis=roll_axis) for i in range(shape[-1]))
