"""Specification programs: arrays of the vision transformer, the text tower and the contrastive model."""
import jax
import jax.numpy as jnp


def with_token(patches, cls):
  b, h, w, c = patches.shape
  flat = patches.reshape((b, h * w, c))
  return jnp.concatenate([jnp.tile(cls, (b, 1, 1)), flat], axis=1)


def without_token(patches):
  b, h, w, c = patches.shape
  return patches.reshape((b, h * w, c))


def first(x): return x[:, 0, :]
def last(x): return x[:, -1, :]
def gap(x): return jnp.mean(x, axis=1)
def gmp(x): return jnp.max(x, axis=1)


def sincos(h, w, q, temperature):
  """Position embedding [h * w, 4 * q]."""
  rows = jnp.reshape(jnp.broadcast_to(jnp.arange(h)[:, None], (h, w)), (h * w,))
  cols = jnp.reshape(jnp.broadcast_to(jnp.arange(w)[None, :], (h, w)), (h * w,))
  omega = 1. / (temperature ** (jnp.arange(q) / (q - 1)))
  x = cols[:, None] * omega[None, :]
  y = rows[:, None] * omega[None, :]
  return jnp.concatenate([jnp.sin(x), jnp.cos(x), jnp.sin(y), jnp.cos(y)], axis=1)


def embed_all(inputs, emb): return inputs + emb[None, :, :]
def embed_rest(inputs, emb): return jnp.concatenate([inputs[:, :1, :], inputs[:, 1:, :] + emb[None, :, :]], axis=1)


def unit(z): return z / (jnp.linalg.norm(z, axis=1, keepdims=True) + 1e-8)


def logits(zimg, ztxt, s): return jnp.exp(s) * jnp.einsum('md,nd->mn', zimg, ztxt)
def logits_bias(zimg, ztxt, s, b): return jnp.exp(s) * jnp.einsum('md,nd->mn', zimg, ztxt) + b


def sigmoid_loss(x):
  n = x.shape[-1]
  z = 2.0 * jnp.eye(n) - 1.0
  return -jnp.sum(jax.nn.log_sigmoid(z * x), axis=-1)


def head_first(x): return x[:, 0, :]
def probe(p, b): return jnp.tile(p, (b, 1, 1))
