"""Specification programs for adversarial attacks (analysed like the code, never run)."""
import jax
import jax.numpy as jnp


def masked(a, valid):
  return jnp.einsum("b...,b->b...", a, valid)


def unmasked(a, valid):
  return a


def total2(a, b, valid):
  return jnp.stack([jnp.sum(a * valid), jnp.sum(b * valid)], axis=0)


def total2_all(a, b, valid):
  return jnp.stack([jnp.sum(a), jnp.sum(b)], axis=0)


def changes(y_0, y_m, valid):
  return jnp.sum(y_m * valid != y_0 * valid)


def changes2(y_0, y_m, valid):
  return jnp.sum((y_m != y_0) * valid)


def changes_all(y_0, y_m, valid):
  return jnp.sum(y_m != y_0)


def count(x, valid):
  return jnp.sum(valid)


def count_all(x, valid):
  return x.shape[0]


def iou(a, b):
  a = (a > 0.0).astype(jnp.float32)
  b = (b > 0.0).astype(jnp.float32)
  both = jnp.sum(a * b, axis=-1)
  either = jnp.sum(a + b, axis=-1) - both
  return jnp.sum(jnp.where(either > 0, both / either, 0)) / a.shape[1]


def correct(logits, y):
  return jnp.sum(jax.nn.one_hot(jnp.argmax(logits, axis=-1), logits.shape[-1]) * y, axis=-1)


def predicted(logits):
  return jnp.argmax(logits, axis=-1)


def selected_einsum(w):
  return jnp.sum(w, axis=3).reshape(-1, w.shape[2])


def selected_indices(w, indices, num_experts):
  s = jnp.einsum("gsk,gske->gse", w, jax.nn.one_hot(indices[..., 0], num_experts))
  return s.reshape(-1, num_experts)


def per_image(m, batch_size):
  return m.reshape(batch_size, -1, m.shape[1])
