"""Specification programs for vmoe.moe (analysed like the code, never run)."""
import jax
import jax.numpy as jnp


# slots of one expert are laid out (group, capacity) here; the check allows any order
def einsum_dispatch(w, data):
  out = jnp.einsum("GSEC,GS...->EGC...", w, data)
  return out.reshape(w.shape[2], -1, *data.shape[2:])


def einsum_combine(w, data, shape):
  y = data.reshape(w.shape[2], w.shape[0], w.shape[3], *data.shape[2:])
  return jnp.einsum("GSEC,EGC...->GS...", w, y)


def dense_dispatch(w, data):
  out = jnp.einsum("GSE,GS...->EGS...", jnp.ones_like(w), data)
  return out.reshape(w.shape[2], -1, *data.shape[2:])


def dense_combine(w, data):
  y = data.reshape(w.shape[2], w.shape[0], w.shape[1], *data.shape[2:])
  return jnp.einsum("GSE,EGS...->GS...", w, y)


def indices_dispatch(indices, num_experts, capacity, data):
  onehot_e = jax.nn.one_hot(indices[..., 0], num_experts)     # G S K E
  onehot_c = jax.nn.one_hot(indices[..., 1], capacity)        # G S K C
  out = jnp.einsum("GSKE,GSKC,GS...->EGC...", onehot_e, onehot_c, data)
  return out.reshape(num_experts, -1, *data.shape[2:])


def indices_combine(w, indices, num_experts, capacity, data):
  y = data.reshape(num_experts, w.shape[0], capacity, *data.shape[2:])
  y = jnp.swapaxes(y, 0, 1)                                   # G E C ...
  y = jax.vmap(lambda a, i: a[i[..., 0], i[..., 1]])(y, indices)
  valid = indices[..., 1] < capacity
  return jnp.einsum("GSK,GSK,GSK...->GS...", w, valid, y)


def indices_combine_e(w, indices, num_experts, capacity, data):
  y = data.reshape(num_experts, w.shape[0], capacity, *data.shape[2:])
  y = jnp.swapaxes(y, 0, 1)
  y = jax.vmap(lambda a, i: a[i[..., 0], i[..., 1]])(y, indices)
  valid = jnp.logical_and(indices[..., 0] < num_experts, indices[..., 1] < capacity)
  return jnp.einsum("GSK,GSK,GSK...->GS...", w, valid, y)


# ---- routing: position of item s in the buffer of the expert of its k-th choice
def position(gates, k, batch_priority):
  """(S, K, E): 1-based place in the queue of each expert, 0 where not chosen."""
  size, num_experts = gates.shape
  best, choice = jax.lax.top_k(gates, k)                      # S K
  order = jnp.argsort(-best[:, 0]) if batch_priority else jnp.arange(size)
  queue = choice[order]                                       # items by priority
  chosen = jax.nn.one_hot(queue.T.ravel(), num_experts)       # first all 1st choices, then all 2nd ...
  place = jnp.cumsum(chosen, axis=0) * chosen
  place = jnp.swapaxes(place.reshape(k, size, num_experts), 0, 1)
  if batch_priority:
    place = place[jnp.argsort(order)]
  return choice, place


def top_experts_dispatch(gates, k, capacity, batch_priority):
  _, place = position(gates, k, batch_priority)
  return jax.nn.one_hot(jnp.max(place - 1, axis=1), capacity)


def top_experts_indices(gates, k, batch_priority):
  choice, place = position(gates, k, batch_priority)
  return jnp.stack([choice, jnp.max(place - 1, axis=2)], axis=-1)


def top_items_dispatch(gates, capacity):
  _, item = jax.lax.top_k(gates.T, capacity)                  # E C
  return jax.nn.one_hot(item, gates.shape[0], axis=0)


def weighted(gates, dispatch):
  return jnp.einsum("SE,SEC->SEC", gates, dispatch)


def gate_of_choice(gates, indices):
  return jnp.take_along_axis(gates, indices[..., 0], axis=1)
