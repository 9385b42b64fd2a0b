"""Specification programs for the routers (analysed like the code, never run)."""
import jax
import jax.numpy as jnp


def gates(logits):
  return jax.nn.softmax(logits, axis=-1)


def noisy(logits, noise, noise_std, num_experts):
  return logits + noise * (noise_std / num_experts)


def importance_loss(gates):
  """Squared coefficient of variation of the total gate of each expert, per group."""
  imp = gates.sum(axis=1)
  return jnp.var(imp, axis=-1) / jnp.mean(imp, axis=-1)**2


def gshard_loss(gates):
  """E^2 * mean over experts of (fraction of items with this first choice * mean gate), per group."""
  num_experts = gates.shape[2]
  first = jax.nn.one_hot(jnp.argmax(gates, axis=2), num_experts)
  return num_experts**2 * jnp.mean(first.mean(axis=1) * gates.mean(axis=1), axis=-1)


def load_loss(logits, noisy, k, std):
  """Squared coefficient of variation of the mean probability of being among the top k, per group."""
  threshold = jax.lax.top_k(noisy, k)[0][..., -1:]
  p = 1. - jax.scipy.stats.norm.cdf((threshold - logits) / std)
  p = p.mean(axis=1)
  return (jnp.std(p, axis=-1) / jnp.mean(p, axis=-1))**2


# ---- soft router
def unit(x, axis):
  return x / jnp.sqrt(jnp.square(x).sum(axis=axis, keepdims=True) + 1e-6)


def soft_dispatch(logits):
  return jax.nn.softmax(logits, axis=1)


def soft_combine(logits):
  return jax.nn.softmax(logits, axis=(2, 3))


def replaced_combine(dispatch, gates):
  return dispatch * gates[..., None]


# ---- ensembles
def to_groups(x, group_size, ensemble_size):
  """(B*M, T, H) repeated images -> groups in which the members of one token are adjacent."""
  n, tokens, hidden = x.shape
  x = x.reshape(n // ensemble_size, ensemble_size, tokens, hidden)
  x = jnp.swapaxes(x, 1, 2)
  return x.reshape(-1, group_size, hidden)


def from_groups(x, tokens, ensemble_size):
  hidden = x.shape[-1]
  x = x.reshape(-1, tokens, ensemble_size, hidden)
  x = jnp.swapaxes(x, 1, 2)
  return x.reshape(-1, tokens, hidden)


def member_gates(per_member, num_groups, group_size, num_experts, ensemble_size):
  """per_member (G, M, S/M, E/M): item (s, m) only sees the experts of member m."""
  n, e = group_size // ensemble_size, num_experts // ensemble_size
  own = jnp.eye(ensemble_size)
  full = jnp.einsum("gmse,mn->gsmne", per_member, own)
  return full.reshape(num_groups, group_size, num_experts)


def log_mean(log_p, ensemble_size):
  """(B, M, C) member log probabilities -> (B, C) log of the mean probability."""
  return jax.nn.logsumexp(log_p, axis=1) - jnp.log(ensemble_size)


def noisy_logits(logits, key, noise_std, num_experts):
  return logits + (noise_std / num_experts) * jax.random.normal(key, logits.shape)


def noisy_gates(logits, key, noise_std, num_experts):
  return jax.nn.softmax(noisy_logits(logits, key, noise_std, num_experts), axis=-1)


def mean_log_prob(logits, members, kind):
  """Repeated rows (image, member) -> log of the mean over members of the probability of each class."""
  rows, classes = logits.shape
  x = logits.reshape(rows // members, members, classes)
  p = jax.nn.log_softmax(x, axis=-1) if kind == 'softmax' else jax.nn.log_sigmoid(x)
  return jax.nn.logsumexp(p, axis=1) - jnp.log(members)


def softmax_train(logits, labels, members):
  """Row b * M + m holds the logits of member m for image b."""
  rows, classes = logits.shape
  lp = jax.nn.log_softmax(logits, axis=-1).reshape(rows // members, members, classes)
  return -jnp.sum(lp * labels[:, None, :], axis=-1).reshape(-1)


def sigmoid_train(logits, labels, members):
  rows, classes = logits.shape
  x = logits.reshape(rows // members, members, classes)
  y = labels[:, None, :]
  l = -(y * jax.nn.log_sigmoid(x) + (1. - y) * jax.nn.log_sigmoid(-x))
  return jnp.sum(l, axis=-1).reshape(-1)


def softmax_eval(logits, labels, members):
  return -jnp.sum(labels * mean_log_prob(logits, members, 'softmax'), axis=-1)


def sigmoid_eval(logits, labels, members):
  return -jnp.sum(labels * mean_log_prob(logits, members, 'sigmoid') + (1. - labels) * mean_log_prob(-logits, members, 'sigmoid'), axis=-1)


def pred(logits, members, kind):
  return jnp.argmax(mean_log_prob(logits, members, kind), axis=-1)


def split_members(inputs, members):
  """Tokens of a group are ordered (token, member)."""
  g, s, h = inputs.shape
  return inputs.reshape(g, s // members, members, h)


def block_diagonal(per_member, members):
  """per_member (G, M, N, E'): item (n, m) sees only the experts of member m; the items keep their order."""
  g, m, n, e = per_member.shape
  full = per_member[:, :, :, None, :] * jnp.eye(members)[None, :, None, :, None]
  return jnp.swapaxes(full, 1, 2).reshape(g, n * m, m * e)


def soft_logits(inputs, mu, scale, eps):
  """scale * <unit input, unit slot>."""
  x = inputs / jnp.sqrt((inputs * inputs).sum(axis=-1, keepdims=True) + eps)
  y = mu / jnp.sqrt((mu * mu).sum(axis=0, keepdims=True) + eps)
  return scale * jnp.einsum('gmd,dnp->gmnp', x, y)


def soft_noisy(logits, key, std):
  return logits + std * jax.random.normal(key, logits.shape)


def replaced(on, gates):
  """The gates of the dispatched (item, expert) pairs, at the position of the item in the buffer of the expert."""
  return on * gates[..., None]
