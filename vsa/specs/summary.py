"""Specification programs for array summaries (analysed like the code, never run)."""
import jax.numpy as jnp


def all_mean(x): return jnp.mean(x, axis=None, keepdims=True)
def all_std(x): return jnp.std(x, axis=None, keepdims=True)
def all_sum(x): return jnp.sum(x, axis=None, keepdims=True)
def all_min(x): return jnp.min(x, axis=None, keepdims=True)
def all_max(x): return jnp.max(x, axis=None, keepdims=True)
def all_norm(x): return jnp.sqrt(jnp.sum(x * x, axis=None, keepdims=True))


def one_mean(x): return jnp.mean(x, axis=(1,), keepdims=True)
def one_std(x): return jnp.std(x, axis=(1,), keepdims=True)
def one_sum(x): return jnp.sum(x, axis=(1,), keepdims=True)
def one_min(x): return jnp.min(x, axis=(1,), keepdims=True)
def one_max(x): return jnp.max(x, axis=(1,), keepdims=True)
def one_norm(x): return jnp.sqrt(jnp.sum(x * x, axis=(1,), keepdims=True))


def min_then_max(x): return jnp.max(jnp.min(x, axis=(0,), keepdims=True), axis=None, keepdims=True)
