"""Programs that use the preprocessing operations, and what the result has to be (analysed like the code, never run)."""
import tensorflow as tf
from flax import traverse_util
from vmoe.data import pp_ops


# ---- uses
def use_central_crop(a, data, kw): return pp_ops.central_crop(a, **kw)(data)
def use_copy(a, b, data): return pp_ops.copy(a, b)(data)
def use_decode(a, data, kw): return pp_ops.decode(a, **kw)(data)
def use_decode_jpeg_and_inception_crop(a, b, c, data, kw): return pp_ops.decode_jpeg_and_inception_crop(a, b, c, **kw)(data)
def use_flatten(data): return pp_ops.flatten()(data)
def use_flip_lr(data, kw): return pp_ops.flip_lr(**kw)(data)
def use_ignore_no_labels(a, b, data): return pp_ops.ignore_no_labels(a, b)(data)
def use_ignore_no_labels0(data): return pp_ops.ignore_no_labels()(data)
def use_inception_crop(a, b, c, d, data, kw): return pp_ops.inception_crop(a, b, c, d, **kw)(data)
def use_keep(a, b, data): return pp_ops.keep(a, b)(data)
def use_onehot(a, b, c, d, data, kw): return pp_ops.onehot(a, b, c, d, **kw)(data)
def use_randaug(a, b, data, kw): return pp_ops.randaug(a, b, **kw)(data)
def use_resize(a, b, data, kw): return pp_ops.resize(a, b, **kw)(data)
def use_resize_small(a, data, kw): return pp_ops.resize_small(a, **kw)(data)
def use_reshape(a, data, kw): return pp_ops.reshape(a, **kw)(data)
def use_tokenize(a, b, c, d, e, f, data, kw): return pp_ops.tokenize(a, b, c, d, e, f, **kw)(data)
def use_value_range(a, b, c, d, e, data, kw): return pp_ops.value_range(a, b, c, d, e, **kw)(data)


# ---- defaults of the optional arguments
def default_decode(data): return pp_ops.decode()(data)
def default_decode_jpeg_and_inception_crop(data): return pp_ops.decode_jpeg_and_inception_crop()(data)
def default_inception_crop(a, data): return pp_ops.inception_crop(a)(data)
def default_onehot(a, data): return pp_ops.onehot(a)(data)
def default_resize(a, data): return pp_ops.resize(a)(data)
def default_value_range(a, b, data): return pp_ops.value_range(a, b)(data)


# ---- results
def central_crop(h, w, x):
  return tf.image.crop_to_bounding_box(x, (tf.shape(x)[0] - h) // 2, (tf.shape(x)[1] - w) // 2, h, w)


def decode(a, x):
  return tf.io.decode_image(x, channels=a, expand_animations=False)


def box(shape, b, c):
  return tf.image.sample_distorted_bounding_box(
      shape, tf.zeros([0, 0, 4], tf.float32), area_range=(b / 100, c / 100), min_object_covered=0, use_image_if_no_bounding_boxes=True)


def jpeg_crop(b, c, x):
  begin, size, _ = box(tf.image.extract_jpeg_shape(x), b, c)
  y0, x0, _ = tf.unstack(begin)
  h, w, _ = tf.unstack(size)
  return tf.image.decode_and_crop_jpeg(x, tf.stack([y0, x0, h, w]), channels=3)


def crop(b, c, x):
  begin, size, _ = box(tf.shape(x), b, c)
  return tf.slice(x, begin, size)


def resize(h, w, m, x):
  return tf.cast(tf.image.resize(x, (h, w), m), x.dtype)


def flip_lr(x):
  return tf.image.random_flip_left_right(x)


def multi_hot(a, c, d, x):
  y = tf.scatter_nd(x[:, None], tf.ones(tf.shape(x)[0]), (a,))
  return tf.clip_by_value(y, 0, 1) * (c - d) + d


def one_hot(a, c, d, x):
  return tf.one_hot(x, a, on_value=c, off_value=d)


def resize_small(a, x):
  h, w = tf.shape(x)[0], tf.shape(x)[1]
  r = tf.cast(a, tf.float32) / tf.cast(tf.minimum(h, w), tf.float32)
  h = tf.cast(tf.round(tf.cast(h, tf.float32) * r), tf.int32)
  w = tf.cast(tf.round(tf.cast(w, tf.float32) * r), tf.int32)
  return tf.compat.v1.image.resize_area(x[None], [h, w])[0]


def reshape(a, x):
  return tf.cast(tf.reshape(x, a), x.dtype)


def value_range(a, b, c, d, x):
  return a + (x - c) / (d - c) * (b - a)


def value_range_clip(a, b, c, d, x):
  return tf.clip_by_value(a + (x - c) / (d - c) * (b - a), a, b)


def valid(v, labels):
  return tf.math.logical_and(tf.cast(v, tf.bool), tf.size(labels) > 0)


def valid_key():
  return pp_ops.VALID_KEY
