F = 'vmoe/data/pp_ops.py'
FIRE = [
    ('pp-key', 'C36', F, "        data[key or outkey] = orig_pp_fn(data[key or inkey])\n", "        data[key or inkey] = orig_pp_fn(data[key or inkey])\n"),
    ('pp-key2', 'C36', F, "        data[key or outkey] = orig_pp_fn(data[key or inkey])\n", "        data[outkey or key] = orig_pp_fn(data[key or inkey])\n"),
    ('pp-key3', 'C36', F, "        data[key or outkey] = orig_pp_fn(data[key or inkey])\n        return data\n", "        return {key or outkey: orig_pp_fn(data[key or inkey])}\n"),
    ('pp-key4', 'C36', F, "        data[key or outkey] = orig_pp_fn(data[key or inkey])\n", "        data[key or outkey] = orig_pp_fn(data.pop(key or inkey))\n"),
    ('pp-key5', 'C36', F, "@InKeyOutKey(indefault='labels', outdefault='labels')", "@InKeyOutKey(indefault='labels')"),
    ('pp-key6', 'C36', F, "    self.outdefault = outdefault\n", "    self.outdefault = indefault\n    self.indefault = outdefault\n", "@InKeyOutKey(indefault='text', outdefault='text')", "@InKeyOutKey(indefault='text', outdefault='texts')"),
    ('pp-cc', 'C36', F, "    dx = (tf.shape(image)[1] - w) // 2\n", "    dx = (tf.shape(image)[1] - h) // 2\n"),
    ('pp-cc2', 'C36', F, "    dy = (tf.shape(image)[0] - h) // 2\n", "    dy = (tf.shape(image)[0] - h + 1) // 2\n"),
    ('pp-cc3', 'C36', F, "crop_to_bounding_box(image, dy, dx, h, w)", "crop_to_bounding_box(image, dx, dy, h, w)"),
    ('pp-cc4', 'C36', F, "    h, w = crop_size[0], crop_size[1]\n", "    w, h = crop_size[0], crop_size[1]\n"),
    ('pp-copy', 'C36', F, "    data[outkey] = data[inkey]\n", "    data[outkey] = data.pop(inkey)\n"),
    ('pp-area', 'C36', F, "        area_range=(area_min / 100, area_max / 100),\n        min_object_covered=0,  # Don't enforce a minimum area.\n        use_image_if_no_bounding_boxes=True)\n    crop", "        area_range=(area_min / 100, 1.0),\n        min_object_covered=0,  # Don't enforce a minimum area.\n        use_image_if_no_bounding_boxes=True)\n    crop"),
    ('pp-area2', 'C36', F, "area_range=(area_min / 100, area_max / 100)", "area_range=(area_max / 100, area_min / 100)"),
    ('pp-win', 'C36', F, "tf.stack([offset_y, offset_x, target_height, target_width])", "tf.stack([offset_y, offset_x, target_width, target_height])"),
    ('pp-win2', 'C36', F, "    target_height, target_width, _ = tf.unstack(size)\n", "    target_height, target_width, _ = tf.unstack(size - begin)\n"),
    ('pp-2draws', 'C36', F, "    crop = tf.slice(image, begin, size)\n", "    _, size, _ = tf.image.sample_distorted_bounding_box(\n        tf.shape(image),\n        tf.zeros([0, 0, 4], tf.float32),\n        area_range=(area_min / 100, area_max / 100),\n        min_object_covered=0,\n        use_image_if_no_bounding_boxes=True)\n    crop = tf.slice(image, begin, size)\n"),
    ('pp-resm', 'C36', F, "resize(resize_size, resize_method)({'image': crop})", "resize(resize_size)({'image': crop})"),
    ('pp-resbefore', 'C36', F, "      crop = resize(resize_size, resize_method)({'image': crop})['image']\n", "      crop = resize(resize_size, resize_method)({'image': image})['image']\n"),
    ('pp-valid', 'C36', F, "    return data | {valid_key: valid}\n", "    return {valid_key: valid} | data\n"),
    ('pp-valid2', 'C36', F, "tf.math.logical_and(tf.cast(data.get(valid_key, True), tf.bool)", "tf.math.logical_or(tf.cast(data.get(valid_key, False), tf.bool)"),
    ('pp-valid3', 'C36', F, "tf.size(data[labels_key]) > 0)", "tf.size(data[labels_key]) > 1)"),
    ('pp-valid4', 'C36', F, "    valid = tf.math.logical_and(tf.cast(data.get(valid_key, True), tf.bool),\n                                tf.size(data[labels_key]) > 0)\n", "    valid = tf.size(data[labels_key]) > 0\n"),
    ('pp-keep', 'C36', F, "  keys = tuple(keys) + (VALID_KEY,)\n", "  keys = tuple(keys)\n"),
    ('pp-keep2', 'C36', F, "if k in keys}", "if k not in keys}"),
    ('pp-oh', 'C36', F, "      x = tf.clip_by_value(x, 0, 1) * (on - off) + off\n", "      x = x * (on - off) + off\n"),
    ('pp-oh2', 'C36', F, "      x = tf.clip_by_value(x, 0, 1) * (on - off) + off\n", "      x = tf.clip_by_value(x * (on - off) + off, off, on + off)\n"),
    ('pp-oh3', 'C36', F, "(on - off) + off", "on + off"),
    ('pp-oh4', 'C36', F, "on_value=on, off_value=off", "on_value=on"),
    ('pp-oh5', 'C36', F, "label.shape.rank > 0 and multi", "label.shape.rank > 0"),
    ('pp-oh6', 'C36', F, "label.shape.rank > 0 and multi", "label.shape.rank > 1 and multi"),
    ('pp-tf1', 'C36', F, "tf2.image.resize(image, resize_size, resize_method)", "tf.image.resize(image, resize_size, resize_method)"),
    ('pp-rdtype', 'C36', F, "    image = tf2.image.resize(image, resize_size, resize_method)\n    return tf.cast(image, dtype)\n", "    image = tf2.image.resize(image, resize_size, resize_method)\n    return tf.cast(image, tf.uint8)\n"),
    ('pp-meth', 'C36', F, "tf2.image.resize(image, resize_size, resize_method)", "tf2.image.resize(image, resize_size)"),
    ('pp-small', 'C36', F, "tf.cast(tf.minimum(h, w), tf.float32))", "tf.cast(tf.maximum(h, w), tf.float32))"),
    ('pp-small2', 'C36', F, "    w = tf.cast(tf.round(tf.cast(w, tf.float32) * ratio), tf.int32)\n", "    w = tf.cast(tf.cast(w, tf.float32) * ratio, tf.int32)\n"),
    ('pp-small3', 'C36', F, "    w = tf.cast(tf.round(tf.cast(w, tf.float32) * ratio), tf.int32)\n", "    w = tf.cast(tf.round(tf.cast(h, tf.float32) * ratio), tf.int32)\n"),
    ('pp-small4', 'C36', F, "resize_area(image[None], [h, w])", "resize_area(image[None], [w, h])"),
    ('pp-vr', 'C36', F, "    image = vmin + image * (vmax - vmin)\n", "    image = vmin + image * vmax\n"),
    ('pp-vr2', 'C36', F, "(image - in_min_t) / (in_max_t - in_min_t)", "(image - in_min_t) / in_max_t"),
    ('pp-vr3', 'C36', F, "    if clip_values:\n      image = tf.clip_by_value(image, vmin, vmax)\n", "    image = tf.clip_by_value(image, vmin, vmax)\n"),
    ('pp-vr4', 'C36', F, "tf.clip_by_value(image, vmin, vmax)", "tf.clip_by_value(image, 0.0, vmax)"),
    ('pp-vr5', 'C36', F, "in_max=255.0, clip_values=False", "in_max=256.0, clip_values=False"),
    ('pp-resh', 'C36', F, "    return tf.cast(image, dtype)\n\n  return _reshape", "    return tf.cast(image, tf.float32)\n\n  return _reshape"),
    ('pp-tok', 'C36', F, "force_eos=eos == 'sticky'", "force_eos=eos != 'none'"),
    ('pp-tok2', 'C36', F, "multi_text=not sample_if_multi", "multi_text=sample_if_multi"),
    ('pp-tok3', 'C36', F, "  if isinstance(pad_value, str):\n    pad_value = tokenizer.string_to_id(pad_value)\n", ""),
    ('pp-tok4', 'C36', F, "tf.strings.lower(txt) if sample_if_multi else", "txt if sample_if_multi else"),
    ('pp-flip', 'C36', F, "tf.image.random_flip_left_right(image)", "tf.image.random_flip_up_down(image)"),
    ('pp-aug', 'C36', F, "image, num_layers, magnitude)", "image, magnitude, num_layers)"),
    ('pp-flat', 'C36', F, "sep='/'", "sep='.'"),
]
QUIET = [
    ('ppq-key', 'C36', F, "        data[key or outkey] = orig_pp_fn(data[key or inkey])\n        return data\n", "        src = key if key else inkey\n        dst = key if key else outkey\n        value = orig_pp_fn(data[src])\n        data[dst] = value\n        return data\n"),
    ('ppq-key2', 'C36', F, "        data[key or outkey] = orig_pp_fn(data[key or inkey])\n        return data\n", "        return {**data, key or outkey: orig_pp_fn(data[key or inkey])}\n"),
    ('ppq-deco', 'C36', F, "class InKeyOutKey(object):", "def _unused():\n  return None\n\n\nclass InKeyOutKey:"),
    ('ppq-cc', 'C36', F, "    h, w = crop_size[0], crop_size[1]\n    dy = (tf.shape(image)[0] - h) // 2\n    dx = (tf.shape(image)[1] - w) // 2\n", "    h, w = crop_size\n    shape = tf.shape(image)\n    dy, dx = (shape[0] - h) // 2, (shape[1] - w) // 2\n"),
    ('ppq-cc2', 'C36', F, "crop_to_bounding_box(image, dy, dx, h, w)", "crop_to_bounding_box(\n        image=image, offset_height=dy, offset_width=dx, target_height=h,\n        target_width=w)"),
    ('ppq-size', 'C36', F, "  if isinstance(resize_size, int):\n    resize_size = (resize_size, resize_size)\n  resize_size = tuple(resize_size)\n", "  resize_size = _size_pair(resize_size)\n", "@InKeyOutKey()\ndef central_crop", "def _size_pair(size):\n  if isinstance(size, int):\n    return (size, size)\n  return tuple(size)\n\n\n@InKeyOutKey()\ndef central_crop"),
    ('ppq-box', 'C36', F, "    begin, size, _ = tf.image.sample_distorted_bounding_box(\n        tf.shape(image),\n        tf.zeros([0, 0, 4], tf.float32),\n        area_range=(area_min / 100, area_max / 100),\n        min_object_covered=0,  # Don't enforce a minimum area.\n        use_image_if_no_bounding_boxes=True)\n    crop", "    begin, size, _ = _sample_box(tf.shape(image), area_min, area_max)\n    crop", "@InKeyOutKey()\ndef central_crop", "def _sample_box(shape, area_min, area_max):\n  return tf.image.sample_distorted_bounding_box(\n      shape,\n      tf.zeros([0, 0, 4], tf.float32),\n      min_object_covered=0,\n      area_range=(area_min / 100.0, area_max / 100.0),\n      use_image_if_no_bounding_boxes=True)\n\n\n@InKeyOutKey()\ndef central_crop"),
    ('ppq-win', 'C36', F, "    offset_y, offset_x, _ = tf.unstack(begin)\n    target_height, target_width, _ = tf.unstack(size)\n    crop_window = tf.stack([offset_y, offset_x, target_height, target_width])\n", "    crop_window = tf.stack([begin[0], begin[1], size[0], size[1]])\n"),
    ('ppq-keep', 'C36', F, "    return {k: v for k, v in data.items() if k in keys}\n", "    kept = {}\n    for k, v in data.items():\n      if k in keys:\n        kept[k] = v\n    return kept\n"),
    ('ppq-keep2', 'C36', F, "  keys = tuple(keys) + (VALID_KEY,)\n", "  keys = frozenset(keys) | {VALID_KEY}\n"),
    ('ppq-valid', 'C36', F, "    return data | {valid_key: valid}\n", "    return {**data, valid_key: valid}\n"),
    ('ppq-valid2', 'C36', F, "    valid = tf.math.logical_and(tf.cast(data.get(valid_key, True), tf.bool),\n                                tf.size(data[labels_key]) > 0)\n", "    was_valid = tf.cast(data.get(valid_key, True), tf.bool)\n    has_labels = tf.size(data[labels_key]) > 0\n    valid = tf.math.logical_and(was_valid, has_labels)\n"),
    ('ppq-oh', 'C36', F, "      x = tf.clip_by_value(x, 0, 1) * (on - off) + off\n    else:\n      x = tf.one_hot(label, depth, on_value=on, off_value=off)\n    return x\n", "      x = tf.clip_by_value(x, 0, 1)\n      return off + (on - off) * x\n    return tf.one_hot(indices=label, depth=depth, on_value=on, off_value=off)\n"),
    ('ppq-oh2', 'C36', F, "    if label.shape.rank > 0 and multi:\n", "    if multi and label.shape.rank >= 1:\n"),
    ('ppq-oh3', 'C36', F, "tf.clip_by_value(x, 0, 1) * (on - off) + off", "tf.minimum(x, 1) * (on - off) + off"),
    ('ppq-small', 'C36', F, "    h = tf.cast(tf.round(tf.cast(h, tf.float32) * ratio), tf.int32)\n    w = tf.cast(tf.round(tf.cast(w, tf.float32) * ratio), tf.int32)\n", "    def scale(side):\n      return tf.cast(tf.round(tf.cast(side, tf.float32) * ratio), tf.int32)\n\n    h, w = scale(h), scale(w)\n"),
    ('ppq-small2', 'C36', F, "    h, w = tf.shape(image)[0], tf.shape(image)[1]\n", "    shape = tf.shape(image)\n    h, w = shape[0], shape[1]\n"),
    ('ppq-vr', 'C36', F, "    image = (image - in_min_t) / (in_max_t - in_min_t)\n    image = vmin + image * (vmax - vmin)\n", "    unit = (image - in_min_t) / (in_max_t - in_min_t)\n    image = vmin * (1 - unit) + vmax * unit\n"),
    ('ppq-vr2', 'C36', F, "    image = (image - in_min_t) / (in_max_t - in_min_t)\n    image = vmin + image * (vmax - vmin)\n", "    scale = (vmax - vmin) / (in_max_t - in_min_t)\n    image = (image - in_min_t) * scale + vmin\n"),
    ('ppq-copy', 'C36', F, "    data[outkey] = data[inkey]\n    return data\n", "    data.update({outkey: data[inkey]})\n    return data\n"),
    ('ppq-flat', 'C36', F, "  return lambda data: traverse_util.flatten_dict(data, sep='/')\n", "  def _flatten(data):\n    return traverse_util.flatten_dict(data, sep='/')\n\n  return _flatten\n"),
    ('ppq-tok', 'C36', F, "    if lower:\n      txt = tf.strings.lower(txt) if sample_if_multi else tf.map_fn(\n          tf.strings.lower, txt)\n", "    if lower and sample_if_multi:\n      txt = tf.strings.lower(txt)\n    elif lower:\n      txt = tf.map_fn(tf.strings.lower, txt)\n"),
    ('ppq-rs', 'C36', F, "    dtype = image.dtype\n    image = tf2.image.resize(image, resize_size, resize_method)\n    return tf.cast(image, dtype)\n", "    resized = tf2.image.resize(\n        image, size=resize_size, method=resize_method)\n    return tf.cast(resized, image.dtype)\n"),
]
