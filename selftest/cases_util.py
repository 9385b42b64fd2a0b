U = 'vmoe/utils.py'
STEP = """    for i, iterator in enumerate(self.iterators):
      try:
        elements.append(next(iterator))
        if stop is not None:
          break
      except StopIteration:
        stop = i
"""
FIRE = [
    ('ca-eval', 'C25', U, "ast.literal_eval(arg) for arg", "eval(compile(ast.Expression(arg), '', 'eval')) for arg"),
    ('ca-eval2', 'C25', U, "kwarg.arg: ast.literal_eval(kwarg.value)", "kwarg.arg: eval(ast.unparse(kwarg.value))"),
    ('ca-mod', 'C25', U, "    module = string[:expr.end_col_offset]\n", "    module = default_module\n"),
    ('ca-name', 'C25', U, "    name = expr.attr\n    expr = expr.value\n    module = string[:expr.end_col_offset]\n", "    name = expr.attr\n    module = string[:expr.end_col_offset]\n    expr = expr.value\n"),
    ('ca-args', 'C25', U, "for arg in expr.args])", "for arg in expr.args[:1]])"),
    ('ca-kw', 'C25', U, "    args, kwargs = (), {}", "    args, kwargs = (default_module,), {}"),
    ('ca-kw2', 'C25', U, "for kwarg in expr.keywords\n", "for kwarg in expr.keywords if kwarg.arg != 'name'\n"),
    ('ca-swap', 'C25', U, "  return getattr(module, name), args, kwargs", "  return getattr(module, name), kwargs, args"),
    ('ca-norej', 'C25', U, "  else:\n    raise ValueError(f'{string=!r} is not a supported callable string.')\n  if isinstance(module, str)", "  else:\n    module, name = default_module, string\n  if isinstance(module, str)"),
    ('ca-imp', 'C25', U, "    module = importlib.import_module(module)", "    module = importlib.import_module(default_module)"),
    ('pc-over', 'C25', U, "      bound_kwargs = base_kwargs.copy()\n      bound_kwargs.update(kwargs)\n", "      bound_kwargs = kwargs.copy()\n      bound_kwargs.update(base_kwargs)\n"),
    ('pc-lost', 'C25', U, "      bound_kwargs = base_kwargs.copy()\n      bound_kwargs.update(kwargs)\n", "      bound_kwargs = kwargs or base_kwargs\n"),
    ('pc-pos', 'C25', U, "      bound_args = base_args + args\n", "      bound_args = args + base_args\n"),
    ('pc-pos2', 'C25', U, "      bound_args = base_args + args\n", "      bound_args = args or base_args\n"),
    ('zi-first', 'C34', U, STEP, STEP.replace("        if stop is not None:\n          break\n", "").replace("        stop = i\n", "        stop = i\n        break\n")),
    ('zi-zip', 'C34', U, "  return SafeZipIterator(*iterables)", "  return zip(*iterables)"),
    ('zi-map', 'C34', U, "  for args in SafeZipIterator(*iterables):", "  for args in zip(*iterables):"),
    ('zi-noerr', 'C34', U, "    if stop is not None and elements:\n      raise", "    if stop and elements:\n      raise"),
    ('zi-len', 'C34', U, "    if stop is not None and elements:\n      raise", "    if stop is not None and len(elements) > 1:\n      raise"),
    ('zi-last', 'C34', U, "        stop = i\n    if stop is not None and elements:", "        stop = i\n    if stop is not None and elements and stop != len(self.iterators) - 1:"),
    ('zi-stop', 'C34', U, "    if not elements:\n      raise StopIteration\n", "    if stop is not None:\n      raise StopIteration\n    if not elements:\n      raise StopIteration\n", "    if stop is not None and elements:\n      raise SafeZipIteratorError(\n          f'The {stop}-th iterator raised StopIteration before the rest')\n", ""),
    ('zi-break', 'C34', U, STEP, STEP.replace("        stop = i\n", "        if stop is None:\n          break\n        stop = i\n")),
    ('zi-insert', 'C34', U, "        elements.append(next(iterator))\n", "        elements.insert(0, next(iterator))\n"),
]
QUIET = [
    ('ca-q-map', 'C25', U, "    args = tuple([ast.literal_eval(arg) for arg in expr.args])\n", "    args = tuple(map(ast.literal_eval, expr.args))\n"),
    ('ca-q-loop', 'C25', U, "    kwargs = {\n        kwarg.arg: ast.literal_eval(kwarg.value) for kwarg in expr.keywords\n    }\n", "    kwargs = {}\n    for keyword in expr.keywords:\n      kwargs[keyword.arg] = ast.literal_eval(keyword.value)\n"),
    ('ca-q-order', 'C25', U, "    module = default_module\n    name = expr.id\n", "    module, name = default_module, expr.id\n"),
    ('ca-q-first', 'C25', U, "  else:\n    args, kwargs = (), {}\n  if isinstance(expr, ast.Name)", "  else:\n    args = tuple()\n    kwargs = dict()\n  if isinstance(expr, ast.Name)"),
    ('ca-q-helper', 'C25', U, "    args = tuple([ast.literal_eval(arg) for arg in expr.args])\n", "    def literal(node):\n      return ast.literal_eval(node)\n    args = tuple(literal(arg) for arg in expr.args)\n"),
    ('pc-q', 'C25', U, "      bound_args = base_args + args\n      bound_kwargs = base_kwargs.copy()\n      bound_kwargs.update(kwargs)\n      super().__init__(*bound_args, **bound_kwargs)\n", "      super().__init__(*base_args, *args, **{**base_kwargs, **kwargs})\n"),
    ('pc-q2', 'C25', U, "      bound_kwargs = base_kwargs.copy()\n      bound_kwargs.update(kwargs)\n", "      bound_kwargs = base_kwargs | kwargs\n"),
    ('zi-q-else', 'C34', U, STEP, """    for i, iterator in enumerate(self.iterators):
      try:
        element = next(iterator)
      except StopIteration:
        stop = i
        continue
      elements.append(element)
      if stop is not None:
        break
"""),
    ('zi-q-order', 'C34', U, "    if stop is not None and elements:\n      raise SafeZipIteratorError(\n          f'The {stop}-th iterator raised StopIteration before the rest')\n    if not elements:\n      raise StopIteration\n", "    if not elements:\n      raise StopIteration\n    if stop is not None:\n      raise SafeZipIteratorError(\n          f'The {stop}-th iterator raised StopIteration before the rest')\n"),
    ('zi-q-len', 'C34', U, "    if stop is not None and elements:\n", "    if elements and len(elements) != len(self.iterators):\n"),
    ('zi-q-star', 'C34', U, "  for args in SafeZipIterator(*iterables):\n    yield f(*args)\n", "  for args in safe_zip(*iterables):\n    result = f(*args)\n    yield result\n"),
]
