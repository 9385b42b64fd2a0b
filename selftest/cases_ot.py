O = 'vmoe/projects/sparsity_constrained_ot/ot_routing.py'
K = 'vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py'
S = 'vmoe/projects/sparsity_constrained_ot/ksparse_projection_routing.py'
Q = 'vmoe/projects/sparsity_constrained_ot/sparse_projection_routing.py'
FIRE = [
    ('ot-clean', 'C40', K, "jax.nn.softmax(gates_logits_noisy)", "jax.nn.softmax(gates_logits)"),
    ('ot-cost', 'C40', K, "cost_matrix=-sim_matrix", "cost_matrix=sim_matrix"),
    ('ot-marg', 'C40', K, "group_size / self.num_experts", "group_size // self.num_experts"),
    ('ot-marg2', 'C40', Q, "num_tokens / num_experts", "num_experts / num_tokens"),
    ('ot-iter', 'C40', K, "max_iterations=self.maxiter", "max_iterations=20"),
    ('ot-impl', 'C40', K, "implicit_diff=self.use_implicit_differentiation", "implicit_diff=True"),
    ('ot-lb', 'C40', K, "      if self.use_lbfgs:", "      if not self.use_lbfgs:"),
    ('ot-nz', 'C40', K, "sim_matrix=gates_logits_noisy", "sim_matrix=gates_logits"),
    ('ot-k', 'C40', S, "nnz_k=self.num_selected_experts", "nnz_k=self.num_experts"),
    ('ot-cap', 'C40', S, '"capacity_multiple_of", 4', '"capacity_multiple_of", 1'),
    ('ot-tr', 'C40', S, "      sparse_ot_plan = sparse_ot_plan.T\n", "      sparse_ot_plan = sparse_ot_plan.T * 1.0\n      sim_matrix = sim_matrix.T\n", "cost_matrix=-sim_matrix", "cost_matrix=sim_matrix"),
    ('ot-obj', 'C40', S, "- 0.5 * scale", "- scale"),
    ('ot-proj', 'C40', S, "x / scale, k", "x, k"),
    ('ot-lr', 'C40', S, "optax.adam(self.adam_lr)", "optax.adam(1e-2)"),
    ('ot-count', 'C40', S, "jnp.count_nonzero(gates_ot, axis=1)", "jnp.count_nonzero(gates_softmax, axis=1)"),
    ('ot-cw', 'C40', O, '"GSEC,GSE->GSEC", dispatch_weights, replacing_gates', '"GSEC,GSE->GSEC", dispatcher.combine_weights, replacing_gates'),
    ('ot-bf', 'C40', O, '    if use_bfloat16:\n      dispatcher = vmoe.moe.Bfloat16Dispatcher(dispatcher)\n    return dispatcher\n', '    return dispatcher\n'),
    ('ot-bf2', 'C40', O, '"bfloat16", False', '"bfloat16", True'),
    ('ot-sel', 'C40', O, "num_selected_experts=self.num_selected_experts", "num_selected_experts=1"),
    ('ot-type', 'C40', O, '    raise TypeError(f"Unsupported dispatcher: {type(dispatcher)}")\n', '    pass\n'),
    ('ot-one', 'C40', K, "if self.importance_loss_weight == 0.0", "if self.importance_loss_weight == 1.0"),
    ('ot-load', 'C40', K, "(self.load_loss_weight, load_loss)", "(self.importance_loss_weight, load_loss)"),
    ('ot-sim', 'C40', Q, "sparse_ot_fun(sim_matrix=gates_softmax)", "sparse_ot_fun(sim_matrix=gates_logits)"),
]
QUIET = [
    ('ot-q1', 'C40', O, 'combine_weights = jnp.einsum(\n        "GSEC,GSE->GSEC", dispatch_weights, replacing_gates)', 'combine_weights = dispatch_weights * replacing_gates[..., None]'),
    ('ot-q2', 'C40', K, "required_sums_along_experts = jnp.ones((group_size,))", "required_sums_along_experts = jnp.full((group_size,), 1.0)"),
    ('ot-q3', 'C40', S, "z = jnp.dot(p, x) - 0.5 * scale * jnp.dot(p, p - 1)", "z = jnp.dot(x, p) - scale * jnp.dot(p, p) / 2"),
    ('ot-q4', 'C40', K, "noise_std = (1.0 / num_experts) * self.noise_std", "noise_std = self.noise_std / num_experts"),
    ('ot-q5', 'C40', Q, "marginals=(required_sums_along_experts, required_sums_along_tokens)", "marginals=(required_sums_along_experts, num_tokens * jnp.ones((num_experts,)) / num_experts)"),
]
