"""What each property's check consists of (read by the parent process, which
does not import TensorFlow): sub-check, quick cases, thorough cases, shards."""

PLAN = {
    'C01': {'rule': 'A case draws a distribution, parameter form, dtype, batch shapes (with broadcasting) and a given value from the bulk, the tails and the support edges. Non-trivial: at least one compared log-density is finite (not only -inf / out of support); point masses: the probability is determined; distinct by the full case.', 'subs': [('univariate', 2000, 60000, 4),
                                 ('multivariate', 2000, 60000, 4),
                                 ('pointmass', 150, 2000, 1)]},
    'C02': {'rule': 'A case draws a distribution, parameters, dtype and sample layout and judges the transformed draws of several thousand samples (for the tails, of 300000), of one or two sample() calls. Every case is non-trivial (it judges a law and independence); distinct by the full case.', 'subs': [('univariate', 1800, 24000, 4),
                                 ('multivariate', 1400, 20000, 4),
                                 ('tails', 300, 6000, 4)]},
    'C03': {'rule': 'A case draws a distribution, parameter/given shapes, n_samples and group_ndims. Non-trivial: batch, value or given batch shape is not scalar.', 'subs': [('univariate', 1200, 40000, 4),
                                 ('multivariate', 1200, 40000, 4)]},
    'C04': {'rule': 'A case draws a distribution, batch shapes and group_ndims. Non-trivial: group_ndims > 0, more than one element, and a finite log-probability.', 'subs': [('univariate', 1400, 40000, 4),
                                 ('multivariate', 1400, 40000, 4),
                                 ('pointmass', 150, 2000, 1)]},
    'C05': {'rule': 'A case draws a distribution and degrades the static shape of some arguments. Non-trivial: at least one argument has degraded static shape.', 'subs': [('univariate', 1000, 30000, 4),
                                 ('multivariate', 1000, 30000, 4)]},
    'C06': {'rule': 'A case draws a valid distribution and breaks exactly one argument. Non-trivial: the break applies to the drawn distribution and the valid control passed.', 'subs': [('reject', 3200, 40000, 8)]},
    'C07': {'rule': 'A case draws a distribution and differentiates samples or log_prob. Every case compares at least one gradient (or its required absence) and counts as non-trivial.', 'subs': [('samples', 1200, 30000, 4), ('logprob', 1000, 25000, 4)]},
    'C08': {'rule': 'A case is a history of calls on one net. Non-trivial: at least two handed-out tensors were evaluated and compared.', 'subs': [('history', 1600, 40000, 8)]},
    'C09': {'rule': 'A case is a history over meta nets. Non-trivial: at least two nets observed (or, for reuse, a function called at least twice).', 'subs': [('history', 1200, 30000, 7), ('reuse', 200, 4000, 1)]},
    'C10': {'rule': 'A case is an expression program over nodes, or one observation offered to a node. Non-trivial: at least one operator applied to a node; observation cases unless numpy converts the value first.', 'subs': [('program', 1000, 30000, 4), ('observation', 1000, 20000, 4)]},
    'C11': {'rule': 'A case draws a wrapper/alias/legacy class and its arguments. Non-trivial: more than one parameter, group_ndims > 0, or optional arguments.', 'subs': [('wrappers', 1800, 40000, 7), ('contexts', 200, 4000, 1)]},
    'C12': {'rule': 'A case is a random graph with seeds and treat_as_inputs. Non-trivial: some operation is reachable along two paths.', 'subs': [('graphs', 2400, 60000, 8)]},
    'C13': {'rule': 'A case draws a model, sample layout, axes and argument form. Non-trivial: a reduction axis with more than one element; enumerations unless too many outcomes.', 'subs': [('values', 1000, 24000, 7), ('enumeration', 120, 3000, 1)]},
    'C14': {'rule': 'A case draws a model, estimator, layout and number of iterations. Non-trivial: more than one sample/batch element; enumerations with more than two outcomes.', 'subs': [('estimators', 1300, 24000, 6), ('unbiased', 120, 3000, 1), ('single', 12, 12, 1)]},
    'C20': {'rule': 'A case draws shapes, axis specification, magnitudes (up to the dtype limits and infinities) and static knowledge, or the arguments of one helper. Non-trivial: more than one element reduced, or a helper case that is not degenerate.', 'subs': [('logexp', 2000, 60000, 4), ('tools', 1600, 40000, 4)]},
    'C21': {'rule': 'A case draws up to four chains (iid, autoregressive, walks, periodic, integer, heavy tailed) and a burn-in. Non-trivial: the kept chain is not constant and not within float32 rounding of a cut-off.', 'subs': [('chains', 3000, 100000, 4)]},
    'C19': {'rule': 'A case draws a flow (planar, IAF with a nonlinear or the linear network, normal or gru update), parameters, shapes and static knowledge; the Jacobian comes from differentiating the outputs. Non-trivial: at least one flow iteration and a well conditioned Jacobian; rejection cases that inject a fault.', 'subs': [('jacobian', 700, 20000, 7), ('reject', 200, 3000, 1)]},
    'C15': {'rule': 'A case draws a target (function or meta net; Gaussian, heavy tailed, quartic, bounded), chain and data shapes, step size, leapfrogs and a history of iterations, each replayed by the model, run in the order of the executor or in an imposed random legal order of operations; law cases pool hundreds of chains. Non-trivial: at least one judged chain moved or was refused; law cases that judged an acceptance bin.', 'subs': [('transition', 700, 12000, 7), ('law', 40, 1000, 1)]},
    'C16': {'rule': 'A case draws a target, adaptation parameters and an on/off schedule for step-size and mass adaptation over up to nine (sometimes thirty) iterations, run in the order of the executor or in an imposed random legal order of the operations. Non-trivial: at least one judged chain moved or was refused.', 'subs': [('adaptation', 420, 8000, 7), ('law', 30, 800, 1)]},
    'C17': {'rule': 'A case draws a sampler, target, hyper-parameters and a history of up to 30 iterations, run in the order of the executor or in an imposed random legal order of operations, three times with the same random numbers (gradient and friction off, gradient off, as is); default cases replay the noise-free limit with the documented default hyper-parameters. Non-trivial: the chain did not diverge beyond float32 judgement.', 'subs': [('update', 500, 12000, 7), ('defaults', 100, 2000, 1)]},
    'C18': {'rule': 'A case draws a model, proposal, chain/data shape, temperatures, HMC settings and repeated runs of AIS; the annealing history is recorded at the session boundary. Non-trivial: more than one chain or temperature; law cases with a wide enough proposal.', 'subs': [('path', 240, 5000, 7), ('law', 30, 800, 1)]},
    'C22': {'rule': 'A case is a history of queries, casts, operators, estimator calls and changes to the dictionaries of the caller, on one or several objectives that share a posterior. Non-trivial: at least one value, net or gradient of an objective was compared.', 'subs': [('history', 1600, 30000, 7)]},
    'C23': {'rule': 'A case draws two programs (distributions, nets, HMC, stochastic-gradient samplers, AIS, variational estimators, flows) and runs the first one alone, in a graph shared with the second one while a third graph is half done, with another seed, without a seed and in a second process. Non-trivial: the program returned results.', 'subs': [('programs', 350, 12000, 7)]},
    'C24': {'rule': 'A case draws an inference entry point, a model and one fault, and repeats the call without the fault in the same graph. Non-trivial: the fault applies.', 'subs': [('misuse', 900, 15000, 5)]},
}
