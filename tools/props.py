"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'zhusuan/distributions/'
F = 'zhusuan/framework/'
V = 'zhusuan/variational/'

P = []


def prop(id, title, statement, over, text, tests, files, mech, observe,
         technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, tests=tests, files=files, mech=mech,
                  observe=observe, technique=technique, note=note,
                  state=state))


prop(
    'C01', 'log_prob and prob are the documented densities everywhere',
    'For every distribution, every valid parameter value and every given '
    'value, log_prob(given) is the logarithm of the documented (normalised) '
    'density or mass function at that point and prob(given) is its '
    'exponential, also far in the tails and at the edges of the support. '
    'Parameters given in an alternative form (logstd, logits, unnormalised '
    'logits, Cholesky factors) mean the same law as the direct form, and '
    'entries of a batch do not influence each other.',
    ['inputs', 'configurations'],
    'all distributions x parameter forms x dtypes x batch shapes x values '
    '(tails, support edges, broadcasting)',
    'The tests compare a few hand-picked parameter arrays per distribution '
    'with scipy; the law has to hold for every parameter and value.',
    [D + 'univariate.py', D + 'multivariate.py', D + 'base.py',
     D + 'utils.py'],
    [('_log_prob / _prob of each class', D + 'univariate.py'),
     ('_log_prob / _prob of each class', D + 'multivariate.py')],
    ['log_prob(given)', 'prob(given)'],
    'property-based testing against an independent float64/mpmath-style '
    'numpy reference density',
    'Generated distributions, parameters and values; agreement with an '
    'independently written float64 reference within a conditioning-aware '
    'tolerance of the working dtype.')

prop(
    'C02', 'Samples follow the density that log_prob reports',
    'For every distribution and valid parameters, the values returned by '
    'sample(n) are independent draws, across samples and across batch '
    'entries, from exactly the law whose density log_prob reports, lie in its '
    'support, and every evaluation draws anew. This holds for all parameter '
    'forms, dtypes and sample shapes.',
    ['inputs', 'configurations', 'histories'],
    'all distributions x parameters x n_samples x dtype x repeated evaluation',
    'The tests check shapes and dtypes of samples, hardly ever their law.',
    [D + 'univariate.py', D + 'multivariate.py', D + 'base.py'],
    [('_sample of each class', D + 'univariate.py'),
     ('_sample of each class', D + 'multivariate.py')],
    ['sample(n)'],
    'property-based testing; probability-integral transform against the '
    'reference law with sequential two-stage statistical judgement',
    'Statistical: a wrong law is reported only beyond 6.5 sigma after '
    're-drawing, so small distortions (below about 1-2 % of a standard '
    'deviation) are not resolved.')

prop(
    'C03', 'Sample and log_prob shapes and dtypes obey the shape algebra',
    'A sample has shape [n_samples] + batch shape + value shape (no leading '
    'axis when n_samples is None) and log_prob has the broadcast of the given '
    'batch with the parameter batch, with group_ndims trailing axes removed; '
    'the reported static shapes, the dynamic shape tensors and the evaluated '
    'results never contradict each other. Dtypes are the declared ones: '
    'samples have the distribution dtype, probabilities the parameter dtype.',
    ['inputs', 'configurations'],
    'all distributions x parameter broadcasting x n_samples (None, int, '
    'tensor) x given shapes x dtypes x group_ndims',
    'The tests enumerate a handful of shape pairs per distribution.',
    [D + 'base.py', D + 'univariate.py', D + 'multivariate.py'],
    [('Distribution.sample / log_prob / prob / batch_shape', D + 'base.py'),
     ('_batch_shape, _get_batch_shape, _value_shape', D + 'univariate.py')],
    ['static shapes', 'evaluated shapes', 'dtype'],
    'property-based testing against a shape-algebra model',
    'Generated shape combinations against a Python model of the documented '
    'shape rules; ranks up to five, TensorFlow kernel limits excluded.')

prop(
    'C04', 'group_ndims sums log_prob over the trailing batch axes only',
    'With group_ndims = k the log-probability is the sum, and the probability '
    'the product, over the last k axes of the ungrouped result after '
    'broadcasting, and nothing else about the distribution changes: samples, '
    'shapes and parameters are those of the ungrouped distribution. This '
    'holds whether k is a Python int or a tensor.',
    ['inputs', 'configurations'],
    'all distributions x k from 0 to batch rank x int / tensor k x '
    'broadcasting of given against parameters',
    'Tests sample a few ranks with one distribution each.',
    [D + 'base.py'],
    [('group_ndims reduction in log_prob / prob', D + 'base.py')],
    ['log_prob(given)', 'prob(given)', 'sample(n)'],
    'property-based testing, metamorphic relation grouped versus ungrouped',
    'Metamorphic comparison with the ungrouped distribution plus the numpy '
    'reference.')

prop(
    'C05', 'Results do not depend on what is known statically about shapes',
    'Giving parameters, values, n_samples or group_ndims as placeholders with '
    'unknown or partially known shape yields the same log-probabilities, '
    'sample shapes and sample laws as giving them as constants. Whatever '
    'static shape is still reported is compatible with the evaluated shape.',
    ['inputs', 'configurations'],
    'all distributions x argument roles x (unknown rank, rank only, partial) '
    'static information',
    'Tests mostly use constants or fully shaped placeholders.',
    [D + 'base.py', D + 'univariate.py', D + 'multivariate.py',
     D + 'utils.py'],
    [('dynamic-shape branches of the distributions', D + 'multivariate.py')],
    ['log_prob(given)', 'sample(n)', 'static shapes'],
    'property-based testing, differential static versus dynamic graph',
    'Differential between two graphs of the same case and the reference.')

prop(
    'C06', 'Malformed distribution arguments are rejected, valid ones accepted',
    'A parameter, value, n_samples or group_ndims argument that violates its '
    'documented requirement on shape, rank, dtype or exclusivity leads to an '
    'error while the graph is built or at the latest when the result is '
    'evaluated - never to a silently wrong number. Arguments that satisfy '
    'the requirements are accepted.',
    ['inputs', 'configurations'],
    'all distributions x one malformed argument at a time x static / dynamic '
    'knowledge',
    'The tests try a fixed list of bad arguments for some classes, mostly '
    'with statically known shapes.',
    [D + 'base.py', D + 'univariate.py', D + 'multivariate.py',
     D + 'utils.py'],
    [('constructor checks and run-time asserts', D + 'utils.py'),
     ('_check_input_shape', D + 'base.py')],
    ['exceptions at construction or evaluation'],
    'property-based fault injection: one malformed argument per case with a '
    'valid control',
    'Only argument faults the documentation names are injected; each case '
    'also runs its valid control.')

prop(
    'C07', 'Gradients flow through samples exactly when reparameterized',
    'Gradients of samples of a reparameterized distribution with respect to '
    'its parameters are the pathwise derivatives of the sampled values, and '
    'samples of any distribution that is not reparameterized carry no '
    'gradient to its parameters. Gradients of log_prob with respect to the '
    'parameters and the given value are the derivatives of the documented '
    'density.',
    ['inputs', 'configurations'],
    'all distributions x is_reparameterized x parameters x values',
    'The tests check only whether some gradient is None for fixed shapes.',
    [D + 'univariate.py', D + 'multivariate.py'],
    [('stop_gradient on parameters / samples', D + 'univariate.py'),
     ('stop_gradient on parameters / samples', D + 'multivariate.py')],
    ['tf.gradients of samples and log_prob'],
    'property-based testing against numerical derivatives of the reference',
    'Automatic differentiation of the code compared with finite differences '
    'of an independent reference, at generated points.')

prop(
    'C08', 'A BayesianNet is its observations, samples and joint density',
    'After any sequence of calls that build or query a net, every stochastic '
    'node is equal to its observation if it was observed and to one sample of '
    'its own distribution otherwise, the same in every query; '
    'cond_log_prob(name) is the log-probability of that node at its value and '
    'log_joint() is the sum over all stochastic nodes, or the log joint '
    'function that was set. Node names are unique and unknown names are '
    'refused.',
    ['histories', 'programs'],
    'all call histories on a net: adding stochastic / deterministic nodes, '
    'queries in any order and multiplicity, misuse',
    'The tests run a few fixed scripts; the property is about every order of '
    'construction and query.',
    [F + 'bn.py', F + 'utils.py'],
    [('BayesianNet node dictionary, local log prob and log joint caches',
      F + 'bn.py'), ('StochasticTensor value selection', F + 'bn.py')],
    ['get', '__getitem__', 'cond_log_prob', 'log_joint', 'observed'],
    'model-based (stateful) property testing of call histories',
    'Histories up to about a dozen calls against a Python model with numpy '
    'recomputation of every conditional.')

prop(
    'C09', 'MetaBayesianNet.observe builds an independent net every time',
    'Each observe(...) call runs the model function anew and returns a net in '
    'which exactly the passed names are observed, unaffected by earlier, '
    'concurrent (nested) or failed calls and by other meta nets; overriding '
    'log_joint applies to every net observed afterwards. With variable reuse '
    'requested, all nets share one set of model variables.',
    ['histories', 'programs'],
    'all interleavings of observe calls, nested observes, raising model '
    'functions, log_joint overrides, over several meta nets',
    'The tests observe once or twice in fixed order.',
    [F + 'meta_bn.py', F + 'bn.py', F + 'utils.py'],
    [('Local context for the observing meta net', F + 'meta_bn.py'),
     ('reuse_variables / tf.make_template', F + 'utils.py')],
    ['observe(...)', 'log_joint', 'reuse_variables'],
    'model-based (stateful) property testing of observe histories',
    'Histories over two meta nets against a Python model; TensorFlow template '
    'restrictions on failing first calls are excluded.')

prop(
    'C10', 'A StochasticTensor behaves as the tensor of its value',
    'Every arithmetic, comparison, logical and indexing operator, every '
    'TensorFlow function and session fetch or feed applied to a stochastic '
    'node gives what the same operation gives on the node value, with the '
    'node on either side and tensors, numpy arrays, numbers or other nodes as '
    'the other operand. Python identity semantics (hashing, equality, no '
    'truth value, no iteration) hold, and an observation is accepted exactly '
    'when its type and shape are compatible.',
    ['programs', 'inputs'],
    'random expression programs over nodes and operands',
    'The tests call each operator once on one node.',
    ['zhusuan/utils.py', F + 'bn.py'],
    [('TensorArithmeticMixin', 'zhusuan/utils.py'),
     ('StochasticTensor conversion function, observation check', F + 'bn.py')],
    ['operators', 'tf functions', 'session.run'],
    'property-based testing of random expression programs against numpy',
    'Programs of bounded depth compared with numpy on fetched node values.')

prop(
    'C11', 'Each convenience constructor builds exactly the law it names',
    'bn.<distribution>(...), its aliases and the old-style stochastic tensor '
    'classes create a node of exactly the named distribution with every '
    'argument (parameters, n_samples, group_ndims, dtype, '
    'is_reparameterized, check_numerics, ...) in its place. Nodes created '
    'inside a BayesianNet context belong to the innermost one.',
    ['configurations', 'inputs', 'programs'],
    'all wrappers x argument combinations passed positionally or by name, '
    'nested contexts',
    'The tests touch few wrappers and few argument combinations.',
    [F + 'bn.py', 'zhusuan/legacy/framework/stochastic.py',
     'zhusuan/legacy/distributions/special.py'],
    [('wrapper methods', F + 'bn.py'),
     ('old-style StochasticTensor subclasses',
      'zhusuan/legacy/framework/stochastic.py')],
    ['node.dist', 'node.tensor', 'log_joint'],
    'property-based differential testing wrapper versus direct construction',
    'Attribute, density and sample-law comparison with the directly '
    'constructed distribution.')

prop(
    'C12', 'Graph traversal returns exactly the backward dependencies',
    'get_backward_ops returns every operation the seed tensors depend on, '
    'exactly once, each after the operations it depends on, and nothing '
    'else; traversal does not continue behind tensors or operations that are '
    'treated as inputs.',
    ['programs', 'inputs'],
    'random dataflow graphs with control dependencies, shared subgraphs, '
    'stochastic nodes, seeds and treat_as_inputs sets',
    'The tests check a few small fixed graphs.',
    [F + 'utils.py'],
    [('get_backward_ops depth-first traversal', F + 'utils.py')],
    ['get_backward_ops'],
    'property-based testing on random graphs against a reachability oracle',
    'Random graphs up to a few dozen operations; oracle is set reachability '
    'plus an order predicate.')

prop(
    'C13', 'Variational objectives have their defining values',
    'At the drawn samples, the evidence lower bound, the importance weighted '
    'objective, the inclusive KL objective and the importance sampling '
    'likelihood estimate equal their defining expressions in log p(x,z) and '
    'log q(z), reduced over exactly the requested sample axes, for models '
    'given as meta nets or functions and posteriors given as nets or as '
    '(sample, log-probability) pairs. Averaged over all outcomes of discrete '
    'latents, the importance weighted estimate is unbiased for p(x) on the '
    'probability scale and the bounds are ordered; inconsistent arguments '
    'are refused.',
    ['inputs', 'configurations', 'programs'],
    'a family of latent variable models x sample layouts x axes x argument '
    'forms',
    'The tests use one Gaussian model with fixed samples.',
    [V + 'base.py', V + 'exclusive_kl.py', V + 'inclusive_kl.py',
     V + 'monte_carlo.py', 'zhusuan/evaluation.py'],
    [('VariationalObjective log joint / entropy terms', V + 'base.py'),
     ('objective() of each class', V + 'exclusive_kl.py'),
     ('is_loglikelihood', 'zhusuan/evaluation.py')],
    ['objective tensors', 'is_loglikelihood'],
    'property-based testing against numpy definitions and exhaustive '
    'enumeration of discrete latents',
    'Values compared at the fetched samples; enumeration for small discrete '
    'models.')

prop(
    'C14', 'Gradient estimators estimate the gradient they are named for',
    'For every model and variational family they apply to, the gradients of '
    'sgvb, reinforce (with or without moving-mean baseline and given '
    'baseline), vimco and importance / rws costs with respect to variational '
    'and model parameters are the documented estimators at the drawn '
    'samples. Averaged over all outcomes of discrete latents they equal the '
    'gradient of the objective, and the variance-reduction baseline only '
    'uses information from earlier iterations.',
    ['inputs', 'configurations', 'histories'],
    'a family of latent variable models x estimators x sample axes x '
    'iteration histories',
    'The tests check signs or rough convergence on one Gaussian model.',
    [V + 'exclusive_kl.py', V + 'monte_carlo.py', V + 'inclusive_kl.py'],
    [('sgvb / reinforce', V + 'exclusive_kl.py'),
     ('sgvb / vimco', V + 'monte_carlo.py'),
     ('importance / rws', V + 'inclusive_kl.py')],
    ['tf.gradients of the surrogate cost'],
    'property-based testing against finite differences and enumeration',
    'TensorFlow gradients against finite differences of an independent numpy '
    'definition; enumeration for unbiasedness.')

EXTRA = os.path.join(ROOT, 'tools', 'props_mcmc.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['tests'],
                'anchors': {
                    'files': p['files'],
                    'state': [{'name': a, 'meaning': b, 'where': c}
                              for a, b, c in p['state']],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    m = {
        'version': 1,
        'setup_cmd': 'python3 run.py --selfcheck',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'], 'level': 'exploration',
            'level_note': p['note'] + ' Exploration: absence of '
            'counterexamples in the generated cases, no proof. Trusted: '
            'numpy/scipy, TensorFlow kernels, the reference code in vp/.',
        } for p in P],
        'not_applicable': [],
        'notes': 'No hooks are needed: all checks drive the public API of '
                 'the working tree in /repo. Known findings and fixed '
                 'defects: known_findings.json.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
