prop('P09', 'Variables evaluate exactly the values their set and transformation prescribe',
     'A variable\'s type, limits, length and evaluated values follow its variable set: discrete sets '
     'enumerate every member once in order, intervals give grids of the requested size inside the '
     'limits (never touching open ones), spaced in transformed coordinates where a transformation is '
     'set (if symbolic, by the inverse that recovers the set), and random requests stay within the limits. Reconfiguring a variable (set, type, '
     'transformation, in any order) leaves it as if newly made with the latest settings, and never '
     'modifies the objects it was given.',
     ['inputs', 'histories'], 'all limit/openness/notation/transformation combinations, all ordered '
     'subsets of a 4-value set, and all reconfiguration sequences to length 3 (thorough 4)',
     'Tests build a few variables once; stale limits or bounds need particular reconfigurations.',
     ['probayes/variable.py', 'probayes/vtypes.py', 'probayes/variable_utils.py'],
     [('sets and limits', 'probayes/variable.py: set_vset, set_ufun, eval_ufun, __len__'),
      ('evaluation', 'probayes/variable.py: evaluate; probayes/vtypes.py: uniform, eval_vtype')],
     'all interval/set configurations, grids 1..5, all random scripts, histories to length 3/4')

prop('P10', 'Deltas displace values by the specified amount and respect bounds',
     'Applying a delta to a value of a variable displaces it by exactly the amount specified (a fixed '
     'amount, a random one within the specified range in either direction, or that of a function), scaled by the '
     'variable\'s length when asked, in transformed coordinates where a transformation is set. Bounded '
     'deltas never leave the variable\'s limits (nor reach open ones), while unbounded ones are never '
     'altered; integers move by integers and booleans flip, with the probability specified if random. The deltas of a field do the same for '
     'each variable, and spherical deltas never exceed their radius.',
     ['inputs', 'schedules', 'histories'], 'all delta forms x scale x bound x limits x transformations, every value of a '
     'grid, every draw script, and set/step sequences to length 3',
     'Tests check a few random deltas statistically.',
     ['probayes/variable.py', 'probayes/field.py', 'probayes/variable_utils.py'],
     [('variables', 'probayes/variable.py: set_delta, eval_delta, apply_delta'),
      ('fields', 'probayes/field.py: set_delta, eval_delta, apply_delta')],
     'all delta configurations, values and draw scripts within bounds')

prop('P11', 'Random variables give every value its probability and sample by it',
     'Evaluating a random variable gives each value the probability (or density) its specification '
     'prescribes - uniform by default, or a constant, callable, symbolic, array (refused unless it fits the set) or named '
     'distribution - on the scale it was specified with, or on that requested. Values outside '
     'the variable\'s set have no probability; a transformation contributes its change of '
     'measure (and, with no probability specified but the change of measure asked for, implies a positive density). Random sampling inverts the cumulative distribution within the limits, so every draw '
     'falls in the set. Every function that symbolic and named distributions provide '
     '(density, its logarithm, cumulative function and its inverse, moments, draws) is that of the distribution.',
     ['inputs', 'schedules'], 'all sets x probability forms x scales x transformations, each value and each random draw of a script',
     'Tests look at one or two variables and shapes rather than values.',
     ['probayes/rv.py', 'probayes/prob.py', 'probayes/rv_utils.py', 'probayes/pscales.py'],
     [('probabilities', 'probayes/rv.py: RV.set_prob, eval_prob, evaluate; probayes/prob.py: Prob.__call__'),
      ('sampling', 'probayes/rv.py: RV.evaluate')],
     'all sets/forms/scales within bounds; all draw scripts')

prop('P12', 'Reconfiguring a random variable in any order never leaves stale probabilities',
     'After any sequence of setting the variable set, transformation, probability, scale or '
     'transition of a random variable, its probabilities, limits and random draws are those of a '
     'variable made afresh with the latest settings. Settings not touched by an operation persist, and '
     'drawing samples never changes later results.',
     ['histories'], 'all sequences of reconfiguration and draw operations to length 3 (thorough 4) for real and integer variables',
     'Tests never reconfigure a random variable; cached uniform probabilities, sampling functions or '
     'transitions only go stale after particular sequences.',
     ['probayes/rv.py', 'probayes/variable.py', 'probayes/prob.py'],
     [('reconfiguration', 'probayes/rv.py: RV.set_vset, set_ufun, set_prob, set_tran, _default_prob')],
     'all operation sequences to length 3/4')

prop('P13', 'Transitions of a random variable evaluate and sample one conditional law',
     'Stepping a random variable from a predecessor to a successor gives the conditional probability '
     'its transition prescribes (a constant, a function of both values, a pair of constants or functions for '
     'either direction, a symbolic expression or a matrix indexed by successor and predecessor, refused unless it fits the set), on '
     'the scale of the variable, with successors and predecessors on separate axes. Sampling a '
     'successor inverts the cumulative distribution of that same conditional within the limits of the set (of transformed variables too), so every draw maps to '
     'the successor its cumulative probability designates, and reverse steps use the reverse '
     'transition.',
     ['inputs', 'schedules', 'histories'], 'all transition forms x scales x directions, all pairs of values, all draws of a '
     'grid refining every cumulative boundary',
     'Tests step one variable a few times and look at shapes.',
     ['probayes/rv.py', 'probayes/variable.py', 'probayes/prob.py'],
     [('transitions', 'probayes/rv.py: RV.set_tran, set_tfun, eval_step, eval_tran, step')],
     'all forms/scales/pairs within bounds; all draw cells of the cumulative distribution')

prop('P14', 'Fields and dependences evaluate the joint and conditional laws they denote',
     'Calling a random field gives the product of the probabilities of independent variables, or the '
     'joint probability it was given (as a function by keyword or by order, a symbolic expression, '
     'a multivariate distribution, or a distribution whose parameters are variables), whatever the order in which variables or their values are '
     'specified and whether these vary separately, together or not at all. A stochastic dependence '
     'gives p(leafs|roots), its product with the roots when the joint is asked for, the product over '
     'repetitions for identically distributed leafs, and products of parallel dependences; the values '
     'given are never modified.',
     ['inputs'], 'all kinds of variable x scales x specifications (scalar, array, whole set, grid, random, '
     'combined) for fields of 1-3 variables and dependences of up to 2 leafs and 2 roots',
     'Tests evaluate a couple of fields and compare totals.',
     ['probayes/rf.py', 'probayes/sd.py', 'probayes/field.py', 'probayes/rf_utils.py',
      'probayes/sd_utils.py', 'probayes/prob.py', 'probayes/dependence.py'],
     [('fields', 'probayes/rf.py: RF.eval_prob, __call__; probayes/rf_utils.py: rv_prod_rule; probayes/field.py: parse_args, evaluate'),
      ('dependences', 'probayes/sd.py: SD.__call__; probayes/sd_utils.py: arch_prob; probayes/rf.py: _eval_iid')],
     'all configurations within the stated shapes')

prop('P15', 'Monte Carlo chains follow their acceptance rule and keep the target law',
     'Every sample of a chain reports the predecessor, the proposal, the probabilities of both and of '
     'the proposal in either direction, a score, a threshold and a verdict, all of which follow from '
     'the state last accepted: the Metropolis score is min(1, p(succ)/p(pred)), that of Hastings '
     'includes the ratio of reverse to forward proposal probabilities (for pairs of '
     'transition functions), whatever the scales involved; proposals are accepted if and only if the '
     'score reaches the threshold, and otherwise the chain stays where it was. The resulting kernel '
     'is in detailed balance with the target. Sampling by propositions or by transition matrices '
     'likewise reports the values drawn and their probabilities.',
     ['inputs', 'schedules', 'histories'], 'all scripts of proposals and of thresholds on either side of every score, to '
     'depth 3 (thorough 4), for all kinds of process, scale, transition and rule; whole kernels of up to 4 (6) states',
     'Tests run chains and plot them; a wrong acceptance ratio or state only shows in the limit.',
     ['probayes/sp.py', 'probayes/sp_utils.py', 'probayes/sd.py', 'probayes/rf.py', 'probayes/sd_utils.py'],
     [('rules', 'probayes/sp_utils.py: metropolis_*, hastings_*, gibbs_*'),
      ('chain', 'probayes/sp.py: SP.next, set_scores, set_thresh, set_update; probayes/sd.py: SD.sample; probayes/rf.py: reval_tran')],
     'all proposal/threshold scripts to depth 3/4; kernels of 2-4/6 states entirely')

prop('P16', 'Samplers of a process advance, stop and restart independently',
     'Every sampler made from a process keeps its own chain, count and position in any cycle of '
     'conditional updates, however calls to several samplers interleave and whether '
     'samples are taken by iteration, by walking or directly. A sampler yields exactly the number '
     'of samples it was asked to stop at, a walk of n takes exactly n, resetting a sampler restarts '
     'it (and no other) from its initial state unless told to keep the last, and summaries hold every '
     'sample not refused, in order.',
     ['histories', 'schedules'], 'all sequences of creating, advancing, walking, finishing and resetting two samplers to length 5 '
     '(thorough 6), for chains, conditional sampling, propositions and plain calls, against a reference model; all verdict sequences to length 4 (5)',
     'Tests run one sampler to the end.',
     ['probayes/sp.py', 'probayes/sp_utils.py', 'probayes/rf.py'],
     [('samplers', 'probayes/sp.py: SP.sampler, next, walk, reset, get_counter, get_last; probayes/sp_utils.py: sample_generator'),
      ('summaries', 'probayes/sp.py: SP.__call__')],
     'all operation sequences to length 5/6')

prop('P17', 'Transitions of fields evaluate, displace and sample as specified',
     'Stepping a field between values gives the probability that its transition function (by keyword, '
     'by order, by differences, with further keywords, or a constant, forwards or in reverse) '
     'prescribes on the scale of the field, whichever way values are given. A covariance matrix '
     'correlates deltas through its Cholesky factor, and a triangular matrix as such a factor. Without a '
     'transition, independent variables step by the geometric mean of the probabilities of both ends. Conditional sampling visits the variables in '
     'turn, the number of steps asked for at a time, each drawn given the latest values of the others: '
     'by the function supplied, or from the exact normal conditional within the limits of the variable.',
     ['inputs', 'schedules', 'histories'], 'all transition forms x scales x requests for 1-3 variables; all covariances x '
     'limits x step sizes x draws over four steps',
     'Tests draw long runs and inspect moments by eye.',
     ['probayes/rf.py', 'probayes/field.py', 'probayes/cond_cov.py', 'probayes/rf_utils.py', 'probayes/cf.py', 'probayes/func.py'],
     [('steps', 'probayes/rf.py: RF.set_tran, set_tfun, eval_step, eval_tran, eval_tfun, step, eval_delta'),
      ('conditionals', 'probayes/cond_cov.py: CondCov.interp; probayes/rf_utils.py: sample_cond_cov; probayes/func.py: Func._call')],
     'all configurations and draw scripts within bounds')

prop('P18', 'Callable expressions receive exactly the arguments specified for them',
     'An expression or function wraps a callable, a tuple or dictionary of them, or plain values. '
     'Calling it passes the arguments bound on construction together with those of the call (given '
     'positionally, by keyword or as a dictionary; an expression prefers the keywords of the call to bound '
     'ones of the same name, a function the bound ones), with each named argument sent to the position or '
     'keyword, or dropped, as its order mapping says, and differences formed as its delta mapping says; '
     'a missing argument or an invalid mapping is refused. Indexing gives the member asked for, '
     'and replacing or remapping an expression leaves nothing of the previous one, a refused '
     'replacement leaving it unset or as it was, and failing calls change nothing.',
     ['inputs', 'histories'], 'all injective mappings of up to 3 arguments upon positions and names x kinds of callable x ways '
     'of calling; all sequences of 4 (thorough 5) replacements, remappings, indexings and failing calls',
     'Tests use a few lambdas and one or two orders.',
     ['probayes/expression.py', 'probayes/func.py'],
     [('mappings', 'probayes/expression.py: Expression.set_expr, set_order, set_delta, _call; probayes/func.py: Func'),
      ('indexing and replacement', 'probayes/expression.py: Expression.__getitem__, _set_partials')],
     'all mappings of up to 3 arguments; all histories to depth 4/5')

prop('P19', 'Symbolic expressions evaluate, invert and differentiate as mathematics says',
     'A symbolic expression evaluates, for scalars, integers, booleans and arrays given positionally, '
     'by keyword, by symbol or by variable, to the value that its formula has there, and remains so after '
     'renaming its symbols, substituting them, simplifying or being replaced by another. The inverse of an '
     'invertible expression undoes it, its derivatives match the slopes of it and its inverse, and '
     'nothing of a previous expression remains once it is replaced.',
     ['inputs', 'histories'], 'all expression trees of bounded shape over 5 unary and 4 binary operations x namings x values x '
     'ways of calling; all sequences of up to 3 replacements of invertible expressions',
     'Tests evaluate a single expression each.',
     ['probayes/expr.py', 'probayes/icon.py', 'probayes/expression.py'],
     [('evaluation', 'probayes/expr.py: Expr.expr, __call__, add_efun, remap, subre, resub, simplify'),
      ('inversion', 'probayes/expression.py: Expression.set_expr, inverse, derinv, invertible'),
      ('symbols', 'probayes/icon.py: Icon')],
     'all trees within the listed shapes')

prop('P20', 'Composing variables with & and | yields the dependences written',
     'Combining variables, fields and dependences by & and | in any order and grouping, or constructing '
     'and growing them in any form, gives fields with each variable once in order, and dependences '
     'whose leafs and roots are those written, connected accordingly and without cycles; operands are not altered, and '
     'anything invalid is refused without effect. Functionals added to a dependence provide '
     'each output from exactly the inputs specified for it, however the specification is given, '
     'and refuse outputs already provided, unknown inputs and mixtures of kinds, keeping what was there.',
     ['inputs', 'histories'], 'all expressions of up to 4 (thorough 5) operands with distinct and repeated variables; all orders '
     'and forms of construction; all sequences of adding functions for up to 2 outputs of up to 3 inputs with refusals after each',
     'Tests build a few fixed graphs.',
     ['probayes/field.py', 'probayes/dependence.py', 'probayes/functional.py', 'probayes/functional_utils.py', 'probayes/variable.py',
      'probayes/rf.py', 'probayes/sd.py', 'probayes/rv.py'],
     [('operators', 'probayes/variable.py, field.py, dependence.py, rv.py, rf.py, sd.py: __and__, __or__'),
      ('functionals', 'probayes/functional.py: Functional.add_func, __getitem__; probayes/dependence.py: add_func')],
     'all compositions and additions within bounds')

prop('P21', 'Counted likelihoods give every assignment its relative frequency',
     'Counting the rows of boolean observations gives for every combination of values the number of rows '
     'that hold it (plus any baseline). A field or dependence given the likelihood counted from labelled '
     'columns gives every assignment its relative frequency, whatever the order of the labels and '
     'variables and whichever of them are given, and so do products of such likelihoods. Parts of a table '
     'are sliced by value whatever the order asked for, and values it does not hold are refused. Integers '
     'survive conversion to binary arrays of any sufficient width and back, one by one or many at a time.',
     ['inputs'], 'all boolean arrays of up to 10 (thorough 12) cells; all multisets of up to 3 observations x orders of labels '
     'x shapes of dependence x specifications; all parts of tables of 1-3 variables; all integers below 64 (1024) and lists of up to 3',
     'One example counts random observations and checks nothing.',
     ['probayes/likelihoods.py', 'probayes/rf_utils.py'],
     [('counting', 'probayes/likelihoods.py: bool_perm_freq, int_to_bin, bin_to_int'),
      ('slicing', 'probayes/rf_utils.py: slice_by_keyvals; probayes/rf.py: RF.eval_prob (passdims)')],
     'all observations and specifications within bounds')

prop('P22', 'Reconfiguring fields and processes in any order leaves only the latest settings',
     'After any sequence of setting the probability, transition, sampling function, proposition, delta or '
     'scores of a field, dependence or process (and the set, probability, scale or transformation of its '
     'variables), every probability, draw, proposal, step, displacement, sample and chain is that of one made afresh with the '
     'latest settings. A sampling function implied by a transition (a covariance or a distribution) goes when '
     'that transition is superseded, a refused setting changes nothing, and drawing changes nothing later but whose '
     'turn it is when variables are sampled a number of steps at a time.',
     ['histories', 'faults'], 'all sequences of all settings, draws and refused settings to length 2 (thorough 3) and of a core of them to '
     'length 3 (4), for fields, dependences and processes of 1-2 variables',
     'Tests configure every field once.',
     ['probayes/rf.py', 'probayes/field.py', 'probayes/sd.py', 'probayes/sp.py', 'probayes/rv.py'],
     [('settings', 'probayes/rf.py: RF.set_prob, set_tran, set_tfun, set_prop; probayes/field.py: Field.set_delta'),
      ('processes', 'probayes/sd.py: SD.set_*; probayes/sp.py: SP.set_scores, set_thresh, set_update')],
     'all operation sequences within bounds')

prop('P23', 'Evaluating variables and fields gives the grid of values asked for',
     'Evaluating a variable, field or dependence, random or not, gives every variable once, in the order of the '
     'field, at exactly the values given or asked for (all of a set, so many points, or so many draws within the set), however they are '
     'given: by name or by variable, in dictionaries or keywords, in any order. Each variable has an axis of its own '
     'in that order, variables given together share one, and single values have none; arguments are '
     'not altered and unknown names are refused. Distributions look up, rename and re-dimension their values '
     'without changing any and refuse what does not fit. Selecting variables or subfields of a field gives exactly '
     'those variables, and fields are equal if they have the same ones.',
     ['inputs'], 'every specification of 1-4 variables of three kinds, alone or together, in every form of argument; all layouts of up to 3 '
     '(thorough 4) variables with all lookups, renamings and permutations; all selections',
     'Tests evaluate a few fixed grids.',
     ['probayes/field.py', 'probayes/dependence.py', 'probayes/distribution.py', 'probayes/variable.py', 'probayes/variable_utils.py',
      'probayes/vtypes.py', 'probayes/rf.py'],
     [('grids', 'probayes/field.py: Field.parse_args, evaluate, __call__; probayes/variable.py: Variable.evaluate'),
      ('layouts', 'probayes/distribution.py: Distribution.dims, lookup, redim, rekey'),
      ('selection', 'probayes/field.py: Field.subfield, __getitem__, __eq__; probayes/variable.py: variables')],
     'all specifications and layouts within bounds')

prop('P24', 'Inference gives the exact posterior by whichever route',
     'From the parts of any model of discrete variables, each given as an array or a function, on any '
     'probability scale, the probability of any query given any evidence is that of the definition by every '
     'route: multiplying the parts in any order, summing out, conditioning and observing in any order, dividing by '
     'the evidence, or observing the parts first. Independent observations give the same posterior over '
     'parameters together, in any split and order, or one after another with each posterior the next prior, '
     'and that posterior gives the right means, marginals and predictions. Grids and random draws of real parameters (and proposals to be '
     'kept or rejected) are weighed by exactly the probabilities at the points drawn.',
     ['inputs', 'histories'], 'all queries and evidence (with impossible ones) of 8 networks of 2-4 variables x forms x scales; '
     'all sequences of up to 4 (thorough 5) observations, in every split; all scripts of up to 4 random draws',
     'Examples infer one posterior each and check nothing.',
     ['probayes/pd.py', 'probayes/pd_utils.py', 'probayes/distribution.py', 'probayes/rv.py', 'probayes/rf.py', 'probayes/sd.py', 'probayes/pscales.py'],
     [('algebra', 'probayes/pd.py: PD.__call__, conditionalise, marginalise, marginal, prod, expectation, __mul__, __truediv__; '
                  'probayes/pd_utils.py: product'),
      ('models', 'probayes/rv.py, rf.py, sd.py: __call__ (joint, iid), eval_prob, set_prob')],
     'all models, queries and observations within bounds')
