"""Property texts: the single source of properties.jsonl and MANIFEST.json.

Usage: python tools/catalog.py   (rewrites both files; run by hand, not by checks)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique=None):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mechanism=mechanism, note=note, technique=technique))


DIRECT = ('Stateless model checking of the real code: exhaustive enumeration of a bounded space of '
          'executions, each judged against an independent reference model')

prop('P01', 'Probability scales convert without changing the probability denoted',
     'A probability value is stored either on a linear scale with a coefficient or on a log scale with '
     'an offset, and converting between any two scales (including named ones) denotes the same '
     'probability, zero and one included, and round-trips. The scale of a product of values combines '
     'the scales of its factors, and products and quotients computed on any mixture of scales equal the '
     'product and quotient of the probabilities denoted. Values set as a constant probability honour '
     'the scale they are given.',
     ['inputs'], 'all pairs and triples of a set of linear, coefficient, log and positive/negative offset '
     'scales, over scalars and arrays including zero',
     'Tests convert a handful of values on one or two scales; agreement is required for all pairs.',
     ['probayes/pscales.py', 'probayes/prob.py'],
     [('scale evaluation and conversion', 'probayes/pscales.py: eval_pscale, rescale, prod_pscale, prod_rule, div_prob'),
      ('constant probabilities', 'probayes/prob.py: Prob.set_prob, Prob.rescale')],
     'all scale pairs/triples over a finite value alphabet')

prop('P02', 'Multiplying distributions gives the joint distribution (product rule)',
     'The product of compatible distributions assigns to every joint assignment the product of the '
     'factors\' probabilities at that assignment, with the union of their marginal variables on the '
     'left of the bar and the conditionals that no factor supplies on the right. This holds for every '
     'order of the factors, every axis layout (shared axes and scalars included), every mixture of '
     'probability scales and any requested output scale. Incompatible factors (clashing marginals, '
     'mismatched shared values) are refused.',
     ['inputs', 'configurations'], 'all factor families (chains, forks, colliders, independents, joint '
     'conditionals) x axis permutations x scalar/array choices x scales x operand orders within bounds',
     'Tests multiply a few fixed layouts; axis alignment errors only show for specific permutations.',
     ['probayes/pd_utils.py', 'probayes/pd.py', 'probayes/pscales.py'],
     [('axis matching and scale product', 'probayes/pd_utils.py: product'),
      ('operator', 'probayes/pd.py: PD.__mul__')],
     'all factor families of up to 3 factors and 4 variables')

prop('P03', 'Marginalising sums probability out exactly (sum rule)',
     'Marginalising variables out of a distribution, or asking for the marginal of some, yields the '
     'distribution over the remaining variables whose probability at each assignment is the sum over '
     'the removed ones, whatever the axis order, scale or order of removal, and leaves the operand '
     'unchanged. Log-scale distributions give accurate marginals even where the linear probabilities '
     'underflow or overflow. Requests to sum over conditional or scalar variables are refused.',
     ['inputs', 'configurations'], 'all layouts of up to 4 (thorough 5) variables over axes/scalars/sides of the bar, '
     'all scales, zero patterns and key sets',
     'Tests marginalise a few layouts; mis-numbered axes only show for particular layouts.',
     ['probayes/pd.py'], [('summation and axis renumbering', 'probayes/pd.py: PD.marginalise, PD.marginal')],
     'all layouts up to 4 variables (5 thorough)')

prop('P04', 'Conditioning and Bayes rule: conditional slices are normalised and correct',
     'Conditionalising a distribution, or dividing it by its marginal, yields for every value of the '
     'conditioned variables a distribution over the rest that sums to one and is proportional to the '
     'joint; multiplying back by the marginal restores the joint. Prior times likelihood conditioned '
     'on data equals the posterior by every route, on any mixture of scales, including log values far '
     'outside the linear range, and a slice of zero total yields zeros.',
     ['inputs', 'configurations'], 'all layouts, conditioning sets, scales and zero patterns within bounds',
     'Tests check one or two joints; normalisation axis errors need particular layouts.',
     ['probayes/pd.py', 'probayes/pscales.py'],
     [('normalisation', 'probayes/pd.py: PD.conditionalise'), ('division', 'probayes/pd.py: PD.__truediv__; probayes/pscales.py: div_prob')],
     'all layouts up to 4 variables; four Bayes routes')

prop('P05', 'Any sequence of distribution operations stays consistent and pure',
     'Applying any sequence of marginalise, marginal, conditionalise, divide, multiply, slice, sort, '
     'rename, re-order and rescale operations to a distribution gives at every step the distribution '
     'prescribed by the rules of probability. No operation modifies any distribution produced earlier '
     'in the sequence.',
     ['histories'], 'all operation sequences to depth 2 from every 2-3 variable layout, depth 3 (thorough 4) from selected ones',
     'Tests apply at most two or three operations in fixed order; state hidden in names, axis maps or '
     'scales surfaces only after particular sequences.',
     ['probayes/pd.py', 'probayes/pd_utils.py', 'probayes/distribution.py'],
     [('operations', 'probayes/pd.py: PD methods')],
     'breadth-first over all operation sequences to depth 2/3/4')

prop('P06', 'Slicing, lookup, sorting, renaming and re-ordering preserve the table',
     'Slicing at values keeps exactly the matching entries with the right values, names and axes; '
     'looking up, sorting by a variable, renaming variables (swaps included) and permuting axes never '
     'change which probability belongs to which assignment. The reported sizes, shapes, axis numbers '
     'and scalar flags always match the contents. Absent values give an empty result and unknown or '
     'colliding names are refused. However a name is written (in parentheses, or with values) the same '
     'variables are marginal and conditional.',
     ['inputs', 'configurations'], 'all layouts of up to 4 variables, all slice queries, lookups, renamings and axis permutations; all repeat patterns of length 3',
     'Tests use one or two layouts; axis renumbering errors depend on layout and query combination.',
     ['probayes/pd.py', 'probayes/distribution.py'],
     [('slicing', 'probayes/pd.py: PD.__call__'), ('layout', 'probayes/distribution.py: Distribution.dims, lookup, redim, rekey; probayes/pd.py: sorted, redim, rekey')],
     'all layouts and queries within bounds')

prop('P07', 'Expectations, quantiles, iid products and remarginalised masses are correct',
     'Expectations (and higher moments) over any subset of the marginal variables are the '
     'probability-weighted averages, per value of the variables left; quantiles of a sorted '
     'variable lie between the neighbouring values whose cumulative probabilities bracket the level. '
     'The product over independent repetitions along an axis multiplies those probabilities; '
     'remarginalising moves each mass to the bin of its mapped value and keeps conditionals; summing '
     'distributions concatenates them, all independently of scale and axis layout.',
     ['inputs', 'configurations'], 'all layouts of up to 3 variables, all scales, key subsets, exponents, weight patterns, levels, maps and chunkings within bounds',
     'Tests do not exercise these beyond single examples.',
     ['probayes/pd.py', 'probayes/pd_utils.py'],
     [('moments', 'probayes/pd.py: expectation, quantile'), ('products and maps', 'probayes/pd.py: prod, remarginalise; probayes/pd_utils.py: summate')],
     'all layouts/weights/maps within bounds')

prop('P08', 'Distributions survive storage round trips unchanged',
     'Serialising or writing any set of distributions to a file and reading them back yields, in the '
     'order stored, distributions equal in variables, values, axes, probabilities, scale and sides of '
     'the bar, with auxiliary arrays intact; storing them again is stable. Storing never modifies the '
     'distribution stored, and distributions that would overwrite one another are refused rather than lost.',
     ['inputs', 'histories'], 'all layouts of up to 3 variables x scales; all ordered selections of 2-3 of 8 distributions; all write/read histories to length 3 (4 thorough) over two files',
     'There are no storage tests.',
     ['probayes/pd_utils.py', 'probayes/pd.py', 'probayes/distribution.py'],
     [('storage', 'probayes/pd_utils.py: serialise, deserialise, write_serialised, read_serialised')],
     'all layouts, file selections and write/read histories within bounds')


def load_more():
  path = os.path.join(HERE, 'tools', 'catalog_more.py')
  if os.path.exists(path):
    exec(compile(open(path).read(), path, 'exec'), globals())


def main():
  import glob
  import re
  have = set()
  for path in glob.glob(os.path.join(HERE, 'mc', 'c_*.py')):
    m = re.search(r"^PROPERTY = '([A-Z]\d+)'", open(path).read(), re.M)
    if m:
      have.add(m.group(1))
  load_more()
  lines, checks, na = [], [], []
  for p in P:
    assert len(p['title']) <= 80, p['title']
    if p['id'] not in have:
      print('no check yet:', p['id'])
      continue
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                    'hook_needed': None}}))
    checks.append({'property': p['id'],
                   'quick_cmd': 'bash check.sh {} quick'.format(p['id']),
                   'thorough_cmd': 'bash check.sh {} thorough'.format(p['id']),
                   'technique': p['technique'] or DIRECT,
                   'level': 'model_checking', 'level_note': p['note']})
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    fh.write('\n'.join(lines) + '\n')
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump({'version': 1, 'setup_cmd': 'bash check.sh --setup', 'checks': checks,
               'not_applicable': na,
               'notes': 'No hooks in /repo: checks import /repo/probayes from its working tree and '
                        'drive its public interface.'}, fh, indent=1)
    fh.write('\n')


if __name__ == '__main__':
  main()
