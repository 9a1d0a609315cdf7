"""C25: results do not depend on the units of length and gap."""
from common import *

ID = 'C25'
LEVEL = 'exploration'
TECHNIQUE = 'metamorphic property-based testing, exact for powers of two'
NOTE = (
    'Random searches with all options are repeated in units which differ by '
    'powers of two, for which all rounding errors are the same: every '
    'evaluation, result, and cluster must be equal, bit by bit, after '
    'conversion.'
)
RULE = (
    'Lengths and gap values scaled by powers of two between 2**-40 and 2**40. '
    'Non-trivial: there are nodes, and the search refines or has rejected '
    'results.'
)
ASSUMPTIONS = [
    'Tolerances and cutoffs given in the minimization options are converted '
    'as well.'
]


@st.composite
def cases(draw):
    case = draw(search_cases(max_mesh=6, units=False))
    # no numbers which get lost in subnormal ones
    case['limits'] = [
        [round(x * 2**30) / 2**30 for x in lim] for lim in case['limits']
    ]
    for node in case['gap'].get('nodes', ()):
        node['frac'] = [round(x * 2**30) / 2**30 for x in node['frac']]
    case['length'] = draw(weighted(
        (1, 0), (4, st.integers(-12, 12)), (1, st.sampled_from([-40, 40]))
    ))
    case['value'] = draw(weighted(
        (1, 0), (3, st.integers(-12, 12)), (1, st.sampled_from([-40, 40]))
    ))
    case['method'] = draw(st.sampled_from(
        ['ballistic', 'dominating_set', 'shortest_path']
    ))
    case['resume'] = draw(weighted((4, False), (1, True)))
    return case


def scaled_result(res, length, value):
    """Content of a result, converted to the units of the first search."""
    hist = np.asarray(res.simplex_history) / length
    parts = [
        tuple(float(x) / length for x in res.pos), float(res.value) / value,
        bool(res.success), int(res.status), int(res.num_fev),
        int(res.num_iter), (hist + 0.).tobytes()
    ]
    if hasattr(res, 'fun_simplex_history'):
        parts.append(
            (np.asarray(res.fun_simplex_history) / value + 0.).tobytes()
        )
    return tuple(parts)


def outcome(case, length, value):
    func = make_gap(case['gap'], case['limits'], case['periodic'])
    gap = LoggedGap(
        lambda pos: func(tuple(x / length for x in pos)) * value, limit=300000
    )
    options = dict(case['nm'])
    if 'xtol' in options:
        options['xtol'] *= length
    if 'ftol' in options:
        options['ftol'] *= value
    if 'fprime_cutoff' in options:
        options['fprime_cutoff'] *= value / length
    kwargs = dict(
        limits=[tuple(x * length for x in lim) for lim in case['limits']],
        feature_size=case['feature_size'] * length,
        gap_threshold=case['threshold'] * value, nelder_mead_kwargs=options
    )
    if case['resume']:
        path = os.path.join(scratch_dir(), 'state.hdf5')
        run_search(case, gap=gap, save_file=path, **kwargs)
        kwargs.update(
            save_file=path, load=True, force_initial_mesh=True,
            use_fake_potential=True, simplex_check_cutoff=1
        )
    result, _ = run_search(case, gap=gap, **kwargs)
    calls = [tuple(x / length for x in c) for c in gap.calls]
    res = dict(
        evaluations=calls,
        nodes=[scaled_result(r, length, value) for r in result.nodes],
        rejected=[
            scaled_result(r, length, value) for r in result.rejected_results
        ],
        refined=[
            tuple(float(x) / length for x in p) for p in result.refined_results
        ],
        limits=(np.asarray(result.coordinate_system.limits) / length).tolist(),
        dist_cutoff=float(result.dist_cutoff) / length,
        threshold=float(result.gap_threshold) / value
    )
    return res, result


def run_case(case):
    length, value = 2.**case['length'], 2.**case['value']
    first, result = outcome(case, 1., 1.)
    second, scaled = outcome(case, length, value)
    for key, val in first.items():
        if val == second[key]:
            continue
        if isinstance(val, list) and len(val) == len(second[key]):
            idx = [i for i, (a, b) in enumerate(zip(val, second[key]))
                   if a != b][0]
            one, two = val[idx], second[key][idx]
        elif isinstance(val, list):
            idx, one, two = 'number', len(val), len(second[key])
        else:
            idx, one, two = 0, val, second[key]
        raise Violation(
            '{} [{}] are different with lengths multiplied by 2**{} and gap '
            'values by 2**{}: {} instead of {}'.format(
                key, idx, case['length'], case['value'], str(two)[:200],
                str(one)[:200]
            )
        )
    clusters = []
    if len(first['nodes']) <= 60:
        for res, unit in [(result, 1.), (scaled, length)]:
            found = nf.identify.run(res, evaluate_line_method=case['method'])
            clusters.append(set(
                frozenset(tuple(float(x) / unit for x in p)
                          for p in obj.positions) for obj in found
            ))
        require(
            clusters[0] == clusters[1], 'clusters are different with lengths '
            'multiplied by 2**{}', case['length']
        )
    labels = []
    if case['length']:
        labels.append('length')
    if case['value']:
        labels.append('value')
    if case['resume']:
        labels.append('resume')
    if case['fake']:
        labels.append('fake')
    if clusters and len(clusters[0]) > 1:
        labels.append('clusters')
    return Report(
        first['nodes'] and (first['refined'] or first['rejected']), labels,
        dict(evaluations=len(first['evaluations']))
    )


SUBS = [Sub('search', cases(), run_case, 480, 12000, shards=16)]
