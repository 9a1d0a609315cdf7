"""C02: coordinate conversions and connecting vectors."""
from common import *
from checks import c01_distance as c01

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = 'property-based testing with round-trip and lattice oracles'
NOTE = (
    'Random boxes and positions; conversions are compared to independent '
    'formulas and round trips.'
)
RULE = (
    'Boxes, positions and arrays as in C01. Non-trivial: the box has a lower limit '
    'other than zero or a size other than one, and (if periodic) one of the '
    'positions is outside of it.'
)
ASSUMPTIONS = c01.ASSUMPTIONS


def run_case(case):
    box = Box(case['limits'], case['periodic'])
    limits = [tuple(x) for x in case['limits']]
    cs = CoordinateSystem(limits=limits, periodic=case['periodic'])
    pts = [np.array(p, dtype=float) for p in case['positions']]
    lo, hi, size = (np.array(x) for x in (box.lo, box.hi, box.size))
    tol = 1e-9 * max(
        [abs(x) for p in pts for x in p] + box.size +
        [abs(x) for x in box.lo + box.hi]
    )
    ftol = tol / min(box.size)
    eps = 1e-15 * max(abs(x) for x in box.lo + box.hi + box.size)

    require(cs.dim == box.dim, 'wrong dimension {}', cs.dim)
    require(
        np.asarray(cs.limits).tolist() == [list(x) for x in zip(lo, hi)],
        'wrong limits {}', cs.limits
    )
    require(
        np.allclose(cs.size, size, rtol=1e-12, atol=0), 'wrong size {}',
        cs.size
    )

    def near_lattice(vec):
        vec = np.asarray(vec) / size
        return bool(np.all(np.abs(vec - np.round(vec)) <= ftol))

    outside = False
    for p in pts:
        inside = bool(np.all(p >= lo) and np.all(p <= hi))
        outside = outside or not inside
        frac = np.array(cs.get_frac(p))
        require(frac.shape == p.shape, 'wrong shape of fractional coordinates')
        back = np.array(cs.get_pos(frac))
        if box.periodic:
            require(
                np.all(frac >= 0) and np.all(frac <= 1),
                'fractional coordinates {} are not in [0, 1]', frac
            )
            require(
                near_lattice(back - p),
                'converting {} to fractional and back gives {}', p, back
            )
            expected = (p - lo) / size
            diff = frac - expected
            require(
                np.all(np.abs(diff - np.round(diff)) <= ftol),
                'fractional coordinates of {} are {}', p, frac
            )
        else:
            require(
                np.all(np.abs(back - p) <= tol),
                'converting {} to fractional and back gives {}', p, back
            )
            require(
                np.all(np.abs(frac - (p - lo) / size) <= ftol),
                'fractional coordinates of {} are {}', p, frac
            )
        norm = np.array(cs.normalize_position(p))
        if box.periodic:
            require(
                near_lattice(norm - p), '{} was normalized to {}', p, norm
            )
            require(
                np.all(norm >= lo - eps) and np.all(norm <= hi + eps),
                'normalized position {} is outside of the limits', norm
            )
            strict = np.all(p > lo + tol) and np.all(p < hi - tol)
            if strict:
                require(
                    np.all(np.abs(norm - p) <= tol),
                    'position {} inside the limits normalized to {}', p, norm
                )
            again = np.array(cs.normalize_position(norm))
            require(
                near_lattice(again - norm) and
                np.all(again >= lo - eps) and np.all(again <= hi + eps),
                'normalizing twice gives {}', again
            )
        else:
            require(
                np.array_equal(norm, p), 'open box: {} was normalized to {}',
                p, norm
            )
    # positions from fractional coordinates
    for frac, expected in ((np.zeros(box.dim), lo), (np.ones(box.dim), hi),
                           (np.full(box.dim, 0.5), lo + size / 2)):
        got = np.array(cs.get_pos(frac))
        require(
            np.all(np.abs(got - expected) <= tol),
            'fractional coordinates {} are at {}', frac, got
        )
    if not box.periodic:
        require(
            np.allclose(cs.get_frac(lo), 0, atol=ftol) and
            np.allclose(cs.get_frac(hi), 1, atol=ftol),
            'limits do not have fractional coordinates zero and one'
        )
    # several positions at once
    many = np.array(pts)
    for name in ('get_frac', 'get_pos', 'normalize_position'):
        func = getattr(cs, name)
        got = np.array(func(many))
        ref = np.array([func(p) for p in pts])
        require(
            got.shape == ref.shape and np.allclose(got, ref, rtol=1e-12,
                                                   atol=0),
            '{} of several positions is inconsistent', name
        )

    # connecting vectors
    for p in pts:
        for q in pts:
            vec = np.array(cs.connecting_vector(p, q))
            length = math.sqrt(float(np.sum(vec**2)))
            dist = c01.brute(box, p, q)
            require(
                abs(length - dist) <= tol,
                'connecting vector {} -> {} has length {}, distance {}', p, q,
                length, dist
            )
            end = p + vec - q
            require(
                near_lattice(end) if box.periodic else
                np.all(np.abs(end) <= tol),
                'connecting vector {} -> {} is {}', p, q, vec
            )
        vecs = np.array(cs.connecting_vector(p, many))
        require(vecs.shape == many.shape, 'wrong shape of connecting vectors')
        for vec, q in zip(vecs, pts):
            end = p + vec - q
            require(
                abs(math.sqrt(float(np.sum(vec**2))) - c01.brute(box, p, q))
                <= tol and
                (near_lattice(end) if box.periodic else
                 bool(np.all(np.abs(end) <= tol))),
                'connecting vectors to several positions are wrong'
            )
    unusual = any(x != 0 for x in box.lo) or any(x != 1 for x in box.size)
    return Report(
        unusual and (outside or not box.periodic),
        ['periodic' if box.periodic else 'open', 'dim%d' % box.dim] +
        (['outside'] if outside else [])
    )


def run_array(case):
    """Many positions."""
    box = Box(case['limits'], case['periodic'])
    cs = CoordinateSystem(
        limits=[tuple(x) for x in case['limits']], periodic=case['periodic']
    )
    pts, _ = c01.make_array(case)
    lo, size = np.array(box.lo), np.array(box.size)
    one = np.array(case['positions'][0])
    scale = max(
        [float(np.abs(pts).max()), float(np.abs(one).max())] + box.size +
        [abs(x) for x in box.lo + box.hi]
    )
    tol = 1e-9 * scale / size

    def same(got, exp, what, periodic=box.periodic):
        diff = (np.asarray(got) - exp) / size
        require(diff.shape == pts.shape, 'wrong shape of {}', what)
        if periodic:
            diff = diff - np.round(diff)
        require(np.all(np.abs(diff) <= tol), 'wrong {} of an array', what)

    def inside(got, what):
        if box.periodic:
            frac = (np.asarray(got) - lo) / size
            require(
                np.all(frac >= -tol) and np.all(frac <= 1 + tol),
                '{} of an array are outside of the limits', what
            )

    frac = cs.get_frac(pts)
    same(lo + np.asarray(frac) * size, pts, 'fractional coordinates')
    inside(lo + np.asarray(frac) * size, 'fractional coordinates')
    same(cs.get_pos(frac), pts, 'positions')
    norm = cs.normalize_position(pts)
    same(norm, pts, 'normalized positions')
    inside(norm, 'normalized positions')
    for start in (one, pts[::-1]):
        vec = np.asarray(cs.connecting_vector(start, pts))
        same(start + vec, pts, 'connecting vectors')
        if box.periodic:
            require(
                np.all(np.abs(vec) / size <= 0.5 + tol),
                'connecting vectors of an array are not the shortest ones'
            )
    return Report(True, ['periodic' if box.periodic else 'open'])


SUBS = [
    Sub('arrays', c01.array_cases(), run_array, 160, 4000),
    Sub('conversions', c01.cases(), run_case, 4800, 100000),
]
