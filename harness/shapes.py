"""Dense samples of points, lines, surfaces and volumes."""
from common import *

# dimension and, for lines, whether the line is closed
KINDS = {
    'point': (0, None),
    'circle': (1, True),
    'knot': (1, True),
    'ploop': (1, True),
    'segment': (1, False),
    'arc': (1, False),
    'helix': (1, False),
    'plane': (2, None),
    'sphere': (2, None),
    'pplane': (2, None),
    'cube': (3, None),
    'ball': (3, None),
}


@st.composite
def shape_cases(draw, kinds=None):
    dim = draw(weighted((1, 1), (4, 2), (5, 3)))
    options = [
        k for k in (kinds or KINDS) if KINDS[k][0] <= dim and
        not (dim == 1 and k not in ('point', 'segment', 'ploop')) and
        not (dim == 2 and k in ('helix', 'sphere', 'pplane', 'knot'))
    ]
    if not options:
        dim = 3
        options = list(kinds)
    kind = draw(st.sampled_from(options))
    periodic = draw(weighted((2, True), (1, False)))
    if kind in ('ploop', 'pplane'):
        periodic = True
    unit = draw(st.sampled_from([1., 1., 1e-3, 1e3, 2**-20, 7.]))
    return dict(
        kind=kind, dim=dim, periodic=periodic, unit=unit,
        low=[draw(st.sampled_from([0., -0.5, 1., -3.])) for _ in range(dim)],
        # relative to the largest extent of the feature
        margin=[draw(floats(0.7, 1.5)) for _ in range(dim)],
        density=draw(floats(3., 6.)),
        noise=draw(st.sampled_from([0., 0.001, 0.01])),
        jitter=draw(st.booleans()),
        # size of the feature in units of the feature size
        extent=draw(floats(0., 1.)),
        center=[draw(weighted(
            (3, floats(0, 1)), (1, st.sampled_from([0., 1., 0.5]))
        )) for _ in range(dim)],
        aligned=draw(weighted((3, False), (1, True))),
        fold=draw(weighted((4, True), (1, False))),
        seed=draw(st.integers(0, 2**32)),
    )


def curve(num, jitter, rng, closed):
    """Equally spaced parameters in [0, 1), with some jitter."""
    s = np.arange(num, dtype=float)
    if jitter:
        s = s + rng.uniform(-0.5, 0.5, num)
    if closed:
        return s / num
    return np.clip(s / max(1, num - 1), 0, 1)


def make_shape(case):
    """
    Returns the positions, limits and feature size.
    """
    rng = np.random.default_rng(case['seed'])
    kind, dim = case['kind'], case['dim']
    rot = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
    if case['aligned']:
        rot = np.eye(dim)[rng.permutation(dim)]
    # everything in units of the feature size
    density, ext, jitter = case['density'], case['extent'], case['jitter']
    cell = None
    full = np.zeros(dim)
    if kind == 'point':
        num = int(1 + 29 * ext)
        pts = rng.uniform(-0.02, 0.02, (num, dim))
        cell = 6.
    elif kind == 'segment':
        length = 5 + 10 * ext
        s = curve(int(length * density) + 1, jitter, rng, False)
        pts = np.outer((s - 0.5) * length, rot[0])
        cell = length + 3
    elif kind in ('circle', 'arc'):
        radius = 2.5 + 3 * ext
        # opening of the arc of at least three feature sizes
        frac = 1. if kind == 'circle' else 0.75 - 0.3 * rng.uniform()
        s = curve(
            int(2 * np.pi * radius * frac * density) + 1, jitter, rng,
            kind == 'circle'
        ) * frac * 2 * np.pi
        pts = radius * (np.outer(np.cos(s), rot[0]) +
                        np.outer(np.sin(s), rot[1]))
        cell = 2 * radius + 3
    elif kind == 'knot':
        # wobbling circle
        radius = 4 + 2 * ext
        s = curve(
            int(2 * np.pi * radius * 1.2 * density), jitter, rng, True
        ) * 2 * np.pi
        pts = radius * (np.outer(np.cos(s), rot[0]) +
                        np.outer(np.sin(s), rot[1]) +
                        np.outer(0.25 * np.sin(2 * s), rot[2]))
        cell = 2 * radius + 3
    elif kind == 'helix':
        radius, pitch = 2.5, 4.
        turns = 0.8 + ext
        length = turns * np.hypot(2 * np.pi * radius, pitch)
        s = curve(int(length * density) + 1, jitter, rng, False) * turns
        pts = (
            np.outer(radius * np.cos(2 * np.pi * s), rot[0]) +
            np.outer(radius * np.sin(2 * np.pi * s), rot[1]) +
            np.outer(pitch * (s - turns / 2), rot[2])
        )
        cell = 2 * radius + pitch * turns + 3
    elif kind == 'ploop':
        # winds around the box
        cell = 14 + 8 * ext
        s = curve(int(1.2 * cell * density) + 1, jitter, rng, True)
        axis = int(rng.integers(dim))
        pts = np.zeros((len(s), dim))
        pts[:, axis] = s * cell
        if dim > 1:
            pts[:, (axis + 1) % dim] = 0.05 * cell * np.sin(2 * np.pi * s)
        full[axis] = 1
    elif kind == 'plane':
        length = 4.
        num = int((length * density)**2)
        q = rng.uniform(-length / 2, length / 2, (num, 2))
        pts = q @ rot[:2]
        cell = 1.5 * length + 3
    elif kind == 'pplane':
        cell = 4.5
        density = min(density, 4.5)
        num = int((cell * density)**2)
        axis = int(rng.integers(3))
        pts = rng.uniform(0, cell, (num, 3))
        pts[:, axis] = 0.
        full[:] = 1
        full[axis] = 0
    elif kind == 'sphere':
        radius = 2.
        num = int(4 * np.pi * (radius * min(density, 4.))**2)
        pts = rng.normal(size=(num, 3))
        pts *= radius / np.linalg.norm(pts, axis=-1)[:, None]
        cell = 2 * radius + 3
    elif kind in ('cube', 'ball'):
        length = 2.5
        num = int(min((length * density)**3, 1000))
        pts = rng.uniform(-length / 2, length / 2, (2 * num, 3))
        if kind == 'ball':
            length = 3.
            pts *= 1.2
            pts = pts[np.linalg.norm(pts, axis=-1) <= length / 2]
        pts = pts[:num] @ rot
        cell = 1.8 * length + 3
    else:
        raise ValueError(kind)
    pts = pts + rng.normal(size=pts.shape) * case['noise']
    rng.shuffle(pts)
    # the largest distance in a periodic box must be that within the cell
    sizes = np.array([
        cell if f else cell * max(1., m + 0.3)
        for f, m in zip(full, case['margin'])
    ])
    low = np.array(case['low']) * cell
    center = low + sizes * np.array(case['center'])
    pts = pts + center
    if case['periodic'] and case['fold']:
        pts = (pts - low) % sizes + low
    unit = case['unit']
    limits = [
        (float(lo * unit), float((lo + s) * unit)) for lo, s in
        zip(low, sizes)
    ]
    return [tuple(float(x) for x in p * unit) for p in pts], limits, unit
