"""
Planted bugs: changes of the code under test which break a property, each with
a demonstration. See ``plant.py``. Not used by any check.
"""

BUGS = []
N = 'nodefinder/'


def bug(id_, edits, needs, breaks, demo, also=()):
    BUGS.append(dict(
        id=id_, property=id_.split('-')[0],
        edits=[(N + path, old, new) for path, old, new in edits],
        needs=needs, breaks=breaks, demo=demo, also=also))


# ---------------------------------------------------------------- C01, C02
CS = 'coordinate_system.py'

bug('C01-far-images', [(CS, '''            delta = (pos2 - pos1) % self.size
            delta = np.minimum(''', '''            delta = np.abs(pos2 - pos1)
            delta = np.minimum(''')],
    'periodic box, positions more than one and a half box lengths apart',
    'distance is not the minimum image distance',
    '''
import numpy as np
from nodefinder.coordinate_system import CoordinateSystem
c = CoordinateSystem(limits=[(0, 1), (0, 1)], periodic=True)
d = c.distance(np.array([0.1, 0.2]), np.array([2.2, 0.2]))
assert abs(d - 0.1) < 1e-9, d
''')

bug('C01-anisotropic', [(CS, 'delta = np.minimum(self.size - delta, delta)',
                         'delta = np.minimum(self.size.max() - delta, delta)')],
    'periodic box with different lengths, shortest path across a shorter side',
    'distance across the boundary of a short side is too long',
    '''
import numpy as np
from nodefinder.coordinate_system import CoordinateSystem
c = CoordinateSystem(limits=[(0, 1), (0, 3)], periodic=True)
d = c.distance(np.array([0.1, 0.2]), np.array([0.9, 0.2]))
assert abs(d - 0.2) < 1e-9, d
''')

bug('C01-limits-order', [(CS, 'np.array([sorted(x) for x in limits])',
                          'np.array([tuple(x) for x in limits])')],
    'limits of a dimension given with the upper one first',
    'distances depend on the order of the limits',
    '''
import numpy as np
from nodefinder.coordinate_system import CoordinateSystem
c = CoordinateSystem(limits=[(1, 0), (0, 1)], periodic=True)
d = c.distance(np.array([0.1, 0.2]), np.array([0.2, 0.2]))
assert abs(d - 0.1) < 1e-9, d
''')

bug('C02-frac-trunc', [(CS, '            frac %= 1\n',
                        '            frac = frac - np.trunc(frac)\n')],
    'periodic box, position below the lower limit',
    'fractional coordinates are negative',
    '''
import numpy as np
from nodefinder.coordinate_system import CoordinateSystem
c = CoordinateSystem(limits=[(0, 1), (0, 1)], periodic=True)
f = c.get_frac(np.array([-0.25, 0.5]))
assert np.all(f >= 0), f
''')

bug('C02-joint-wrap', [(CS,
    'res = np.where(-delta_negative < delta, delta_negative, delta)',
    '''res = np.where(
                np.sum(delta_negative**2, axis=-1, keepdims=True) <
                np.sum(delta**2, axis=-1, keepdims=True),
                delta_negative, delta
            )''')],
    'periodic box, vector which crosses the boundary in one direction only',
    'the connecting vector is longer than the distance',
    '''
import numpy as np
from nodefinder.coordinate_system import CoordinateSystem
c = CoordinateSystem(limits=[(0, 1), (0, 1)], periodic=True)
a, b = np.array([0.1, 0.1]), np.array([0.9, 0.3])
v = c.connecting_vector(a, b)
assert abs(np.linalg.norm(v) - c.distance(a, b)) < 1e-9, v
''')

bug('C02-normalize-offset', [(CS,
    '''            return ((pos - self._lower_limits) %
                    self.size) + self._lower_limits''',
    '''            return np.where(
                (pos < self._lower_limits) | (pos > self._upper_limits),
                pos % self.size, pos
            )''')],
    'periodic box whose lower limit is no multiple of its size, outside position',
    'a normalized position is outside of the limits',
    '''
import numpy as np
from nodefinder.coordinate_system import CoordinateSystem
c = CoordinateSystem(limits=[(-0.5, 0.5), (-0.5, 0.5)], periodic=True)
p = c.normalize_position(np.array([0.75, 1.9]))
assert np.all(p >= -0.5) and np.all(p <= 0.5), p
''')

# ---------------------------------------------------------------- C03
SRC = 'search/result/_search_result_container.py'
CTL = 'search/_controller.py'
NM = 'search/_minimization/_nelder_mead.py'
MRUN = 'search/_minimization/_run.py'

bug('C03-threshold-equal', [(SRC,
    'if not res.success or res.value > self.gap_threshold:',
    'if not res.success or res.value >= self.gap_threshold:')],
    'a minimum with exactly the value of the threshold (e.g. threshold zero)',
    'results at the threshold are rejected',
    '''
import numpy as np
from nodefinder.search import run
r = run(lambda x: float(max(abs(x[0] - .5), .25)), limits=[(0, 1)], gap_threshold=0.25,
        feature_size=0.1, initial_mesh_size=3, refinement_stencil=None)
assert len(r.nodes) == 3, len(r.nodes)
''')

bug('C03-aborted-nodes', [(SRC,
    'if not res.success or res.value > self.gap_threshold:',
    'if res.status in (1, 2) or res.value > self.gap_threshold:')],
    'a minimization aborted by the derivative cutoff below the threshold',
    'unconverged results are reported as nodes',
    '''
import numpy as np
from nodefinder.search import run
r = run(lambda x: float(np.sum(np.abs(x - .3)) + .1), limits=[(0, 1)] * 2,
        gap_threshold=1, feature_size=0.05, initial_mesh_size=2,
        refinement_stencil=None, nelder_mead_kwargs={'fprime_cutoff': .5})
assert all(n.success for n in r.nodes)
''')

bug('C03-order-status', [(NM, '''    warnflag = 0

    if fcalls[0] >= maxfun:''', '''    warnflag = 0

    if fcalls[0] > maxfun:''')],
    'the evaluation limit is reached exactly when it has not converged',
    'a minimization stopped by the limit counts as converged',
    '''
import numpy as np
from nodefinder.search import run
for limit in range(4, 12):
    r = run(lambda x: float(np.sum((x - .3)**2)), limits=[(0, 1)] * 2,
            gap_threshold=1, feature_size=0.001, initial_mesh_size=2,
            refinement_stencil=None, nelder_mead_kwargs={'maxfev': limit})
    assert not r.nodes.values(), limit
''', also=['C04'])

bug('C03-rejected-outside', [
    (SRC, '            self.rejected_results.append(res)\n            return False',
     '            res.pos = raw_pos\n            self.rejected_results.append(res)\n            return False'),
    (SRC, '''        res.pos = self.coordinate_system.normalize_position(res.pos)
''', '''        raw_pos = res.pos
        res.pos = self.coordinate_system.normalize_position(raw_pos)
''')],
    'a rejected result whose minimization ended outside of a periodic box',
    'positions of rejected results are outside of the limits',
    '''
import numpy as np
from nodefinder.search import run
r = run(lambda x: float(np.sum(np.cos(2 * np.pi * (x - .4)) + 2)), limits=[(0, 1)] * 2,
        gap_threshold=1e-3, feature_size=0.1, initial_mesh_size=4, refinement_stencil=None)
r2 = run(lambda x: float(np.sum(np.cos(2 * np.pi * (x - .46)) + 2)), limits=[(0, 1)] * 2,
        gap_threshold=1e-3, feature_size=0.1, initial_mesh_size=3, refinement_stencil=None)
for res in r.minimization_results + r2.minimization_results:
    assert np.all(res.pos >= 0) and np.all(res.pos <= 1), res.pos
''')

# ---------------------------------------------------------------- C04
bug('C04-fprime-edges', [(NM,
    'p2 - p1 for p1, p2 in itertools.combinations(sim, r=2)',
    'p2 - sim[0] for p2 in sim[1:]')],
    'derivative cutoff, longest edge opposite to the best vertex',
    'the cutoff uses the longest edge at the best vertex only',
    '''
import numpy as np
from nodefinder.search import run
# equilateral directions: best vertex is the corner, longest edge opposite
r = run(lambda x: float(x[0] + x[1] + 1), limits=[(0, 1)] * 2, periodic=False, gap_threshold=1e-3,
        feature_size=.03, initial_mesh_size=1, refinement_stencil=None,
        nelder_mead_kwargs={'fprime_cutoff': 1.7})
res, = r.minimization_results
# value / longest edge at the start: 1 / sqrt(.5) = 1.41 <= 1.7 < 1 / .5
assert len(res.simplex_history) > 1
''')

bug('C04-default-maxfev', [(NM, '''    if maxfun is None:
        maxfun = N * 200''', '''    if maxfun is None:
        maxfun = maxiter''')],
    'an iteration limit without an evaluation limit',
    'stops before the iteration limit, with the wrong status',
    '''
import numpy as np
from nodefinder.search import run
r = run(lambda x: float(np.sum((x - .3)**2)), limits=[(0, 1)] * 2, gap_threshold=1e-9,
        feature_size=1e-9, initial_mesh_size=2, refinement_stencil=None,
        nelder_mead_kwargs={'maxiter': 20})
for res in r.minimization_results:
    assert res.status == 2 and res.num_iter == 20, (res.status, res.num_iter)
''')

# ---------------------------------------------------------------- C05
Q = 'search/_queue.py'
bug('C05-rounded-simplices', [(Q, 'tuple(sorted(tuple(coord) for coord in simplex))',
                               'tuple(sorted(tuple(np.round(coord, 9)) for coord in simplex))')],
    'boxes or features which are very small',
    'starting simplices are changed or merged',
    '''
import numpy as np
from nodefinder.search import run
r = run(lambda x: float(np.sum(np.abs(x))) + 1, limits=[(0, 1e-9)] * 2, gap_threshold=.1,
        feature_size=1e-10, initial_mesh_size=5, refinement_stencil=None)
assert len(r.minimization_results) == 25, len(r.minimization_results)
''')

bug('C05-count-every-node', [(CTL, '''                    if count > self.simplex_check_cutoff:
                        return False
                    break
''', '''                    if count > self.simplex_check_cutoff:
                        return False
''')],
    'simplex_check_cutoff of at least one, several nodes close to one vertex',
    'simplices with few enough close vertices are skipped',
    '''
import numpy as np
from nodefinder.search import run
def gap(x):
    return 0.
starts = [[[.5, .5], [.8, .5], [.5, .8]]]
from nodefinder.search.result import *
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search._queue import SimplexQueue, PositionQueue
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
res = [MinimizationResult(pos=np.array([.5 + d, .5]), value=0., success=True, status=0, message='', num_fev=1, num_iter=1,
       simplex_history=np.zeros((1, 3, 2)), fun_simplex_history=np.zeros((1, 3))) for d in (.01, .02, .03)]
state = ControllerState(result=SearchResultContainer(coordinate_system=cs, minimization_results=res, gap_threshold=.1, dist_cutoff=.1),
    simplex_queue=SimplexQueue(starts), position_queue=PositionQueue())
r = run(gap, limits=[(0, 1)] * 2, initial_state=state, gap_threshold=.1, feature_size=.3,
        simplex_check_cutoff=1, refinement_stencil=None)
assert len(r.minimization_results) == 4, len(r.minimization_results)
''')

bug('C05-check-cutoff-equal', [(CTL, 'if count > self.simplex_check_cutoff:',
                                'if count > min(self.simplex_check_cutoff, self.dim - 1):')],
    'simplex_check_cutoff so large that no simplex may be skipped',
    'simplices with all vertices close to nodes are skipped nevertheless',
    '''
import numpy as np
from nodefinder.search import run
r = run(lambda x: 0., limits=[(0, 1)] * 2, gap_threshold=.1, feature_size=.3, initial_mesh_size=20,
        simplex_check_cutoff=3, refinement_stencil=None, num_minimize_parallel=1)
assert len(r.minimization_results) == 400, len(r.minimization_results)
''')

# ---------------------------------------------------------------- C06
bug('C06-cutoff-factor', [(CTL, '''            if dist < self.dist_cutoff:
                count += 1
            if count > count_cutoff:''', '''            if dist < _DIST_CUTOFF_FACTOR * self.dist_cutoff:
                count += 1
            if count > count_cutoff:''')],
    'nodes between one and two distance cutoffs from a refined position',
    'nodes without refinement within the distance cutoff',
    '''
import numpy as np
from nodefinder.search import run
r = run(lambda x: 0., limits=[(0, 1)], periodic=False, gap_threshold=.1, feature_size=.3, initial_mesh_size=8,
        simplex_check_cutoff=3, refinement_stencil=np.array([[[4.], [5.]]]))
ref = [float(p[0]) for p in r.refined_results]
for n in r.nodes:
    p = float(n.pos[0])
    assert not 0 <= p <= 1 or min(abs(p - q) for q in ref) < .1 + 1e-9, (p, ref)
''')

bug('C06-recheck-wrong-cutoff', [(CTL, 'count_cutoff=self.recheck_count_cutoff\n',
                                  'count_cutoff=self.simplex_check_cutoff\n')],
    'different recheck_count_cutoff and simplex_check_cutoff',
    'refined positions overlap, or nodes are not refined',
    '''
import numpy as np
from nodefinder.search import run
r = run(lambda x: 0., limits=[(0, 1)], periodic=False, gap_threshold=.1, feature_size=.3, initial_mesh_size=40,
        simplex_check_cutoff=2, refinement_stencil=np.array([[[4.], [5.]]]))
ref = [float(p[0]) for p in r.refined_results]
for i, p in enumerate(ref):
    assert not any(abs(p - q) < .1 - 1e-9 for q in ref[:i]), ref
''')

bug('C06-count-first', [(CTL, '''            if count > count_cutoff:
                return False
        return True

    def _check_simplex''', '''            if count > count_cutoff:
                return False
        return count == 0 or count_cutoff > 1

    def _check_simplex''')],
    'recheck_count_cutoff of one and refined positions with one close neighbour',
    'positions which may be refined are discarded',
    '''
import numpy as np
from nodefinder.search import run
def count(cutoff):
    r = run(lambda x: 0., limits=[(0, 1)], periodic=True, gap_threshold=.1, feature_size=.3, initial_mesh_size=41,
            simplex_check_cutoff=2, recheck_count_cutoff=cutoff, num_minimize_parallel=100, refinement_stencil=np.array([[[.61], [.72]]]))
    return r
r = count(1)
ref = [float(p[0]) for p in r.refined_results]
close = [sum(1 for q in ref[:i] if min((p - q) % 1, (q - p) % 1) < .1 - 1e-9) for i, p in enumerate(ref)]
assert max(close) == 1, close
''')

# ---------------------------------------------------------------- C07
bug('C07-slow-start', [(CTL, '''                while (
                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel
                ):
                    while not''', '''                for _ in range(
                    min(
                        8, self.num_minimize_parallel -
                        self.state.simplex_queue.num_running
                    )
                ):
                    if len(self.task_futures) >= 20:
                        break
                    while not''')],
    'more than 20 parallel minimizations',
    'fewer minimizations are in progress than requested',
    '''
import asyncio
import numpy as np
from nodefinder.search import run
now, most = 0, 0
async def gap(x):
    global now, most
    now += 1
    most = max(most, now)
    await asyncio.sleep(.01)
    now -= 1
    return float(np.sum((x - .3)**2))
run(gap, limits=[(0, 1)] * 2, gap_threshold=.1, feature_size=.3, initial_mesh_size=8, refinement_stencil=None,
    num_minimize_parallel=40, nelder_mead_kwargs={'maxiter': 5})
assert most == 120, most
''')


bug('C04-tie', [(NM, 'if fxc <= fxr:', 'if fxc < fxr:')],
    'equal values at the reflected and contracted points (plateaus)',
    'shrinks where the method contracts',
    '''
import numpy as np
from nodefinder.search import run
# start (0, 0), (.5, 0), (0, .5) with values 0, 1, 3; reflection (.5, -.5) and
# contraction (.375, -.25) both have value 2: contraction accepted
calls = []
def gap(x):
    calls.append(tuple(x))
    if tuple(x) == (0, 0):
        return 0.
    if tuple(x) == (.5, 0):
        return 1.
    if tuple(x) == (0, .5):
        return 3.
    return 2.
r = run(gap, limits=[(0, 1)] * 2, periodic=False, gap_threshold=1e-3, feature_size=.03, initial_mesh_size=1,
        refinement_stencil=None, nelder_mead_kwargs={'maxiter': 2})
res, = r.minimization_results
assert res.num_fev == 5, res.num_fev
''')

STATE = r"""
import asyncio, os, sys, tempfile, shutil
import numpy as np
import nodefinder as nf
from nodefinder.search import run
from nodefinder.search.result import *
from nodefinder.coordinate_system import CoordinateSystem
from nodefinder.search._queue import SimplexQueue, PositionQueue
from nodefinder import io
def result(pos, value=0., success=True, **kw):
    pos = np.array(pos, dtype=float)
    d = len(pos)
    return MinimizationResult(**dict(dict(pos=pos, value=value, success=success, status=0 if success else 1, message='m',
        num_fev=3, num_iter=1, simplex_history=np.arange((d + 1) * d * 1.).reshape(1, d + 1, d),
        fun_simplex_history=np.zeros((1, d + 1))), **kw))
def state(limits=((0, 1),) * 2, periodic=True, results=(), simplices=(), positions=(), refined=(), thr=.1, cutoff=.1):
    cs = CoordinateSystem(limits=limits, periodic=periodic)
    return ControllerState(
        result=SearchResultContainer(coordinate_system=cs, minimization_results=results, gap_threshold=thr, dist_cutoff=cutoff, refined_results=refined),
        simplex_queue=SimplexQueue(simplices), position_queue=PositionQueue(positions))
folder = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, folder)
path = os.path.join(folder, 'save.hdf5')
"""

# ---------------------------------------------------------------- C08
bug('C08-running-lost', [(Q,
    'return list(self._running_objects) + super().objects',
    'return super().objects or list(self._running_objects)')],
    'state saved while minimizations are running and others queued',
    'simplices being minimized are not in the saved state',
    STATE + """
states = []
count = 0
def gap(x):
    global count
    count += 1
    if count == 60:
        raise KeyError
    return float(np.sum((x - .3)**2))
try:
    run(gap, limits=[(0, 1)] * 2, gap_threshold=1e-3, feature_size=.03, initial_mesh_size=4, refinement_stencil=None,
        num_minimize_parallel=3, save_file=path)
except KeyError:
    pass
s = io.load(path)
assert len(s.result.minimization_results) + len(s.simplex_queue.objects) == 16
""")

bug('C08-threshold-kept', [(CTL, """                gap_threshold=gap_threshold,
                dist_cutoff=dist_cutoff,
                refined_results""", """                gap_threshold=max(
                    gap_threshold, initial_state.result.gap_threshold
                ),
                dist_cutoff=dist_cutoff,
                refined_results""")],
    'resuming with a smaller gap threshold than before',
    'results above the new threshold are still nodes',
    STATE + """
s = state(results=[result([.5, .5], value=.05)])
r = run(lambda x: 1., limits=[(0, 1)] * 2, initial_state=s, gap_threshold=.01, feature_size=.3)
assert len(r.nodes) == 0
""")

bug('C08-force-mesh-saved', [(CTL, "            if force_initial_mesh:\n",
    "            if force_initial_mesh or not simplex_queue.has_queued:\n")],
    'resuming a state whose simplex queue is empty',
    'the initial mesh is run again when resuming a finished search',
    STATE + """
calls = []
def gap(x):
    calls.append(1)
    return float(np.sum((x - .3)**2)) + 1
kw = dict(limits=[(0, 1)] * 2, gap_threshold=1e-3, feature_size=.03, initial_mesh_size=2, save_file=path)
run(gap, **kw)
calls.clear()
run(gap, load=True, **kw)
assert not calls
""")

bug('C08-load-quiet', [(CTL, """            except IOError as exc:
                if not load_quiet:
                    raise exc""", """            except IOError as exc:
                if not load_quiet or os.path.exists(self.save_file):
                    raise exc
                initial_state = None
                force_initial_mesh = True""")],
    'a save file which is not readable, with load_quiet',
    'loading raises an error despite load_quiet',
    STATE + """
with open(path, 'w') as f:
    f.write('nothing')
run(lambda x: float(np.sum((x - .3)**2)) + 1, limits=[(0, 1)] * 2, gap_threshold=1e-3, feature_size=.03, initial_mesh_size=2, save_file=path, load=True)
""")

bug('C08-pending-positions', [(CTL, "                objects=initial_state.position_queue.objects\n",
    "                objects=[\n                    pos for pos in initial_state.position_queue.objects\n"
    "                    if not any(np.array_equal(pos, node.pos) for node in result.nodes)\n                ]\n")],
    'resuming with positions waiting for refinement',
    'waiting positions of known nodes are not refined',
    STATE + """
s = state(results=[result([.5, .5])], positions=[[.5, .5]])
r = run(lambda x: 1., limits=[(0, 1)] * 2, initial_state=s, gap_threshold=.1, feature_size=.3)
assert len(r.refined_results) == 1
""")

# ---------------------------------------------------------------- C09
bug('C09-copy', [(CTL, 'os.rename(tmpf.name, self.save_file)',
    "with open(tmpf.name, 'rb') as src, open(self.save_file, 'wb') as dest:\n"
    "                        dest.write(src.read())\n                    os.remove(tmpf.name)")],
    'a crash or another process reading while the file is written',
    'the save file is overwritten in place',
    STATE + """
kw = dict(limits=[(0, 1)] * 2, gap_threshold=1e-3, feature_size=.03, initial_mesh_size=2, save_file=path)
gap = lambda x: float(np.sum((x - .3)**2)) + 1
run(gap, **kw)
other = os.path.join(folder, 'link')
os.link(path, other)
before = open(other, 'rb').read()
run(gap, **dict(kw, initial_mesh_size=3))
assert open(other, 'rb').read() == before
""")

bug('C09-leftover', [(CTL, """                    io.save(self.state, tmpf.name)
                    os.rename(tmpf.name, self.save_file)
                    self.state.needs_saving = False
                except BaseException:
                    os.remove(tmpf.name)
                    raise
""", """                    io.save(self.state, tmpf.name)
                except BaseException:
                    os.remove(tmpf.name)
                    raise
                os.rename(tmpf.name, self.save_file)
                self.state.needs_saving = False
""")],
    'a save which fails when replacing the old file',
    'a temporary file is left in the folder',
    STATE + """
sub = os.path.join(folder, 'sub')
os.makedirs(os.path.join(sub, 'save', 'full'))
try:
    run(lambda x: 1., limits=[(0, 1)] * 2, gap_threshold=1e-3, feature_size=.03, initial_mesh_size=2, save_file=os.path.join(sub, 'save'))
except OSError:
    pass
assert os.listdir(sub) == ['save'], os.listdir(sub)
""")

bug('C09-final-state', [(Q, """        self._running_objects.remove(obj)
        self.needs_saving = True
""", """        self._running_objects.remove(obj)
        self.needs_saving = self.has_queued
""")],
    'the last minimizations end after the last periodic save',
    'the final state is not saved',
    STATE + """
r = run(lambda x: float(np.sum((x - .3)**2)), limits=[(0, 1)] * 2, gap_threshold=1e-3, feature_size=.03, initial_mesh_size=2,
    refinement_stencil=None, save_file=path, save_delay=0)
s = io.load(path)
assert len(s.result.minimization_results) == 4 and not s.simplex_queue.objects
""")

# ---------------------------------------------------------------- C10
CL = 'search/result/_cell_list.py'
bug('C10-upper-cells', [(CL, 'if np.all(i >= 0) and np.all(i < self._total_num_cells)',
                         'if np.all(i >= 0) and np.all(i <= self.num_cells)')],
    'non-periodic box, neighbours beyond the upper limit',
    'nodes above the upper limit are not found as neighbours',
    STATE + """
r = state(periodic=False, results=[result([.5, 1.02])]).result
assert len(list(r.get_neighbour_distance_iterator(np.array([.5, .98])))) == 1
""")

bug('C10-round-up', [(SRC, """                    np.array(
                        self.coordinate_system.size / self.dist_cutoff,
                        dtype=int
                    )
""", """                    np.array(
                        np.around(self.coordinate_system.size / self.dist_cutoff),
                        dtype=int
                    )
""")],
    'a box size just below a multiple of the distance cutoff',
    'cells are smaller than the cutoff, such that neighbours are missed',
    STATE + """
r = state(limits=[(0, 0.96)], results=[result([.09])], cutoff=.1).result
found = [list(state(limits=[(0, 0.96)], results=[result([x])], cutoff=.1).result.get_neighbour_distance_iterator(np.array([x + .0995]))) for x in np.linspace(0, .9, 200)]
assert all(found)
""")

bug('C10-distance-order', [(SRC, "        positions = np.array([c.pos for c in candidates])\n",
    "        positions = np.array(\n            list(dict.fromkeys(tuple(c.pos) for c in candidates))\n        )\n")],
    'two nodes at exactly the same position',
    'the distances to equal nodes are reported only once',
    STATE + """
r = state(results=[result([.5, .5]), result([.5, .5])]).result
assert len(r.get_all_neighbour_distances(np.array([.5, .52]))) == 2
""")

# ---------------------------------------------------------------- C11
SHP = 'identify/result/_shapes.py'
CON = 'identify/result/_containers.py'

bug('C11-isolated-nodes', [(SHP, """        graph.add_nodes_from([tuple(n) for n in graph_group['nodes']])
        if 'edges' in graph_group:""", """        if 'edges' not in graph_group:
            graph.add_nodes_from([tuple(n) for n in graph_group['nodes']])
        else:""")],
    'a line whose graph has edges and also an isolated vertex',
    'isolated vertices are lost when loading',
    STATE + """
import networkx as nx
from nodefinder.identify.result import NodalLine
g = nx.Graph()
g.add_edge((0., 0.), (0., 1.))
g.add_node((2., 2.))
from collections import Counter
io.save(NodalLine(graph=g, degree_count=Counter({1: 2, 0: 1})), path)
assert set(io.load(path).graph.nodes) == set(g.nodes)
""")

bug('C11-no-dimension', [(CON, "to_hdf5(self.dimension, hdf5_handle.create_group('dimension'))",
    "to_hdf5(self.dimension or 0, hdf5_handle.create_group('dimension'))")],
    'an object whose dimension could not be identified',
    'no dimension is loaded as dimension zero',
    STATE + """
from nodefinder.identify.result import IdentificationResult
io.save(IdentificationResult(positions=[(0., 0.)], dimension=None), path)
assert io.load(path).dimension is None
""")

bug('C11-empty-queue', [(Q, """        objects = np.array(self.objects)
        hdf5_handle['objects'] = objects
""", """        objects = np.array(self.objects, dtype=np.float32).astype(float)
        hdf5_handle['objects'] = objects
""")],
    'queued simplices or positions which are no single precision numbers',
    'queued positions are rounded when saving',
    STATE + """
s = state(positions=[[.1, .2]])
io.save(s, path)
assert io.load(path).position_queue.objects == [(.1, .2)]
""")

bug('C10-cache-shared', [(CL, """        self._neighbour_indices = dict()
""", """        self._neighbour_indices = self._INDEX_CACHE.setdefault(
            (periodic, len(self.num_cells)), dict()
        )
"""), (CL, '    def __init__(self, num_cells, periodic):\n', '    _INDEX_CACHE = {}\n\n    def __init__(self, num_cells, periodic):\n')],
    'two results with different numbers of cells in the same process',
    'neighbour cells of another result are used',
    STATE + """
a = state(results=[result([.5, .5])], cutoff=.1).result
for x in np.linspace(0, 1, 30):
    for y in np.linspace(0, 1, 30):
        list(a.get_neighbour_distance_iterator(np.array([x, y])))
b = state(limits=[(0, 2), (0, 2)], results=[result([1.99, .5])], cutoff=.1).result
assert len(list(b.get_neighbour_distance_iterator(np.array([.01, .5])))) == 1
""", also=['C18'])

# ---------------------------------------------------------------- C12
CLU = 'identify/_cluster.py'
bug('C12-sorted-window', [(CLU, "    pos_unique = list(set(tuple(pos) for pos in positions))\n",
    "    pos_unique = sorted(set(tuple(pos) for pos in positions))\n"),
    (CLU, "        candidates = pos_unique_array[offset:]\n",
     """        candidates = pos_unique_array[offset:]
        candidates = candidates[(candidates[:, 0] - pos_arr[0] <= feature_size) |
            (pos_arr[0] - coordinate_system.limits[0, 0] <= feature_size)]
        index = np.flatnonzero((pos_unique_array[offset:, 0] - pos_arr[0] <= feature_size) |
            (pos_arr[0] - coordinate_system.limits[0, 0] <= feature_size))
"""), (CLU, "            nbr = pos_unique[idx + offset]\n", "            nbr = pos_unique[index[idx] + offset]\n")],
    'periodic box, positions outside of the limits',
    'clusters across the boundary are split for positions in other images',
    STATE + """
from nodefinder.identify._cluster import create_clusters
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
assert len(create_clusters([(.3, .5), (1.31, .5)], feature_size=.1, coordinate_system=cs)) == 1
""")

bug('C12-strict', [(CLU, 'np.flatnonzero(distances <= feature_size)', 'np.flatnonzero(distances < feature_size)')],
    'positions which are exactly the feature size apart',
    'positions at the feature size are not linked',
    STATE + """
from nodefinder.identify._cluster import create_clusters
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=False)
assert len(create_clusters([(.25, .5), (.5, .5)], feature_size=.25, coordinate_system=cs)) == 1
""")

bug('C12-rounded', [(CLU, "    pos_unique = list(set(tuple(pos) for pos in positions))\n",
    "    pos_unique = list({tuple(np.round(pos, 9)): tuple(pos) for pos in positions}.values())\n")],
    'small units of length', 'different positions are merged',
    STATE + """
from nodefinder.identify._cluster import create_clusters
cs = CoordinateSystem(limits=[(0, 1e-9)] * 2, periodic=False)
assert len(create_clusters([(.1e-9, .1e-9), (.4e-9, .1e-9)], feature_size=1e-11, coordinate_system=cs)) == 2
""")

bug('C12-boxed-feature', [(CLU, '    graph = nx.Graph()\n', "    graph = nx.Graph()\n    if coordinate_system.periodic:\n        feature_size = min(feature_size, np.min(coordinate_system.size) / 2)\n")],
    'periodic box with a side shorter than twice the feature size',
    'positions within the feature size are not linked',
    STATE + """
from nodefinder.identify._cluster import create_clusters
cs = CoordinateSystem(limits=[(0, 1), (0, .1)], periodic=True)
assert len(create_clusters([(.1, .05), (.25, .05)], feature_size=.2, coordinate_system=cs)) == 1
""")

# ---------------------------------------------------------------- C13
DIM = 'identify/_dimension.py'
SAMPLE = STATE + r"""
from nodefinder.identify import run_from_positions
import random
rng = np.random.RandomState(7)
random.seed(3)
"""
bug('C13-units', [(DIM, 'limit_value = feature_size**dim * EXACT_VALUES[dim] / 2',
                   'limit_value = feature_size * EXACT_VALUES[dim] / 2')],
    'a feature size which is not about one', 'surfaces or lines are identified with a wrong dimension',
    SAMPLE + """
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
res = run_from_positions(rng.rand(800, 2) * [.5, .5], coordinate_system=cs, feature_size=.1)
assert [r.dimension for r in res] == [2], [r.dimension for r in res]
""")

bug('C13-no-wrap', [(DIM, """        coordinate_system.connecting_vector(
            np.array(neighbour), np.array(pos)
        ) for neighbour in neighbour_tuple""", """        np.array(pos) - np.array(neighbour) for neighbour in neighbour_tuple""")],
    'a point cluster across the periodic boundary',
    'points at the boundary are identified as lines',
    SAMPLE + """
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
res = run_from_positions((rng.rand(30, 2) * .01 - .005) % 1, coordinate_system=cs, feature_size=.3)
assert [r.dimension for r in res] == [0], [r.dimension for r in res]
""")

bug('C13-early-stop', [(DIM, '        if i >= min_neighbour_evaluations and i > 1:\n',
                        '        if i > 1:\n')],
    'the first two neighbour tuples drawn have almost the same volume',
    'the dimension is decided from two draws, and wrong for some random numbers',
    SAMPLE + """
cs = CoordinateSystem(limits=[(0, 1)] * 3, periodic=True)
for seed in range(300):
    random.seed(seed)
    res = run_from_positions(rng.rand(250, 3) * [.3, .3, .3], coordinate_system=cs, feature_size=.1)
    assert [r.dimension for r in res] == [3], [r.dimension for r in res]
""")

bug('C13-majority', [(DIM, '        if i >= min_pos_evaluations:\n', '        if i >= 1:\n')],
    'a position at the edge of the feature is drawn first',
    'the dimension is decided by a single position',
    SAMPLE + """
cs = CoordinateSystem(limits=[(0, 1)] * 3, periodic=True)
bad = 0
for seed in range(300):
    random.seed(seed)
    res = run_from_positions(rng.rand(150, 3) * [.3, .3, 1e-9], coordinate_system=cs, feature_size=.1)
    bad += [r.dimension for r in res] != [2]
assert not bad
""")

# ---------------------------------------------------------------- C14
LRUN = 'identify/_evaluate/_line/_run.py'
BAL = 'identify/_evaluate/_line/_ballistic.py'
DOM = 'identify/_evaluate/_line/_dominating_set.py'
SPA = 'identify/_evaluate/_line/_shortest_path.py'
LINE = SAMPLE + r"""
def line(kind, n=200, periodic=True):
    t = np.linspace(0, 1, n, endpoint=False)
    if kind == 'circle':
        return np.array([.5 + .3 * np.cos(2 * np.pi * t), .5 + .3 * np.sin(2 * np.pi * t)]).T
    if kind == 'across':
        return np.array([t, .5 + 0 * t]).T
    if kind == 'shifted':
        return np.array([.3 * np.cos(2 * np.pi * t), .3 * np.sin(2 * np.pi * t)]).T % 1
    if kind == 'open':
        return np.array([.2 + .6 * t, .5 + 0 * t]).T
def names(kind, method, fs=.05, periodic=True, **kw):
    cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=periodic)
    res = run_from_positions(line(kind, **kw), coordinate_system=cs, feature_size=fs, evaluate_line_method=method)
    return [r.shape.shape_name if r.shape else None for r in res]
"""
bug('C14-ballistic-wrap', [(BAL, """        deltas_all = self.coordinate_system.connecting_vector(
            np.array(node), np.array(neighbors_all)
        )
""", """        deltas_all = np.array(neighbors_all) - np.array(node)
""")],
    'a line which crosses the periodic boundary', 'the direction is wrong at the boundary',
    LINE + """
for k in ('across', 'shifted'):
    for seed in range(5):
        assert names(k, 'ballistic', n=150 + seed) == ['CLOSED LOOP'], k
""")

bug('C14-open-name', [(SHP, """        return shape_lookup.get(
            tuple(sorted(self.degree_count.items())), 'UNKNOWN'
        )""", """        if set(self.degree_count) == {1}:
            return 'OPEN LINE'
        return shape_lookup.get(
            tuple(sorted(self.degree_count.items())), 'UNKNOWN'
        )""")],
    'a line graph with several disconnected open lines',
    'more than two ends are named an open line',
    STATE + """
import networkx as nx
from nodefinder.identify.result import NodalLine
g = nx.Graph([((0., 0.), (0., 1.)), ((2., 0.), (2., 1.))])
assert NodalLine(graph=g, degree_count={1: 4}).shape_name == 'UNKNOWN'
""")

bug('C14-end-direction', [(BAL, 'initial_direction = -(delta / la.norm(delta))', 'initial_direction = delta / la.norm(delta)')],
    'the first path ends before the line is covered',
    'the path turns back on itself at its start, such that lines are not open',
    LINE + """
for n in range(100, 130):
    assert names('open', 'ballistic', n=n, periodic=False) == ['OPEN LINE'], n
""")

bug('C14-dominating-cutoff', [(DOM, "        if distance < feature_size / _DIST_CUTOFF_FACTOR:\n",
    "        if distance < feature_size:\n")],
    'a densely sampled line, with the dominating set method',
    'the chosen positions are too far apart to be joined along the line',
    LINE + """
for n in range(100, 130):
    assert names('circle', 'dominating_set', n=n) == ['CLOSED LOOP'], n
""")

bug('C14-degree-pop', [(LRUN, "    degree_counter.pop(2, None)\n", "    degree_counter.pop(2, None)\n    degree_counter.pop(0, None)\n"),
    (LRUN, '    degree_counter = Counter([val for pos, val in graph.degree])\n', '    degree_counter = Counter([val for pos, val in graph.degree if val])\n')],
    'a line graph with an isolated vertex (one line shorter than a step)',
    'a single position is named a closed loop',
    SAMPLE + """
from nodefinder.identify._evaluate._line import _evaluate_line
import networkx as nx
from nodefinder.identify._cluster import create_clusters
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
g, = create_clusters([(.1, .1), (.12, .1)], feature_size=.1, coordinate_system=cs)
l = _evaluate_line(graph=g, coordinate_system=cs, feature_size=.1, method='shortest_path')
d = {}
for _, deg in l.graph.degree:
    if deg != 2:
        d[deg] = d.get(deg, 0) + 1
assert dict(l.degree_count) == d, (l.degree_count, d)
""")

bug('C14-patch-distance', [(DOM, "        if dist_minimal < 2 * feature_size:\n", "        if dist_minimal < feature_size:\n")],
    'neighbouring vertices of the dominating set between one and two feature sizes apart',
    'holes are not patched, such that the graph is not connected',
    LINE + """
import networkx as nx
bad = 0
for seed in range(40):
    rng = np.random.RandomState(seed)
    t = np.cumsum(rng.choice([.02, .95], 60)) * .01
    cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=False)
    res = run_from_positions(np.array([.1 + t, 0 * t + .5]).T, coordinate_system=cs, feature_size=.01, evaluate_line_method='dominating_set')
    bad += sum(1 for r in res if r.dimension == 1 and not nx.is_connected(r.shape.graph))
assert not bad, bad
""")

# ---------------------------------------------------------------- C15
ERUN = 'identify/_evaluate/_run.py'
IRUN = 'identify/_run.py'
bug('C15-default-feature', [(IRUN, "    positions = [node.pos for node in result.nodes]\n",
    "    feature_size = max(feature_size, result.dist_cutoff)\n    positions = [node.pos for node in result.nodes]\n")],
    'a feature size given which is smaller than that of the search',
    'the given feature size is not used',
    STATE + """
from nodefinder.identify import run as identify
r = state(results=[result([.5, .5]), result([.55, .5])]).result
assert len(identify(r, feature_size=.01)) == 2
""")

bug('C15-single-neighbour', [(DIM, """    results = []
    for i, neighbour_tuple""", """    results = []
    if dim == 1 and len(neighbours) == 1:
        return True
    for i, neighbour_tuple""")],
    'clusters of two positions', 'points are identified as lines, without a shape for close positions',
    SAMPLE + """
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
res = run_from_positions([(.5, .5), (.5 + 1e-9, .5)], coordinate_system=cs, feature_size=.1)
assert [r.dimension for r in res] == [0]
""", also=['C13', 'C16'])

bug('C15-state-rejected', [(IRUN, "    positions = [node.pos for node in result.nodes]\n",
    "    positions = [\n        node.pos for node in result.minimization_results\n        if node.value <= result.gap_threshold\n    ]\n")],
    'an unsuccessful minimization with a value below the threshold',
    'rejected results are identified as nodes',
    STATE + """
from nodefinder.identify import run as identify
r = state(results=[result([.5, .5]), result([.9, .5], success=False)]).result
assert len(identify(r)) == 1
""")

bug('C15-narrow-except', [(ERUN, 'except (IndexError, ValueError) as exc:', 'except IndexError as exc:'),
    (BAL, '        if positive_angle_idx.size == 0:\n            return None, None\n',
     '        if positive_angle_idx.size == 0 and not len(neighbors):\n            return None, None\n')],
    'line clusters where the walk reaches an end', 'an error is raised by the identification',
    LINE + """
for n in range(100, 110):
    names('open', 'ballistic', n=n, periodic=False)
""", also=['C14'])

# ---------------------------------------------------------------- C16
bug('C16-circular-mean', [(CS, "            deltas = [self.connecting_vector(origin, pos) for pos in positions]\n",
    """            angles = 2 * np.pi * self.get_frac(np.array(positions))
            mean = self.get_pos(
                np.angle(np.average(np.exp(1j * angles), axis=0)) / (2 * np.pi)
            )
            deltas = [self.connecting_vector(origin, mean)]
""")],
    'a cluster which is not symmetric and not tiny compared to the box',
    'the position is the circular mean, not the average',
    SAMPLE + """
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
a = cs.average(np.array([[.1, .1], [.1, .1], [.2, .1]]))
assert abs(a[0] - .4 / 3) < 1e-9, a
""")

bug('C16-chain', [(CS, "            deltas = [self.connecting_vector(origin, pos) for pos in positions]\n",
    """            deltas = [
                self.normalize_position(pos) - self.normalize_position(origin)
                for pos in positions
            ]
            deltas = [
                np.where(np.abs(delta) > self.size / 2, delta - self.size, delta)
                for delta in deltas
            ]
""")],
    'a cluster across the boundary whose first position is at the lower or upper side',
    'the average is wrong when the first position is at the upper side',
    SAMPLE + """
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
a = cs.average(np.array([[.98, .1], [.02, .1], [.02, .1]]))
assert abs(a[0] - .02 / 3) < 1e-9, a
""")

bug('C16-weighted', [('identify/_evaluate/_point.py', "average([np.array(pos) for pos in positions])",
    "average([np.array(pos) for pos in sorted(positions)[:100]])")],
    'clusters of more than 100 positions', 'only some positions are averaged',
    SAMPLE + """
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
p = rng.rand(150, 2) * .001 + .5
res = run_from_positions(p, coordinate_system=cs, feature_size=.1)
assert np.allclose(res[0].shape.position, p.mean(axis=0), rtol=0, atol=1e-9)
""")

# ---------------------------------------------------------------- C07
bug('C07-one-more', [(CTL, """                    self.state.simplex_queue.num_running <
                    self.num_minimize_parallel
""", """                    self.state.simplex_queue.num_running <=
                    self.num_minimize_parallel
""")],
    'asynchronous gap function, more simplices than parallel minimizations',
    'one minimization more than allowed runs at the same time',
    STATE + """
running, most = 0, 0
async def gap(pos):
    global running, most
    running += 1
    most = max(most, running)
    await asyncio.sleep(0)
    running -= 1
    return 1 + abs(pos[0])
run(gap, limits=[(0, 1)], initial_mesh_size=9, num_minimize_parallel=3, feature_size=.5,
    refinement_stencil=None, nelder_mead_kwargs=dict(maxfev=2))
assert most <= 3 * 2, most
""")

bug('C07-drain', [(CTL, """                await asyncio.sleep(0.)

                # Retrieve""", """                await asyncio.sleep(0.)
                if not self.state.simplex_queue.has_queued and self.task_futures:
                    await asyncio.wait(self.task_futures)

                # Retrieve""")],
    'a slow minimization while a node found by another one is to be refined',
    'refinement waits until all running minimizations are done, such that they do not run in parallel',
    STATE + """
async def main():
    event = asyncio.Event()
    num, held = 0, False
    async def gap(pos):
        nonlocal num, held
        if pos[0] >= .5 and not held:
            held = True
            # held until the refinement of the nodes of the others is well underway
            await asyncio.wait_for(event.wait(), 5)
            return 1.
        num += 1
        if num > 1500:
            event.set()
        return abs(pos[0] - .2)
    await nf.search.run_async(gap, limits=[(0, 1)] * 2, initial_mesh_size=2, feature_size=.1, gap_threshold=1e-3)
asyncio.run(main())
""")

# ---------------------------------------------------------------- C17
SRUN = 'search/_run.py'
ERR = STATE + r"""
import threading
threading.excepthook = lambda *a: None
class Boom(Exception): pass
class Base(BaseException): pass
def failing(at, exc):
    calls = []
    def gap(pos):
        calls.append(tuple(pos))
        if len(calls) == at:
            raise exc
        return abs(pos[0] - .31)
    gap.calls = calls
    return gap
kwargs = dict(limits=[(0, 1)], initial_mesh_size=5, feature_size=.1, gap_threshold=1e-3)
def outcome(func, **kw):
    try:
        return run(func, **dict(kwargs, **kw))
    except BaseException as exc:
        return exc
"""

bug('C17-second-stage', [(MRUN, """        res = await root_nelder_mead(
            func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs
        )

        return Joined""", """        try:
            res = await root_nelder_mead(
                func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs
            )
        except ArithmeticError:
            return res_fake

        return Joined""")],
    'arithmetic errors in the second stage of a minimization with fake potential',
    'errors in the gap function are ignored',
    ERR + """
e = ZeroDivisionError()
for at in range(1, 200, 7):
    f = failing(at, e)
    res = outcome(f, use_fake_potential=True)
    assert res is e or len(f.calls) < at, (at, res)
""")

bug('C17-first-done', [(CTL, "                done_futures = [fut for fut in self.task_futures if fut.done()]\n",
    "                done_futures = [\n                    fut for fut in self.task_futures\n                    if fut.done() and not fut.cancelled()\n                ]\n"),
    (CTL, "exceptions = [exc for exc in exceptions if exc is not None]",
     "exceptions = [exc for exc in exceptions if isinstance(exc, Exception)]")],
    'an exception which is not derived from Exception, in an asynchronous gap function',
    'the search continues without that minimization, or hangs',
    ERR + """
import signal
signal.alarm(30)
e = Base()
async def gap(pos, f=failing(9, e)):
    await asyncio.sleep(0)
    return f(pos)
assert outcome(gap) is e
""")

bug('C17-wrapped', [(SRUN, "                raise exc_queue.get()\n",
    "                exc = exc_queue.get()\n                raise type(exc)(*exc.args) from exc\n")],
    'called within a running event loop',
    'another exception than that of the gap function is raised',
    ERR + """
async def main():
    return outcome(failing(7, e))
e = Boom('x')
assert asyncio.run(main()) is e
""")

bug('C17-flat-mesh', [(CTL, "        if not dim_limits == dim_mesh_size:\n", "        if dim_limits > dim_mesh_size:\n")],
    'a resumed search, for which the initial mesh is not used', 'inconsistent dimensions are accepted',
    ERR + """
gap = failing(0, None)
res = outcome(gap, initial_mesh_size=(3, 3), initial_state=state(limits=[(0, 1)]))
assert isinstance(res, ValueError) and not gap.calls, res
""")

# ---------------------------------------------------------------- C18
bug('C18-kept-stencil', [('search/refinement_stencil.py', """    if dim == 2:
        return get_circle_stencil(num_points=5)
""", """    if dim == 2:
        if dim not in _STENCILS:
            _STENCILS[dim] = get_circle_stencil(num_points=5)
        return _STENCILS[dim]
"""), ('search/refinement_stencil.py', "from ._mesh_helper import _generate_mesh_simplices\n",
       "from ._mesh_helper import _generate_mesh_simplices\n\n_STENCILS = {}\n"),
    (CTL, """        if refinement_stencil is not None:
            self.refinement_stencil = refinement_stencil * self.dist_cutoff
""", """        if refinement_stencil is not None:
            refinement_stencil *= self.dist_cutoff
            self.refinement_stencil = refinement_stencil
""")],
    'two searches in two dimensions with the automatic stencil',
    'the stencil of the second search is too small',
    STATE + """
def go():
    r = run(lambda x: abs(x[0] - .3) + abs(x[1] - .3), limits=[(0, 1)] * 2, initial_mesh_size=2, feature_size=.3, gap_threshold=1e-2)
    return sorted(tuple(x.pos) for x in r.minimization_results)
assert go() == go()
""", also=['C22', 'C20'])

bug('C18-shared-options', [(CTL, """        self.nelder_mead_kwargs = ChainMap(
            nelder_mead_kwargs, {
                'ftol': 0.05 * gap_threshold,
                'xtol': 0.03 * self.dist_cutoff
            }
        )
""", """        self.nelder_mead_kwargs = ChainMap(
            nelder_mead_kwargs, _DEFAULT_OPTIONS
        )
        _DEFAULT_OPTIONS['ftol'] = 0.05 * gap_threshold
        _DEFAULT_OPTIONS['xtol'] = 0.03 * self.dist_cutoff
"""), (CTL, "_DIST_CUTOFF_FACTOR = 3\n", "_DIST_CUTOFF_FACTOR = 3\n_DEFAULT_OPTIONS = {}\n")],
    'searches with different thresholds at the same time', 'searches influence each other',
    STATE + """
def gap(x):
    return abs(x[0] - .31)
async def slow(x):
    await asyncio.sleep(0)
    return gap(x)
def kw(scale):
    return dict(limits=[(0, 1)], initial_mesh_size=5, feature_size=.1 * scale, gap_threshold=1e-3 * scale, refinement_stencil=None)
def key(r):
    return sorted((tuple(x.pos), x.num_fev) for x in r.minimization_results)
async def main():
    a, b = await asyncio.gather(nf.search.run_async(slow, **kw(1)), nf.search.run_async(slow, **kw(1e-3)))
    return key(a), key(b)
assert asyncio.run(main()) == (key(run(gap, **kw(1))), key(run(gap, **kw(1e-3))))
""")

bug('C18-sync-blocks', [(SRUN, """            if not exc_queue.empty():
""", """            asyncio.get_event_loop().call_soon(loop.stop)
            if not exc_queue.empty():
""")],
    'called in a running event loop which is used afterwards', 'the loop of the caller is stopped',
    STATE + """
async def main():
    run(lambda x: abs(x[0] - .31), limits=[(0, 1)], initial_mesh_size=3, feature_size=.1)
    for _ in range(5):
        await asyncio.sleep(0)
    return 1
loop = asyncio.new_event_loop()
assert loop.run_until_complete(main()) == 1
""")

# ---------------------------------------------------------------- C19
PLT, SPLT = 'identify/plot.py', 'search/plot.py'
PLOT = STATE + r"""
import matplotlib
matplotlib.use('Agg')
import networkx as nx
from nodefinder.identify.result import *
def segments(axis):
    res = []
    for line in axis.get_lines():
        p = [tuple(x) for x in np.array(line.get_data()).T]
        res.extend(tuple(sorted(x)) for x in zip(p[:-1], p[1:]))
    return sorted(res)
def lines(edges, limits=((0, 1),) * 2, fs=.2):
    g = nx.Graph()
    for a, b in edges:
        g.add_edge(a, b)
    cs = CoordinateSystem(limits=limits)
    res = IdentificationResultContainer(coordinate_system=cs, feature_size=fs, results=[
        IdentificationResult(positions=list(g), dimension=1, shape=NodalLine(graph=g, degree_count={}))])
    return segments(nf.identify.plot.result(res)[1])
"""

bug('C19-cut-end', [(PLT, "                curr_path = [next_node]\n", "                curr_path = []\n")],
    'a line which crosses the boundary of the box', 'the first edge after the boundary is not drawn',
    PLOT + """
e = [((.7, .5), (.9, .5)), ((.9, .5), (.1, .5)), ((.1, .5), (.3, .5)), ((.3, .5), (.4, .5))]
assert lines(e) == sorted([e[0], e[2], e[3]]), lines(e)
""")

bug('C19-starting-point', [(PLT, """                      if degree > 0]
    return min(
""", """                      if degree > 0]
    if all(degree == 2 for _, degree in nonzero_degree):
        return min(nonzero_degree)[0]
    nonzero_degree = [val for val in nonzero_degree if val[1] != 3]
    return min(
""")],
    'line graphs with branching points', 'an error is raised for a line with only such points',
    PLOT + """
p = [(.1, .1), (.2, .1), (.15, .2), (.15, .14)]
import itertools
e = list(itertools.combinations(p, 2))
assert lines(e) == sorted(tuple(sorted(x)) for x in e)
""")

bug('C19-closed-polygon', [(SPLT, """    for start, end in itertools.combinations(simplex, 2):
        values = list(np.array([start, end]).T)
        axis.plot(*values, **kwargs)
""", """    closed = np.concatenate([simplex, simplex[:1]])
    axis.plot(*closed.T, **kwargs)
""")],
    'simplices in three dimensions', 'two edges of the simplices are missing',
    PLOT + """
stcl = nf.search.refinement_stencil.get_sphere_stencil(num_points=3)
fig, axis = nf.search.plot.stencil(stcl)
num = sum(len(l.get_data_3d()[0]) - 1 for l in axis.get_lines())
assert num == 3 * 6, num
""")

bug('C19-colors', [(SPLT, "        vals.append(node.value)\n", "        vals.append(max(node.value, 0.01 * result.gap_threshold))\n")],
    'nodes with very small values', 'the color is not that of the value',
    PLOT + """
r = state(results=[result([.5, .5], 1e-9), result([.2, .2], .05)]).result
axis = nf.search.plot.points(r)[1]
assert sorted(axis.collections[0].get_array()) == [1e-9, .05]
""")

bug('C19-longer-edges', [(PLT, "> 2 * feature_size:", "> feature_size:")],
    'line graphs with edges between one and two feature sizes', 'such edges are not drawn',
    PLOT + """
e = [((.1, .5), (.2, .5)), ((.2, .5), (.5, .5)), ((.5, .5), (.6, .5))]
assert lines(e) == e, lines(e)
""")

# ---------------------------------------------------------------- C20
MESH, STC = 'search/_mesh_helper.py', 'search/refinement_stencil.py'
MESHDEMO = STATE + r"""
def starts(limits, mesh, periodic):
    calls = []
    def gap(x):
        calls.append(tuple(np.round(x, 9)))
        return 1.
    r = run(gap, limits=limits, periodic=periodic, initial_mesh_size=mesh, refinement_stencil=None, nelder_mead_kwargs=dict(maxfev=1), feature_size=1)
    return [x.simplex_history[0] for x in r.minimization_results]
"""

bug('C20-near-origin', [(MESH, "not np.allclose(v, 0)]", "not np.allclose(v, 0, atol=0.3)]")],
    'large mesh stencils, or ones with a small multiplier', 'simplices close to the origin are left out',
    MESHDEMO + """
s = nf.search.refinement_stencil.get_mesh_stencil(mesh_size=[3, 3], dist_multiplier=.2)
assert len(s) == 8, len(s)
""")

bug('C20-isotropic', [(MESH, "        simplex_stencil[i + 1][i] = dist\n", "        simplex_stencil[i + 1][i] = min(dist, 2 * np.min(simplex_distances))\n")],
    'boxes with very different lengths', 'simplices do not extend over half of the grid',
    MESHDEMO + """
s = starts([(0, 1), (0, 10)], 2, True)
assert all(abs(np.ptp(x[:, 1]) - 2.5) < 1e-6 for x in s)
""")

bug('C20-sphere-sign', [(STC, "        q_mat_2 *= np.sign(r_mat_2[0, 0])\n", "        q_mat_2 *= -1\n")],
    'sphere stencils: points for which the sign of the QR decomposition is different',
    'simplices point inwards, close to the origin',
    MESHDEMO + """
a = nf.search.refinement_stencil.get_auto_stencil(dim=3)
assert np.linalg.norm(a, axis=-1).min() > 1, np.linalg.norm(a, axis=-1).min()
""")

# ---------------------------------------------------------------- C21
FAKE = STATE + r"""
def go(gap, **kw):
    return run(gap, **dict(dict(limits=[(0, 1)] * 2, initial_mesh_size=2, feature_size=.1, gap_threshold=1e-2, use_fake_potential=True, num_minimize_parallel=1), **kw))
def cone(x):
    return abs(x[0] - .31) + abs(x[1] - .42)
"""
bug('C21-mean', [(MRUN, """        simplex_blowup = simplex_final[
            0] + 1.5 * (simplex_final - simplex_final[0])
""", """        center = simplex_final.mean(axis=0)
        simplex_blowup = center + 1.5 * (simplex_final - center)
""")],
    'searches with a fake potential', 'the second stage does not start around the best vertex',
    FAKE + """
for r in go(cone).minimization_results:
    best = r.ancestor.simplex_history[-1][0]
    assert any(np.allclose(best, v, rtol=0, atol=1e-12) for v in r.child.simplex_history[0])
""")

bug('C21-best-stage', [(MRUN, "        return JoinedMinimizationResult(child=res, ancestor=res_fake)\n",
    "        if res_fake.value <= res.value and not res.success:\n            return res_fake\n        return JoinedMinimizationResult(child=res, ancestor=res_fake)\n")],
    'a second stage which fails with a larger value than that of the first', 'the evaluations of the second stage are lost',
    FAKE + """
calls = []
def gap(x):
    calls.append(1)
    return 1. + cone(x)
r = go(gap, nelder_mead_kwargs=dict(maxfev=5), refinement_stencil=None)
assert len(calls) == sum(x.num_fev for x in r.minimization_results), len(calls)
""")

bug('C21-maxfev', [(MRUN, "        res = await root_nelder_mead(\n            func=func, initial_simplex=simplex_blowup, **nelder_mead_kwargs\n        )\n\n        return Joined",
    "        final_kwargs = dict(nelder_mead_kwargs)\n        if final_kwargs.get('maxfev') is not None:\n            final_kwargs['maxfev'] = max(\n                1, final_kwargs['maxfev'] - res_fake.num_fev // 2\n            )\n        res = await root_nelder_mead(\n            func=func, initial_simplex=simplex_blowup, **final_kwargs\n        )\n\n        return Joined")],
    'maxfev with a fake potential', 'the second stage stops too early',
    FAKE + """
r = go(lambda x: 1 + cone(x)**.5, nelder_mead_kwargs=dict(maxfev=60, xtol=1e-14, ftol=1e-14), refinement_stencil=None)
assert all(x.child.num_fev >= 60 for x in r.minimization_results), [x.child.num_fev for x in r.minimization_results]
""")

bug('C21-empty-ftol', [(MRUN, "        modified_kwargs['ftol'] = float('inf')\n", "        modified_kwargs.setdefault('ftol', float('inf'))\n")],
    'searches with a fake potential, as the search always gives ftol', 'the first stage runs until the values converge',
    FAKE + """
f = lambda x: 1 + 1e3 * cone(x)
r = go(f, nelder_mead_kwargs=dict(ftol=1e-12), refinement_stencil=None)
s = [np.ptp(x.ancestor.fun_simplex_history[-1]) for x in r.minimization_results]
assert max(s) > 1e-9, s
""")

# ---------------------------------------------------------------- C22
bug('C22-stencil', [(CTL, "            self.refinement_stencil = refinement_stencil * self.dist_cutoff\n",
    "            refinement_stencil *= self.dist_cutoff\n            self.refinement_stencil = refinement_stencil\n")],
    'a stencil which is used again', 'the given stencil is changed',
    STATE + """
s = nf.search.refinement_stencil.get_circle_stencil(num_points=5)
old = s.copy()
run(lambda x: 1., limits=[(0, 1)] * 2, initial_mesh_size=1, refinement_stencil=s)
assert (s == old).all()
""", also=['C18'])

bug('C22-plot-graph', [(PLT, "    working_graph = graph.copy()\n", "    working_graph = graph\n")],
    'plotting a line', 'the edges of the line are removed',
    PLOT + """
g = nx.path_graph([(.1, .1), (.2, .1), (.3, .1)])
cs = CoordinateSystem(limits=((0, 1),) * 2)
res = IdentificationResultContainer(coordinate_system=cs, feature_size=.1, results=[
    IdentificationResult(positions=list(g), dimension=1, shape=NodalLine(graph=g, degree_count={}))])
nf.identify.plot.result(res)
assert len(g.edges) == 2
""")

bug('C22-options', [(CTL, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )\n",
    "        self.nelder_mead_kwargs = nelder_mead_kwargs or {}\n        self.nelder_mead_kwargs.setdefault('ftol', 0.05 * gap_threshold)\n        self.nelder_mead_kwargs.setdefault('xtol', 0.03 * self.dist_cutoff)\n")],
    'minimization options used for several searches', 'the given options are changed',
    STATE + """
o = dict(maxfev=10)
run(lambda x: 1., limits=[(0, 1)], initial_mesh_size=1, nelder_mead_kwargs=o)
assert o == dict(maxfev=10), o
""", also=['C18'])

bug('C22-average', [(CS, "            origin = positions[0]\n            deltas = [self.connecting_vector(origin, pos) for pos in positions]\n            return self.normalize_position(\n                origin + np.average(deltas, axis=0)\n            )\n",
    "            origin = positions[0]\n            deltas = [self.connecting_vector(origin, pos) for pos in positions]\n            origin += np.average(deltas, axis=0)\n            return self.normalize_position(origin)\n")],
    'averaging positions in a periodic box', 'the first position is changed',
    STATE + """
cs = CoordinateSystem(limits=((0, 1),) * 2)
p = np.array([[.1, .1], [.2, .1]])
old = p.copy()
cs.average(p)
assert (p == old).all()
""")

# ---------------------------------------------------------------- C23
bug('C03-xtol', [(CTL, "'xtol': 0.03 * self.dist_cutoff", "'xtol': 3 * self.dist_cutoff")],
    'gap functions which are flat around their nodes', 'nodes are reported with positions far from the node',
    STATE + """
r = run(lambda x: ((x[0] - .312)**2 + (x[1] - .423)**2), limits=[(0, 1)] * 2, initial_mesh_size=4, feature_size=.02, gap_threshold=1e-2, refinement_stencil=None)
assert all(np.hypot(n.pos[0] - .312, n.pos[1] - .423) < .01 for n in r.nodes), max(np.hypot(n.pos[0] - .312, n.pos[1] - .423) for n in r.nodes)
""", also=['C23'])

bug('C21-wide-potential', [('search/_fake_potential.py', "            dist < self.width\n", "            dist < 8 * self.width\n")],
    'the fake potential, with nodes which are not far apart', 'nodes close to others are not found',
    STATE + """
from nodefinder.search._fake_potential import FakePotential
p = FakePotential(result=state(results=[result([.5, .5])], cutoff=.1).result, width=.1)
assert p(np.array([.61, .5])) == 0
""", also=['C23'])

bug('C15-factor', [(IRUN, "        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR\n", "        feature_size = result.dist_cutoff / _DIST_CUTOFF_FACTOR\n")],
    'nodes of a point which are spread out', 'a point is identified as several ones',
    STATE + """
r = state(results=[result([.5, .5]), result([.55, .5])], cutoff=.1).result
assert len(nf.identify.run(r)) == 1
""", also=['C23'])

bug('C04-shrink', [(NM, "                        sim[j] = sim[0] + sigma * (sim[j] - sim[0])\n                        fsim[j] = await func(sim[j])\n",
    "                        sim[j] = sim[0] + sigma * (sim[j] - sim[0])\n                    fsim[1:] = await func(sim[1])\n")],
    'minimizations which shrink', 'values of the vertices are wrong after shrinking',
    STATE + """
f = lambda x: float(1 + np.sin(1e3 * x[0] + 2e3 * x[1]**2))
r = run(f, limits=[(0, 1)] * 2, initial_mesh_size=3, feature_size=.05, gap_threshold=1e-4, refinement_stencil=None)
for x in r.minimization_results:
    assert all(f(p) == v for p, v in zip(x.simplex_history[-1], x.fun_simplex_history[-1]))
""", also=['C23'])

bug('C23-plain-cluster', [(CLU, "        distances = coordinate_system.distance(pos_arr, candidates)\n",
    "        distances = np.linalg.norm(candidates - pos_arr, axis=-1)\n")],
    'a node at the boundary of a periodic box', 'a node at the boundary is identified as two',
    STATE + """
r = state(results=[result([1e-6 * i % 1, .5]) for i in range(-5, 6)], cutoff=.1).result
assert len(nf.identify.run(r)) == 1
""", also=['C12'])

bug('C23-one-side', [(DIM, """    mat = np.array(connecting_vectors)
""", """    mat = np.array(connecting_vectors)
    if coordinate_system.periodic:
        mat = mat % coordinate_system.size
""")], 'a node at the boundary of a periodic box', 'a node at the boundary is identified as a line',
    STATE + """
for seed in range(10):
    import random
    random.seed(seed)
    r = state(results=[result([1e-6 * i % 1, .5]) for i in range(-5, 6)], cutoff=.1).result
    assert [x.dimension for x in nf.identify.run(r)] == [0]
""", also=['C13'])

# ---------------------------------------------------------------- C24
bug('C24-circle-radius', [(STC, "    ) + [0, 1.5]\n", "    ) + [0, 0.2]\n")],
    'nodal lines in two dimensions', 'refinement does not get away from known nodes',
    STATE + """
import scipy.spatial as sp
def gap(x):
    return abs(np.hypot(x[0] - .5, x[1] - .5) - .3)
r = run(gap, limits=[(0, 1)] * 2, initial_mesh_size=2, feature_size=.1, gap_threshold=1e-5, use_fake_potential=True)
p = np.array([n.pos for n in r.nodes])
t = np.linspace(0, 2 * np.pi, 400)
q = np.stack([.5 + .3 * np.cos(t), .5 + .3 * np.sin(t)], axis=-1)
d = sp.distance.cdist(q, p).min(axis=1).max()
assert d < .1, d
""", also=['C20'])

bug('C24-not-closed', [(BAL, """            if new_node in self.result_graph:
                if on_graph:
""", """            if new_node in self.result_graph:
                if len(self.result_graph) > 12:
""")],
    'closed lines of many nodes', 'the walk along the line stops before the loop is closed',
    LINE + """
for n in range(60, 70):
    assert names('circle', 'ballistic', n=n) == ['CLOSED LOOP'], n
""", also=['C14'])

bug('C24-sparse', [(CTL, """            if dist < self.dist_cutoff:
                count += 1
            if count > count_cutoff:""", """            if dist < 2 * self.dist_cutoff:
                count += 1
            if count > count_cutoff:""")],
    'nodal lines', 'refinement leaves gaps in the line',
    STATE + """
import scipy.spatial as sp
for k in range(12):
    R, fs = .2 + .01 * k, .08
    def gap(x):
        return abs(np.hypot(x[0] - .5, x[1] - .5) - R)
    r = run(gap, limits=[(0, 1)] * 2, initial_mesh_size=2, feature_size=fs, gap_threshold=1e-5, use_fake_potential=True)
    p = np.array([n.pos for n in r.nodes])
    t = np.linspace(0, 2 * np.pi, 400)
    q = np.stack([.5 + R * np.cos(t), .5 + R * np.sin(t)], axis=-1)
    assert sp.distance.cdist(q, p).min(axis=1).max() < fs, k
""", also=['C06'])

bug('C24-sphere-radius', [(STC, "points = 1.1 * np.array", "points = 0.3 * np.array")],
    'nodal lines in three dimensions', 'refinement does not get away from known nodes',
    STATE + """
import scipy.spatial as sp
def gap(x):
    return np.hypot(np.hypot(x[0] - .5, x[1] - .5) - .3, x[2] - .5)
r = run(gap, limits=[(0, 1)] * 3, initial_mesh_size=2, feature_size=.15, gap_threshold=1e-4, use_fake_potential=True)
p = np.array([n.pos for n in r.nodes])
t = np.linspace(0, 2 * np.pi, 400)
q = np.stack([.5 + .3 * np.cos(t), .5 + .3 * np.sin(t), .5 + 0 * t], axis=-1)
assert sp.distance.cdist(q, p).min(axis=1).max() < .15
""", also=['C20'])

bug('C24-frac-refined', [(SRC, """        self.refined_results.add_point(
            self.coordinate_system.get_frac(pos), pos
        )
""", """        frac = self.coordinate_system.get_frac(pos)
        self.refined_results.add_point(frac, frac)
""")],
    'boxes other than the unit box', 'refined positions are not found again, and saved wrongly',
    STATE + """
r = run(lambda x: abs(x[0] - 5.31), limits=[(5, 7)], initial_mesh_size=3, feature_size=.3, gap_threshold=1e-2)
assert all(5 <= p[0] <= 7 for p in r.refined_results)
""", also=['C06'])

# ---------------------------------------------------------------- C25
bug('C25-xtol', [(CTL, "'xtol': 0.03 * self.dist_cutoff", "'xtol': min(0.03 * self.dist_cutoff, 1e-3)")],
    'boxes in large units', 'the accuracy of positions depends on the unit of length',
    STATE + """
def go(unit):
    r = run(lambda x: abs(x[0] / unit - .312), limits=[(0, unit)], initial_mesh_size=3, feature_size=.3 * unit, gap_threshold=10, refinement_stencil=None)
    return [x.num_fev for x in r.minimization_results]
assert go(1) == go(1024), (go(1), go(1024))
""")

bug('C25-rounded-frac', [(CS, "        frac = (pos - self._lower_limits) / self.size\n", "        frac = np.round((pos - self._lower_limits), 12) / self.size\n")],
    'boxes in very small units', 'positions are rounded to a fixed length',
    STATE + """
cs = CoordinateSystem(limits=[(0, 2.**-36)])
assert abs(cs.get_frac(np.array([2.**-38]))[0] - .25) < 1e-6
""", also=['C02'])

bug('C25-origin', [(MESH, "        vertices = [v for v in vertices if not np.allclose(v, 0)]\n", "        pass\n    vertices = [\n        v for v in vertices if not skip_origin or np.max(np.abs(v)) > 1e-8\n    ]\n    size = np.maximum(\n        [upper - lower for lower, upper in limits], 1e-6\n    )\n"),
    (MESH, "    size = np.array([upper - lower for lower, upper in limits])\n", "")],
    'boxes in very small units', 'the initial simplices are larger than the box',
    STATE + """
def go(unit):
    r = run(lambda x: abs(x[0] / unit - .312), limits=[(0, unit)], initial_mesh_size=3, feature_size=.3 * unit, gap_threshold=1e-3, refinement_stencil=None)
    return [x.num_fev for x in r.minimization_results]
assert go(1) == go(2.**-30), (go(1), go(2.**-30))
""", also=['C20'])

bug('C25-cluster-tolerance', [(CLU, 'np.flatnonzero(distances <= feature_size)', 'np.flatnonzero(distances <= feature_size + 1e-9)')],
    'boxes in very small units', 'all positions are in one cluster',
    STATE + """
u = 2.**-40
cs = CoordinateSystem(limits=[(0, u)], periodic=False)
res = nf.identify.run_from_positions([(.1 * u,), (.9 * u,)], coordinate_system=cs, feature_size=.2 * u)
assert len(res) == 2
""", also=['C12'])

bug('C25-fprime', [(NM, "    return fval / np.sqrt(\n", "    return fval / np.sqrt(\n        1e-16 + \n")],
    'fprime_cutoff in small units of length', 'minimizations depend on the unit',
    STATE + """
def go(unit):
    r = run(lambda x: abs(x[0] / unit - .312) + .01, limits=[(0, unit)], initial_mesh_size=3, feature_size=.3 * unit, gap_threshold=1e-3, refinement_stencil=None, nelder_mead_kwargs=dict(fprime_cutoff=3 / unit))
    return [x.num_fev for x in r.minimization_results]
assert go(1) == go(2.**-30), (go(1), go(2.**-30))
""", also=['C04'])

# ---------------------------------------------------------------- C26
bug('C26-exact-area', [(DIM, "2: 8 / (9 * np.pi)", "2: 16 / (9 * np.pi)")],
    'a nodal area or surface', 'areas are identified as lines',
    SAMPLE + """
import random
rng = np.random.default_rng(0)
p = rng.uniform(0, 1, (1200, 2))
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
bad = 0
for s in range(10):
    random.seed(s); np.random.seed(s)
    res = nf.identify.run_from_positions([tuple(x) for x in p], coordinate_system=cs, feature_size=.15)
    bad += [r.dimension for r in res] != [2]
assert bad == 0, bad
""", also=['C13'])

bug('C26-evaluate-order', [(IRUN, """        dim = calculate_dimension(
""", """        dim = dim if results and len(graph) < 30 else calculate_dimension(
""")],
    'several features, of which a later one has few positions', 'the dimension of the feature before is reported for it',
    STATE + """
import random
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
t = np.linspace(0, 2 * np.pi, 80)
line = [tuple(x) for x in np.stack([.5 + .2 * np.cos(t), .5 + .2 * np.sin(t)], -1)]
for pos in (line + [(.05, .05), (.051, .05)], [(.05, .05), (.051, .05)] + line):
    res = nf.identify.run_from_positions(pos, coordinate_system=cs, feature_size=.1)
    assert sorted(r.dimension for r in res) == [0, 1], res
""", also=['C13', 'C15', 'C23'])

bug('C05-stencil-part', [(CTL, "pos + self.refinement_stencil\n", "pos + self.refinement_stencil[:18]\n")],
    'nodal surfaces in three dimensions', 'only a part of the stencil is used',
    STATE + """
c = np.array([.5, .5, .5])
calls = []
r = run(lambda x: abs(np.linalg.norm(x - c) - .01), limits=[(0, 1)] * 3, initial_mesh_size=1, feature_size=.2, gap_threshold=1e-4, use_fake_potential=False)
assert len(r.minimization_results) > 30, len(r.minimization_results)
""", also=['C26'])

# ---------------------------------------------------------------- C27
DEF = STATE + """
import asyncio
def same(gap, names, **kw):
    from inspect import signature
    documented = dict(periodic=True, load_quiet=True, gap_threshold=1e-6, feature_size=2e-3, use_fake_potential=False, num_minimize_parallel=50, recheck_pos_dist=True, recheck_count_cutoff=0, simplex_check_cutoff=0, force_initial_mesh=False)
    a = run(gap, **kw)
    b = run(gap, **{**{n: documented[n] for n in names}, **kw})
    key = lambda r: [(tuple(x.pos), x.num_fev) for x in r.minimization_results]
    assert key(a) == key(b), (len(key(a)), len(key(b)))
line = lambda x: abs(x[0] - .312) + 0 * x[1]
"""
for _id, _old, _new, _needs, _breaks, _demo in [
    ('simplex-cutoff', "    simplex_check_cutoff=0\n", "    simplex_check_cutoff=1\n",
     'searches with refinement', 'more simplices are run by default',
     "same(line, ['simplex_check_cutoff'], limits=[(.3, .32)] * 2, initial_mesh_size=2)"),
    ('fake', "    use_fake_potential=False,\n", "    use_fake_potential=True,\n",
     'any search with nodes', 'the fake potential is used by default',
     "same(line, ['use_fake_potential'], limits=[(.3, .32)] * 2, initial_mesh_size=2)"),
    ('quiet', "    load_quiet=True,\n", "    load_quiet=False,\n",
     'loading a file which does not exist yet', 'the search fails by default',
     """
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    run(lambda x: abs(x[0] - .31), limits=[(.3, .32)], initial_mesh_size=2, refinement_stencil=None, load=True, save_file=os.path.join(d, 'x.hdf5'))
"""),
    ('parallel', "    num_minimize_parallel=50,\n", "    num_minimize_parallel=100,\n",
     'functions which suspend, and more than fifty simplices', 'more minimizations run at once by default',
     """
count = [0, 0]
async def gap(x):
    count[0] += 1
    count[1] = max(count)
    await asyncio.sleep(.001)
    count[0] -= 1
    return abs(x[0] - .312)
run(gap, limits=[(0, 1)], initial_mesh_size=80, refinement_stencil=None, gap_threshold=1e-2)
assert count[1] <= 100, count
"""),
]:
    if _id == 'parallel':
        pass
    bug('C27-' + _id, [(SRUN, _old, _new)], _needs, _breaks, DEF + _demo,
        also=['C07'] if _id == 'parallel' else [])

bug('C27-maxiter', [(NM, "maxiter = N * 200", "maxiter = N * 50")],
    'minimizations which need many iterations', 'the limits are lower by default',
    DEF + """
kw = dict(limits=[(0, 1)], initial_mesh_size=1, refinement_stencil=None, gap_threshold=1e-12)
a = run(lambda x: abs(x[0] - .3) ** .1, **kw)
b = run(lambda x: abs(x[0] - .3) ** .1, nelder_mead_kwargs=dict(maxiter=200, maxfev=200), **kw)
assert a.minimization_results[0].num_fev == b.minimization_results[0].num_fev
""", also=['C04'])

bug('C27-dist-multiplier', [('search/refinement_stencil.py', 'dist_multiplier=2.5', 'dist_multiplier=2.')],
    'problems of one, or of four and more dimensions', 'the mesh stencil is smaller by default',
    """
import numpy as np
from nodefinder.search.refinement_stencil import get_mesh_stencil
for size in ([3], [2, 3], [3] * 4):
    assert np.array_equal(get_mesh_stencil(mesh_size=size), get_mesh_stencil(mesh_size=size, dist_multiplier=2.5))
""", also=['C20'])

bug('C27-periodic', [(CS, 'def __init__(self, *, limits, periodic=True):', 'def __init__(self, *, limits, periodic=False):')],
    'coordinate systems made by the user', 'they are not periodic by default',
    """
import numpy as np
from nodefinder.coordinate_system import CoordinateSystem
assert abs(CoordinateSystem(limits=[(0, 1)]).distance(np.array([.1]), np.array([.9])) - .2) < 1e-9
""", also=['C01'])

bug('C27-feature', [(IRUN, "        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR\n", "        feature_size = 1.5 * result.dist_cutoff * _DIST_CUTOFF_FACTOR\n")],
    'features which are little more than a feature size apart', 'identification uses another feature size by default',
    STATE + """
r = run(lambda x: min(abs(x[0] - .2), abs(x[0] - .32)), limits=[(0, 1)], initial_mesh_size=12, feature_size=.1, gap_threshold=1e-3, refinement_stencil=None)
assert len(nf.identify.run(r)) == len(nf.identify.run(r, feature_size=.1)) == 2
""", also=['C15'])

bug('C26-area', [(DIM, "    if len(pos) < dim:\n        return 0\n", "    if len(pos) < dim + (dim > 1):\n        return 0\n")],
    'a nodal area in two dimensions', 'areas which fill the space are identified as lines',
    SAMPLE + """
rng = np.random.default_rng(0)
p = rng.uniform(0, 1, (1200, 2))
cs = CoordinateSystem(limits=[(0, 1)] * 2, periodic=True)
res = nf.identify.run_from_positions([tuple(x) for x in p], coordinate_system=cs, feature_size=.15)
assert [r.dimension for r in res] == [2]
""", also=['C13'])

bug('C06-recheck-idle', [(CTL, """if (not self.recheck_pos_dist
                                ) or self""", """if (not self.recheck_pos_dist and self.task_futures
                                ) or self""")],
    'recheck_pos_dist=False', 'positions are checked again although this is disabled',
    STATE + """
def gap(x):
    return abs(x[0] - .312)
def num(**kw):
    return len(run(gap, limits=[(0, 1)], initial_mesh_size=10, feature_size=.3, gap_threshold=1e-3, num_minimize_parallel=1, **kw).refined_results)
assert num(recheck_pos_dist=False) > num(recheck_pos_dist=True)
""", also=['C27'])

bug('C26-second-feature', [(CTL, "if is_node and self.refinement_stencil is not None:", "if is_node and self.refinement_stencil is not None and (\n            len(self.state.position_queue.objects) < 20):")],
    'many nodes waiting for refinement', 'nodes are not refined if many are waiting',
    STATE + """
from nodefinder.search import run_async
""" + """
c = np.array([.5, .5])
r = run(lambda x: max(0, np.linalg.norm(x - c) - .3), limits=[(0, 1)] * 2, initial_mesh_size=3, feature_size=.3, gap_threshold=1e-3, recheck_pos_dist=True, num_minimize_parallel=50)
ref = np.array(list(r.refined_results)).reshape(-1, 2)
pos = np.array([n.pos for n in r.nodes])
d = np.linalg.norm(pos[:, None] - ref[None], axis=-1).min(axis=1)
assert d.max() < .1 + 1e-9, d.max()
r = run(lambda x: max(0, np.linalg.norm(x - c) - .3), limits=[(0, 1)] * 2, initial_mesh_size=40, feature_size=.03, gap_threshold=1e-3, recheck_pos_dist=True, num_minimize_parallel=50)
ref = np.array(list(r.refined_results)).reshape(-1, 2)
pos = np.array([n.pos for n in r.nodes])
d = np.linalg.norm(pos[:, None] - ref[None], axis=-1).min(axis=1)
assert d.max() < .01 + 1e-9, d.max()
""", also=['C06'])
