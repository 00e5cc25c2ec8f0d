"""C08: each Monte Carlo sample is evaluated under its own grid parameters."""
import itertools
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.pymonte import MonteCarloActor, GridDimension, register
from hermespy.core.pymonte.artifact import Artifact
from hermespy.core.pymonte.grid import ScalarDimension
from hermespy.core import ConsoleMode
from hermespy.core.pymonte import MonteCarlo, Evaluator
from hermespy.core.pymonte.scalar import ScalarEvaluationResult
from contracts.rayshim import direct, Local, shim


STAGES = ["first", "second", "third"]


class Result(Artifact):
    """Artifact of the ghost evaluator: what every stage has last been executed with."""

    def __init__(self, content):
        self.content = content

    def artifact(self):
        return self

    def __str__(self):
        return ""

    def to_scalar(self):
        return None


class Ghost:
    """Evaluator recording the state of the investigated object and of all stages."""

    def __init__(self, obj):
        self.obj = obj

    def evaluate(self):
        o = self.obj
        return Result((o.parameters(), dict(o.stages), list(o.log)))


class Actor(MonteCarloActor):
    @staticmethod
    def stage_identifiers():
        return list(STAGES)

    def stage_executors(self):
        def run(name):
            def stage(*args):
                o = self._investigated_object
                o.clock += 1
                o.stages[name] = (o.parameters(), args, o.clock)
                o.log.append(name)
            return stage
        return [run(n) for n in STAGES]


def attribute(name):
    return property(lambda o: o.values[name], lambda o, v: o.values.__setitem__(name, v))


def make_object(impacts):
    """Investigated object with one registered parameter per pair of first and last impacted stage."""
    def init(self):
        self.values = {f"p{j}": None for j in range(len(impacts))}
        self.stages, self.log, self.clock = {}, [], 0
    ns = {"__init__": init, "parameters": lambda self: dict(self.values)}
    for j, (f, l) in enumerate(impacts):
        ns[f"p{j}"] = register(first_impact=f, last_impact=l)(attribute(f"p{j}"))
    return type("Investigated", (), ns)()


IMPACTS = [(None, None), (None, "second"), ("third", None)] + [
    (STAGES[a], STAGES[b]) for a in range(3) for b in range(a, 3)] + [("elsewhere", "elsewhere"), ("second", "elsewhere")]


def affected(f, l):
    a = STAGES.index(f) if f in STAGES else 0
    b = STAGES.index(l) if l in STAGES else len(STAGES) - 1
    return range(a, b + 1)


class Queue:
    def __init__(self, batches):
        self.batches = list(batches)

    def next_batch(self):
        return self.batches.pop(0) if self.batches else []


def run(obj, dims, batches, arguments=None):
    with direct():
        a = Actor(Local(Queue(batches)), (obj, dims, [Ghost(obj)]), 0, arguments, False)
        a.run()
        out = a.fetch_results()
        again = a.fetch_results()
    return [s for part in out for s in part], again


def examine(vc, samples, batches, dims, points, impacts, arguments):
    """Postcondition of a run."""
    entries = [tuple(e) for b in batches for e in b]
    args = [list(arguments.get(s, [()])) for s in STAGES]
    per = len(args[0]) * len(args[1]) * len(args[2])
    vc.prove("samples per batch entry equal the product of the argument counts", len(samples) == per * len(entries),
             f"{len(samples)} samples of {len(entries)} entries")
    for e, section in enumerate(entries):
        part = samples[e * per:(e + 1) * per]
        seen = []
        for i, s in enumerate(part):
            vc.prove("samples carry their section", tuple(s.grid_section) == section, s.grid_section)
            vc.prove("samples are numbered", s.sample_index == i)
            now, stages, _ = s.artifacts[0].content
            for j, p in enumerate(points):
                want = p[section[j]]
                vc.eq("parameters hold the values of the section during evaluation", now[f"p{j}"], want)
                for st in affected(*impacts[j]):
                    vc.eq("affected stages were executed with the values of the section",
                          stages[STAGES[st]][0][f"p{j}"], want)
            vc.prove("later stages follow the stages executed before them", all(
                stages[STAGES[k]][2] < stages[STAGES[k + 1]][2] for k in range(2) if len(args[k]) > 1))
            seen.append(tuple(stages[n][1] for n in STAGES))
        vc.prove("every combination of stage arguments is sampled once", sorted(seen) == sorted(itertools.product(*args)))


@contract("C08", "consecutive sections", limit=150, max_paths=60000, n=300,
          note="all values of the parameters; grids of two dimensions with two points each, any pair of impacts, any three "
               "consecutive sections (the sweep carries no other state from one section to the next)")
def consecutive(vc):
    impacts = [vc.choice(f"impact{j}", IMPACTS) for j in range(2)]
    points = [[vc.real(f"value{j}.{i}") for i in range(2)] for j in range(2)]
    obj = make_object(impacts)
    dims = [GridDimension(obj, f"p{j}", points[j]) for j in range(2)]
    last = [(0, 0), (0, 1), (1, 0), (1, 1)]
    batch = [(0, 0), vc.choice("second", last), vc.choice("third", last)]
    samples, again = run(obj, dims, [batch])
    examine(vc, samples, [batch], dims, points, impacts, {})
    vc.prove("results are handed out once", len(again) == 0)


@contract("C08", "stage arguments", limit=60, n=200, max_paths=20000,
          note="all values; up to two arguments per stage; two consecutive batches")
def stage_arguments(vc):
    impacts = [vc.choice("impact", IMPACTS)]
    points = [[vc.real(f"value{i}") for i in range(2)]]
    obj = make_object(impacts)
    dims = [GridDimension(obj, "p0", points[0])]
    arguments = {s: [(s, k) for k in range(vc.choice("arguments of " + s, [1, 2]))] for s in STAGES}
    batches = [[(0,), (vc.choice("second", [0, 1]),)], [(1,)]]
    samples, _ = run(obj, dims, batches, arguments)
    examine(vc, samples, batches, dims, points, impacts, arguments)


@contract("C08", "configuring a point", limit=30, n=100, note="all values; up to two considered objects, direct, nested, "
          "method and scalar dimensions")
def configure(vc):
    class Child:
        x = 0
        other = 5

    class Root:
        y = 0
        child = None

        def __init__(self):
            self.child, self.called = Child(), []

        def call(self, v):
            self.called.append(v)

    kind = vc.choice("kind", ["y", "child.x", "call"])
    k = vc.choice("objects", [1, 2])
    objs = tuple(Root() for _ in range(k))
    values = [vc.real(f"value{i}") for i in range(3)]
    d = GridDimension(objs if k > 1 else objs[0], kind, values)
    i = vc.choice("point", [0, 1, 2])
    d.configure_point((i + 1) % 3)
    d.configure_point(i)
    for o in objs:
        got = o.y if kind == "y" else o.child.x if kind == "child.x" else o.called[-1]
        vc.eq("every considered object is configured", got, values[i])
        if kind != "y":
            vc.eq("nothing else is configured", o.y, 0)
        if kind != "child.x":
            vc.eq("nothing else is configured", o.child.x, 0)
        vc.prove("methods are called once per configuration", len(o.called) == (2 if kind == "call" else 0))
    vc.prove("points are kept in order", d.num_sample_points == 3)
    for j in range(3):
        vc.eq("points are kept in order", d.sample_points[j].value, values[j])
    vc.raises("negative points are rejected", ValueError, lambda: d.configure_point(-1))
    vc.raises("unknown points are rejected", ValueError, lambda: d.configure_point(3))


@contract("C08", "several considered objects", limit=30, n=150, note="all values; pairs of objects with any impacts")
def several(vc):
    """Objects of different classes behind one dimension: the dimension affects whatever any of them affects."""
    i0, i1 = vc.choice("impact of the first", IMPACTS[:9]), vc.choice("impact of the second", IMPACTS[:9])
    root = make_object([i0])
    other = type("Other", (), {"p0": register(first_impact=i1[0], last_impact=i1[1])(
        property(lambda o: o.v, lambda o, v: setattr(o, "v", v)))})()
    other.v = None
    values = [vc.real("a"), vc.real("b")]
    try:
        d = GridDimension((root, other), "p0", values)
    except ValueError:
        vc.prove("only diverging impacts are rejected", any(a != b and None not in (a, b) for a, b in zip(i0, i1))
                 or i0 != i1)
        return
    lo = 0 if None in (i0[0], i1[0]) else min(STAGES.index(i0[0]), STAGES.index(i1[0]))
    hi = 2 if None in (i0[1], i1[1]) else max(STAGES.index(i0[1]), STAGES.index(i1[1]))
    samples, _ = run(root, [d], [[(0,), (1,)]])
    vc.prove("one sample per section", len(samples) == 2)
    for s, want in zip(samples, values):
        now, stages, _ = s.artifacts[0].content
        for st in range(lo, hi + 1):
            vc.eq("stages affected through any object are executed", stages[STAGES[st]][0]["p0"], want)
    vc.eq("all objects are configured", other.v, values[1])


@contract("C08", "scalar dimensions", limit=20, n=60)
def scalar(vc):
    class Level(ScalarDimension):
        def __init__(self):
            self.level = 0

        def __lshift__(self, s):
            self.level = s

        @property
        def title(self):
            return "level"

    class Root:
        def __init__(self):
            self._level = Level()

        @property
        def level(self):
            return self._level

    k = vc.choice("objects", [1, 2])
    objs = tuple(Root() for _ in range(k))
    values = [1.5, vc.choice("value", [-3.0, 0, 2]), 8]
    d = GridDimension(objs, "level", values)
    i = vc.choice("point", [0, 1, 2])
    d.configure_point(i)
    for o in objs:
        vc.eq("scalar levels are configured in place", o.level.level, values[i])


@bounded("C08", "long sweeps", n=250, bound="up to 4 stages' worth of dimensions, up to 3 points each, up to 4 batches of up "
         "to 12 sections, up to 2 stage arguments")
def sweep(vc):
    nd = vc.int("dimensions", 0, 3, cap=3)
    impacts = [vc.choice(f"impact{j}", IMPACTS) for j in range(nd)]
    points = [list(vc.array(f"values{j}", (vc.int(f"points{j}", 1, 3, cap=3),))) for j in range(nd)]
    obj = make_object(impacts)
    dims = [GridDimension(obj, f"p{j}", points[j]) for j in range(nd)]
    nb = vc.int("batches", 1, 4, cap=4)
    batches = []
    for b in range(nb):
        n = vc.int(f"length{b}", 1, 12, cap=12)
        batches.append([tuple(int(x) for x in vc.array(f"sections{b}.{e}", (nd,), "i", 0, 5) % np.array(
            [len(p) for p in points], dtype=int)) for e in range(n)])
    arguments = {s: [(k,) for k in range(vc.choice("arguments of " + s, [1, 1, 1, 2]))] for s in STAGES}
    samples, _ = run(obj, dims, batches, arguments)
    examine(vc, samples, batches, dims, points, impacts, arguments)


class Plant:
    """Investigated object of complete simulations: parameters are copied through the stages."""

    def __init__(self, impacts):
        self.impacts = impacts
        self.values = {f"p{j}": 0 for j in range(3)}
        self.seen = {s: None for s in STAGES}


for _j in range(3):
    setattr(Plant, f"p{_j}", attribute(f"p{_j}"))
PLANTS = {}


def plant(impacts):
    key = tuple(impacts)
    if key not in PLANTS:
        ns = {f"p{j}": register(first_impact=f, last_impact=l)(attribute(f"p{j}")) for j, (f, l) in enumerate(impacts)}
        ns["__reduce__"] = lambda self: (restore, (key, self.values, self.seen))
        PLANTS[key] = type("Plant", (Plant,), ns)
    return PLANTS[key](impacts)


def restore(key, values, seen):
    p = plant(key)
    p.values, p.seen = dict(values), dict(seen)
    return p


RECORD = []


class SimulationGhost(Evaluator):
    """Records every evaluation; the mean of each section is the number its parameters encode."""

    def __init__(self, obj):
        super().__init__()
        self.obj = obj

    @property
    def title(self):
        return "ghost"

    @property
    def abbreviation(self):
        return "G"

    def initialize_result(self, grid):
        return ScalarEvaluationResult(grid, self)

    def evaluate(self):
        o = self.obj
        RECORD.append((dict(o.values), dict(o.seen)))
        return Scalar(sum(o.values[f"p{j}"] * 10 ** j for j in range(3)))


class Scalar(Artifact):
    def __init__(self, v):
        self.v = v

    def artifact(self):
        return self

    def __str__(self):
        return str(self.v)

    def to_scalar(self):
        return self.v


class PlantActor(MonteCarloActor):
    @staticmethod
    def stage_identifiers():
        return list(STAGES)

    def stage_executors(self):
        def run(name):
            def stage(*args):
                o = self._investigated_object
                o.seen[name] = dict(o.values)
            return stage
        return [run(n) for n in STAGES]


@bounded("C08", "complete simulations", n=300, budget=40, bound="up to 3 dimensions of up to 3 points, up to 3 samples, up to 2 "
         "actors under drawn schedules of the (simulated) remote calls and threads")
def simulation(vc):
    nd = vc.int("dimensions", 0, 3, cap=3)
    impacts = [vc.choice(f"impact{j}", IMPACTS) for j in range(nd)]
    obj = plant(impacts)
    N = vc.int("samples", 1, 3, cap=3)
    RECORD.clear()
    with shim(vc.rng):
        mc = MonteCarlo(obj, N, [SimulationGhost(obj)], num_actors=vc.int("actors", 1, 2), console_mode=ConsoleMode.SILENT,
                        catch_exceptions=False, progress_log_interval=0.)
        dims = [mc.new_dimension(f"p{j}", list(range(1, 2 + vc.int(f"points{j}", 0, 2)))) for j in range(nd)]
        res = mc.simulate(PlantActor)
    got = res.evaluation_results[0]
    grid = got.grid
    vc.prove("the result covers the grid", sorted(map(id, grid)) == sorted(map(id, dims)) or [g.title for g in sorted(
        grid, key=lambda g: g.title)] == [d.title for d in dims])
    a = got.to_array()
    vc.prove("the result has one entry per section", a.shape == tuple(g.num_sample_points for g in grid), a.shape)
    for s in np.ndindex(a.shape):
        want = sum(g.sample_points[i].value * 10 ** int(g.title[1:]) for g, i in zip(grid, s))
        vc.prove("each section reports what was computed under its parameters", abs(a[s] - want) < 1e-9,
                 f"section {s} of {[g.title for g in grid]} reports {a[s]}, expected {want}")
    for values, seen in RECORD:
        for j in range(nd):
            for st in affected(*impacts[j]):
                vc.prove("affected stages were executed with the evaluated parameters",
                         seen[STAGES[st]][f"p{j}"] == values[f"p{j}"])
