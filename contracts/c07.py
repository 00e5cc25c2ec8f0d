"""C07: Monte Carlo statistics are the exact per-section mean, in any arrival order."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core import ConsoleMode, AntennaMode
from hermespy.core.pymonte import MonteCarlo, MonteCarloActor
from hermespy.core.pymonte.artifact import Artifact
from hermespy.core.pymonte.scalar import ScalarEvaluationResult, ScalarEvaluator
from hermespy.core.pymonte.actors import MonteCarloCollector
from hermespy.core.pymonte.artifact import MonteCarloSample
from hermespy.core.evaluators import PAPR, TransmitPowerEvaluator, ReceivePowerEvaluator
from hermespy.radar.evaluators import RootMeanSquareErrorResult, RootMeanSquareArtifact
from hermespy.simulation import SimulatedDevice
from contracts.rayshim import shim, direct, Local


class Dim:
    def __init__(self, n):
        self.num_sample_points = n


class Value(Artifact):
    def __init__(self, v):
        self.v = v

    def artifact(self):
        return self

    def __str__(self):
        return ""

    def to_scalar(self):
        return self.v


class AnyEvaluator(ScalarEvaluator):
    title = "any"
    abbreviation = "A"

    def evaluate(self):
        raise NotImplementedError


SHAPES = [(), (1,), (2,), (2, 2)]


def sections(shape):
    return list(np.ndindex(*shape))


def entry(a, s):
    return a[s] if s or isinstance(a, np.ndarray) else a


@contract("C07", "mean of the reported artifacts", limit=60, n=400, max_paths=20000,
          note="all artifact values; grids of up to four sections, histories of up to four artifacts to any sections, some "
               "without scalar representation")
def mean(vc):
    shape = vc.choice("shape", SHAPES)
    sec = sections(shape)
    r = ScalarEvaluationResult([Dim(n) for n in shape], AnyEvaluator(), 0., 1., vc.int("minimum", 2, cap=6))
    got = {s: [] for s in sec}
    for k in range(vc.choice("artifacts", [1, 3])):
        s = sec[vc.choice(f"section{k}", list(range(len(sec))))]
        if k < 2 and vc.choice(f"empty{k}", [False, True]):
            vc.prove("empty artifacts never make a section confident", not r.add_artifact(s, Value(None)))
            continue
        v = vc.real(f"artifact{k}")
        got[s].append(v)
        vc.prove("without computing confidence no section is confident", not r.add_artifact(s, Value(v), False))
        a = r.to_array()
        vc.prove("one entry per section", tuple(a.shape) == shape)
        for q in sec:
            if got[q]:
                vc.same("each section reports the mean of its artifacts", entry(a, q) * len(got[q]), sum(got[q]))
    b = r.runtime_estimates()
    for q in sec:
        if got[q]:
            vc.same("intermediate estimates agree with the result", entry(b, q), entry(r.to_array(), q))


PRE = "_ScalarEvaluationResult__"


class Distribution(ScalarEvaluationResult):
    """The assumed distribution is a ghost: any number the contract chooses."""
    ghost = 0.
    asked = None

    def _scalar_cdf(self, x):
        self.asked = x
        return self.ghost


@contract("C07", "one more artifact", limit=60, proof_only=True, prove_ms=20000,
          note="inductive step from any number of artifacts in any section (ghost access to the accumulated sums); any value, "
               "any confidence requirement, tolerance, minimum number of samples and assumed distribution")
def step(vc):
    shape = vc.choice("shape", [(), (2,)])
    sec = sections(shape)
    minimum = vc.int("minimum", 2)
    conf, tol = vc.real("confidence", 0, 1), vc.real("tolerance", 0)
    r = Distribution([Dim(n) for n in shape], AnyEvaluator(), tol, conf, minimum)
    r.ghost = vc.real("cdf", 0, 1)
    sums = vc.private(r, PRE + "artifact_sums")
    sq = vc.private(r, PRE + "artifact_squared_sums")
    cnt = vc.private(r, PRE + "artifact_count")
    S, Q, C = [], [], []
    for j, s in enumerate(sec):
        S.append(vc.real(f"sum{j}"))
        Q.append(vc.real(f"squares{j}", 0))
        C.append(vc.int(f"count{j}", 0))
        sums[s], sq[s], cnt[s] = S[j], Q[j], C[j]
    j = vc.choice("section", list(range(len(sec))))
    v = vc.real("value")
    n = C[j] + 1
    # the accumulated squares of n real numbers are never below their squared sum divided by n
    vc.assume((Q[j] + v * v) * n >= (S[j] + v) * (S[j] + v))
    vc.assume(vc.any(C[j] >= 1, vc.all(S[j] == 0, Q[j] == 0)))
    compute = vc.choice("compute", [True, False])
    c = r.add_artifact(sec[j], Value(v), compute)
    for k, s in enumerate(sec):
        m = C[k] + (1 if k == j else 0)
        if m >= 1:
            vc.same("mean after one more artifact", entry(r.to_array(), s) * m, S[k] + (v if k == j else 0.))
    if compute:
        if n % minimum == 0:
            var = ((Q[j] + v * v) - (S[j] + v) * (S[j] + v) / n)
            if var > 0:
                vc.prove("confident exactly when the error probability is below the threshold",
                         vc.any(vc.all(c, 2 * (1 - r.ghost) < conf), vc.all(not c, 2 * (1 - r.ghost) >= conf)))
                vc.prove("the assumed distribution is asked once", r.asked is not None)
                vc.prove("the tolerance is normalised by the standard error of the mean",
                         vc.all(r.asked >= 0, r.asked * r.asked * var == n * (n - 1) * tol * tol))
            else:
                vc.prove("sections without deviation are not confident", not c)
        else:
            vc.prove("confident only at multiples of the minimum number of samples", not c)
    else:
        vc.prove("without computing confidence no section is confident", not c)


@contract("C07", "confidence rule", limit=60, n=600, prove_ms=15000,
          note="all artifact values of sections with two or three artifacts, any threshold, tolerance and assumed distribution")
def rule(vc):
    minimum = vc.choice("minimum", [2, 4])
    conf, tol = vc.real("confidence", 0, 1), vc.real("tolerance", 0)
    r = Distribution([Dim(2)], AnyEvaluator(), tol, conf, minimum)
    r.ghost = vc.real("cdf", 0, 1)
    vs = [vc.real(f"artifact{k}") for k in range(4)]
    for k in range(4):
        r.asked = None
        c = r.add_artifact((1,), Value(vs[k]))
        if (k + 1) % minimum:
            vc.prove("confident only at multiples of the minimum number of samples", not c)
            continue
        n = k + 1
        s = sum(vs[:n])
        var = sum(v * v for v in vs[:n]) - s * s / n
        if var > 1e-9:
            vc.prove("confident exactly when the error probability is below the threshold",
                     vc.any(vc.all(c, 2 * (1 - r.ghost) < conf), vc.all(not c, 2 * (1 - r.ghost) >= conf)))
            if r.asked is not None and not vc.symbolic:
                vc.same("the tolerance is normalised by the standard error of the mean", r.asked * r.asked * var,
                        n * (n - 1) * tol * tol, 1e-6)
    vc.prove("the other section is not confident", not r.add_artifact((0,), Value(vs[0])))


class Target:
    """Something transmitting or receiving."""

    def add_transmit_callback(self, c):
        return self

    add_receive_callback = add_transmit_callback

    def remove(self):
        pass


@contract("C07", "configured stopping rule", limit=30, n=200,
          note="all thresholds, tolerances and minimum numbers of samples; every scalar evaluator of the library")
def configured(vc):
    device = SimulatedDevice()
    kind = vc.choice("evaluator", ["any", "papr tx", "papr rx", "transmit power", "receive power"])
    conf, tol, minimum = vc.real("confidence", 0, 1), vc.real("tolerance", 0), vc.int("minimum", 2, cap=5)
    surface = vc.choice("surface", [True, False])
    k = dict(confidence=conf, tolerance=tol, min_num_samples=minimum, plot_surface=surface)
    if kind == "any":
        e = AnyEvaluator(**k)
    elif kind.startswith("papr"):
        e = PAPR(device, AntennaMode.TX if kind.endswith("tx") else AntennaMode.RX, **k)
    elif kind == "transmit power":
        e = TransmitPowerEvaluator(Target(), **k)
    else:
        e = ReceivePowerEvaluator(Target(), **k)
    vc.prove("evaluators keep their configuration", vc.all(e.confidence == conf, e.tolerance == tol,
                                                           e.min_num_samples == minimum))
    r = e.initialize_result([Dim(2)])
    vc.prove("results are scalar results of this evaluator", isinstance(r, ScalarEvaluationResult) and r.evaluator is e)
    vc.prove("surface plots are configured", r.plot_surface == surface)
    for a, b in (("confidence", conf), ("accuracy", tol), ("min_num_samples", minimum)):
        vc.prove("results apply the configured stopping rule", vc.private(r, PRE + a) == b)


@contract("C07", "root mean square errors", limit=40, n=200, note="all values; up to four artifacts in grids of up to four "
          "sections")
def rms(vc):
    shape = vc.choice("shape", SHAPES)
    sec = sections(shape)
    r = RootMeanSquareErrorResult([Dim(n) for n in shape], AnyEvaluator())
    got = {s: [] for s in sec}
    for k in range(vc.choice("artifacts", [1, 2, 3])):
        s = sec[vc.choice(f"section{k}", list(range(len(sec))))]
        n, c = vc.int(f"errors{k}", 1), vc.real(f"squares{k}", 0)
        got[s].append((n, c))
        r.add_artifact(s, RootMeanSquareArtifact(n, c))
    a = r.to_array()
    for s in sec:
        if got[s]:
            x = entry(a, s)
            vc.prove("root mean squares are not negative", x >= 0)
            vc.same("root of the mean over all errors of the section", x * x * sum(n for n, _ in got[s]),
                    sum(c for _, c in got[s]))


class Queue:
    def __init__(self):
        self.disabled = []

    def disable_section(self, s):
        self.disabled.append(tuple(s))


class Source:
    def __init__(self, replies):
        self.replies = list(replies)

    def fetch_results(self):
        return self.replies.pop(0) if self.replies else []


@bounded("C07", "arrival order", n=300, bound="up to 40 samples of up to 3 x 3 sections and 2 evaluators from up to 3 actors")
def arrival(vc):
    """The collector's results depend on the set of samples only, and confident sections are retired."""
    shape = tuple(vc.int(f"points{j}", 1, 3, cap=3) for j in range(vc.int("dimensions", 0, 2, cap=2)))
    sec = sections(shape)
    n = vc.int("samples", 0, 40, cap=40)
    data = [(sec[vc.rng.integers(0, len(sec))], [None if vc.rng.integers(0, 6) == 0 else float(vc.rng.normal()) for _ in
                                                 range(2)]) for _ in range(n)]
    results = []
    for _ in range(2):
        order = vc.rng.permutation(n)
        cuts = np.sort(vc.rng.integers(0, n + 1, 5))
        parts = [[MonteCarloSample(data[i][0], 0, [Value(v) for v in data[i][1]]) for i in p] for p in np.split(order, cuts)]
        actors = [Local(Source([parts[0:2], parts[2:3]])), Local(Source([parts[3:6]]))]
        with direct():
            c = MonteCarloCollector(Local(Queue()), actors, [Dim(k) for k in shape], [AnyEvaluator(), AnyEvaluator()])
            results.append([c.fetch_results() for _ in range(3)][-1])
    for e in range(2):
        a, b = results[0][e].to_array(), results[1][e].to_array()
        for s in sec:
            vs = [d[1][e] for d in data if d[0] == s and d[1][e] is not None]
            for x in (a, b):
                vc.prove("each section reports the mean of its artifacts", abs(x[s] - np.mean(vs)) < 1e-9 if vs else
                         np.isnan(x[s]), f"{x[s]} instead of the mean of {vs}")


RECORD = []


class Object:
    def __init__(self):
        self.x = 0

    x = property(lambda self: self._x, lambda self, v: setattr(self, "_x", v))


class Recorder(ScalarEvaluator):
    title = "recorder"
    abbreviation = "R"

    def __init__(self, obj, **k):
        super().__init__(**k)
        self.obj = obj

    def evaluate(self):
        v = float(len(RECORD) % 7) + 100. * self.obj.x
        RECORD.append((self.obj.x, v))
        return Value(v)


class RecorderActor(MonteCarloActor):
    @staticmethod
    def stage_identifiers():
        return ["only"]

    def stage_executors(self):
        return [lambda *a: None]


@bounded("C07", "complete simulations", n=250, budget=40, bound="one dimension of up to 3 points, up to 5 samples, up to 3 "
         "actors under drawn schedules of the (simulated) remote calls and threads")
def simulation(vc):
    obj = Object()
    N = vc.int("samples", 1, 5, cap=5)
    RECORD.clear()
    stop = vc.bool("early stopping")
    k = dict(confidence=1., tolerance=100., min_num_samples=2) if stop else {}
    with shim(vc.rng):
        mc = MonteCarlo(obj, N, [Recorder(obj, **k)], num_actors=vc.int("actors", 1, 3), console_mode=ConsoleMode.SILENT,
                        catch_exceptions=False, progress_log_interval=0.)
        pts = list(range(vc.int("points", 1, 3)))
        mc.new_dimension("x", pts)
        a = mc.simulate(RecorderActor).evaluation_results[0].to_array()
    for x in pts:
        vs = [v for y, v in RECORD if y == x]
        vc.prove("every section is sampled as often as requested", len(vs) == N or stop and 2 <= len(vs) <= N, len(vs))
        vc.prove("each section reports the mean over all of its samples", abs(a[x] - np.mean(vs)) < 1e-9, f"{a[x]}: {vs}")
