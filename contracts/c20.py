"""C20: the operating characteristic is a monotone curve of empirical probabilities."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core import Hookable, ScenarioMode
from hermespy.radar import Radar, ReceiverOperatingCharacteristic
from hermespy.radar.cube import RadarCube
from hermespy.radar.evaluators import RocArtifact, RocEvaluation, RocEvaluationResult


class Dim:
    def __init__(self, n):
        self.num_sample_points = n


def share(values, threshold):
    """How many of the values reach the threshold?"""
    return np.sum(values >= threshold)


@contract("C20", "empirical probabilities of any number of observations", n=60, limit=60)
def probabilities(vc):
    n, num = vc.int("observations", 1, cap=6), vc.int("thresholds", 1, cap=6)
    h0, h1 = vc.array("h0", (n,), "f"), vc.array("h1", (n,), "f")
    r = RocEvaluationResult([], None, num)
    for i in range(n):
        r.add_artifact((), RocArtifact(h0[i], h1[i]))
    p = r.to_array()
    vc.prove("one pair of probabilities per threshold", p.shape == (num, 2))
    t = vc.index("threshold", num)
    both = np.stack((h0, h1), 1)
    x = np.linspace(both.min(), both.max(), num)[t]
    vc.eq("detection probability", p[t, 0] * n, share(h1, x) + 0.0, tol=1e-9)
    vc.eq("false alarm probability", p[t, 1] * n, share(h0, x) + 0.0, tol=1e-9)


@contract("C20", "monotone curve of any number of observations", n=60, limit=60)
def monotone(vc):
    n, num = vc.int("observations", 1, cap=6), vc.int("thresholds", 1, cap=6)
    h0, h1 = vc.array("h0", (n,), "f"), vc.array("h1", (n,), "f")
    r = RocEvaluationResult([], None, num)
    for i in range(n):
        r.add_artifact((), RocArtifact(h0[i], h1[i]))
    p = r.to_array()
    both = np.stack((h0, h1), 1)
    t, u = vc.index("threshold", num), vc.index("other threshold", num)
    for j, name in enumerate(("detection", "false alarm")):
        vc.le(f"{name} probabilities are not negative", 0.0, p[t, j])
        vc.le(f"{name} probabilities are at most one", p[t, j], 1.0)
        vc.eq("everything reaches the first threshold", p[0, j], 1.0)
        if t <= u:
            x = np.linspace(both.min(), both.max(), num)
            vc.cut("thresholds ascend", x[t] <= x[u])
            vc.le(f"{name} probabilities do not increase with the threshold", p[u, j] * n, p[t, j] * n)


@contract("C20", "sections do not influence each other", n=60, limit=60)
def sections(vc):
    shape = vc.choice("grid", [(2,), (1, 2)])
    cells = list(np.ndindex(*shape))
    r = RocEvaluationResult([Dim(n) for n in shape], None, 2)
    seen = {c: [] for c in cells}
    for k in range(vc.choice("observations", [1, 2])):
        c = cells[vc.choice(f"section{k}", [0, 1])]
        a = vc.real(f"h0 {k}"), vc.real(f"h1 {k}")
        seen[c].append(a)
        vc.prove("no section is ever declared confident", not r.add_artifact(c, RocArtifact(a[0], a[1])))
    p = r.to_array()
    vc.prove("one curve per section", p.shape == shape + (2, 2))
    for c in cells:
        if not seen[c]:
            if not vc.symbolic:
                vc.prove("no probabilities without observations", bool(np.all(np.isnan(p[c]))))
            continue
        values = [v for a in seen[c] for v in a]
        values = np.array(values)
        for t, x in enumerate(np.linspace(values.min(), values.max(), 2)):
            for j in (0, 1):
                vc.eq("share of the section's observations", p[c + (t, j)] * len(seen[c]),
                      sum(1.0 if a[1 - j] >= x else 0.0 for a in seen[c]), tol=1e-9)


def radar_cube(vc, name):
    n = vc.int(f"{name} range bins", 1, cap=3)
    data = vc.array(name, (2, 1, n), "f", lo=0.0)
    return RadarCube(data, np.zeros((2, 2)), None, None, 1e9)


class Reception:
    def __init__(self, cube):
        self.cube = cube


class AnyRadar(Radar):
    """A radar whose receptions are given."""

    def __init__(self):
        Radar.__init__(self)
        self.requests = []
        self.reply = None
        self.listeners = Hookable()

    def add_receive_callback(self, callback):
        return self.listeners.add_callback(callback)

    def receive(self, signal, state, notify=True):
        self.requests.append((signal, state, notify))
        if notify:
            self.listeners.notify(self.reply)
        return self.reply


class Operators(list):
    def operator_index(self, operator):
        return self.index(operator)


class Device:
    def __init__(self, receivers):
        self.receivers = Operators(receivers)
        self.simulated_input_callbacks = Hookable()
        self.simulated_output_callbacks = Hookable()
        self.requests = []
        self.inputs = None

    def state(self, time):
        return ("state", time)

    def process_from_realization(self, impinging, realization, trigger, leaking, state):
        self.requests.append((list(impinging), realization, trigger, leaking, state))
        return self.inputs


class Record:
    def __init__(self, **values):
        self.__dict__.update(values)


class Sample:
    """A channel sample whose null hypothesis forwards to a given propagation."""

    time = 1.5

    def __init__(self, output, propagated):
        self.output, self.propagated, self.null = output, propagated, False

    def null_hypothesis(self):
        n = Sample(self.output, self.propagated)
        n.null = True
        return n

    def propagate(self, output):
        if not self.null or output is not self.output:
            raise RuntimeError("the target was not removed or another signal is propagated")
        return self.propagated


class ChannelStub:
    def __init__(self, devices):
        self.scenario = Record(device_index=devices.index)
        self.hooks = []

    def add_sample_hook(self, callback, transmitter, receiver):
        self.hooks.append((callback, transmitter, receiver))


@contract("C20", "both hypotheses of a single evaluation", n=40, limit=60)
def evaluation(vc):
    radar, other = AnyRadar(), AnyRadar()
    at = vc.choice("operator index", [0, 1])
    tx = vc.choice("transmitting device", [0, 1, 2])
    receiver = Device([radar, other] if at == 0 else [other, radar])
    devices = [Device([]), receiver, Device([])]
    channel = ChannelStub(devices)
    num = vc.int("thresholds", 1, cap=5)
    ev = ReceiverOperatingCharacteristic(radar, devices[tx], receiver, channel, num)
    vc.raises("nothing was received", RuntimeError, ev.evaluate)
    h0, h1 = radar_cube(vc, "h0"), radar_cube(vc, "h1")
    output = Record(trigger_realization="trigger")
    impinging = ["first", "second", "third"]
    realization = Record(impinging_signals=impinging, leaking_signal="leaking")
    receiver.inputs = Record(operator_inputs=["input 0", "input 1"])
    radar.reply = Reception(h0)
    radar.listeners.notify(Reception(h1))
    vc.prove("listens to the link", len(channel.hooks) == 1 and channel.hooks[0][1] is devices[tx] and channel.hooks[0][2] is receiver)
    channel.hooks[0][0](Sample(output, "without target"))
    vc.raises("no output was captured", RuntimeError, ev.evaluate)
    devices[tx].simulated_output_callbacks.notify(output)
    receiver.simulated_input_callbacks.notify(realization)
    a = ev.evaluate().artifact()
    expected = ["without target" if i == tx else s for i, s in enumerate(["first", "second", "third"])]
    vc.prove("only the evaluated link is exchanged", len(receiver.requests) == 1
             and receiver.requests[0] == (expected, realization, "trigger", "leaking", ("state", 1.5)))
    vc.prove("the radar processes its own input without notifying",
             radar.requests == [(f"input {at}", ("state", 1.5), False)] and not other.requests)
    vc.prove("the captured signals are untouched", impinging == ["first", "second", "third"])
    vc.eq("null hypothesis", a.h0_value, h0.data.max())
    vc.eq("alternative hypothesis", a.h1_value, h1.data.max())
    p = ev.initialize_result([]).to_array()
    vc.prove("as many thresholds as configured", p.shape == (num, 2))


class Drops:
    """A scenario replaying given cubes."""

    def __init__(self, radar, device, operator, campaigns, mode=ScenarioMode.REPLAY):
        self.radar, self.at, self.campaigns, self.mode = radar, (device, operator), campaigns, mode
        other = AnyRadar()
        operated = Device([radar] if operator == 0 else [other, radar])
        self.devices = [operated] if device == 0 else [Device([other]), operated]
        self.operators = [radar]
        self.num_operators = 1
        self.cubes = campaigns.get(None)
        self.count = 0
        self.calls = []

    def replay(self, campaign=None, drop_offset=0, backend=None):
        self.calls.append((campaign, drop_offset))
        self.cubes = self.campaigns[campaign][drop_offset:]
        self.count = 0
        return len(self.cubes)

    def drop(self):
        cube = self.cubes[self.count]
        self.count += 1
        good, bad = Reception(cube), Reception(None)
        operators = Record(operator_receptions=[good] if self.at[1] == 0 else [bad, good])
        return Record(device_receptions=[operators] if self.at[0] == 0 else [Record(operator_receptions=[bad]), operators])


def cube_of(power):
    return RadarCube(np.array([[[power, 0.0]]]))


def curve(vc, result, h0, h1, num):
    p = result.to_array()[0]
    n = len(h0)
    vc.prove("as many thresholds as configured", p.shape == (num, 2))
    lo, hi = min(h0 + h1), max(h0 + h1)
    for t, x in enumerate(np.linspace(lo, hi, num)):
        vc.eq("detection probability", p[t, 0] * n, sum(1.0 if v >= x else 0.0 for v in h1), tol=1e-9)
        vc.eq("false alarm probability", p[t, 1] * n, sum(1.0 if v >= x else 0.0 for v in h0), tol=1e-9)


@contract("C20", "characteristics of two scenarios", n=60, limit=60)
def scenarios(vc):
    n, num = vc.choice("drops", [1, 2]), vc.choice("thresholds", [1, 2])
    h0, h1 = ([vc.real(f"{h} {k}", 0.0, 10.0) for k in range(n)] for h in ("h0", "h1"))
    radars = AnyRadar(), AnyRadar()
    where = [(vc.choice(f"device {i}", [0, 1]), vc.choice(f"operator {i}", [0, 1])) for i in range(2)]
    a, b = (Drops(radars[i], *where[i], {None: [cube_of(v) for v in h]}) for i, h in enumerate((h0, h1)))
    explicit = vc.choice("operators given", [False, True])
    r = ReceiverOperatingCharacteristic.FromScenarios(a, b, n, *(radars if explicit else (None, None)), num)
    curve(vc, r, h0, h1, num)
    vc.raises("no drops", ValueError, lambda: ReceiverOperatingCharacteristic.FromScenarios(a, b, 0))
    vc.raises("foreign operator", ValueError, lambda: ReceiverOperatingCharacteristic.FromScenarios(a, b, n, AnyRadar()))


class Quiet:
    """Progress of a replay is not shown."""

    def __getattr__(self, name):
        return lambda *a, **k: None


@contract("C20", "characteristics of a replayed scenario", n=60, limit=90)
def replayed(vc):
    h0, h1 = ([vc.real(f"{h} {k}", 0.0, 10.0) for k in range(2)] for h in ("h0", "h1"))
    n, offset = vc.choice("drops and offset", [(1, 1), (2, 0)])
    radar = AnyRadar()
    s = Drops(radar, *vc.choice("device and operator", [(0, 1), (1, 0)]),
              {"a": [cube_of(v) for v in h0], "b": [cube_of(v) for v in h1]})
    r = ReceiverOperatingCharacteristic.FromScenario(s, radar, "a", "b", offset, n, console=console())
    curve_at(vc, r, h0[offset:][:n], h1[offset:][:n])
    vc.raises("foreign operator", ValueError, lambda: ReceiverOperatingCharacteristic.FromScenario(s, AnyRadar(), "a", "b", 0, 1, console=console()))
    s.mode = ScenarioMode.RECORD
    vc.raises("not replaying", ValueError, lambda: ReceiverOperatingCharacteristic.FromScenario(s, radar, "a", "b", 0, 1, console=console()))


def console():
    import io
    from rich.console import Console
    return Console(file=io.StringIO(), force_terminal=False)


def curve_at(vc, result, h0, h1):
    """Spot check of a curve of many thresholds."""
    p = result.to_array()[0]
    n, num = len(h0), 101
    vc.prove("as many thresholds as by default", p.shape == (num, 2))
    both = np.array([h0, h1])
    x = np.linspace(both.min(), both.max(), num)
    for t in (0, 50):
        vc.eq("detection probability", p[t, 0] * n, sum(1.0 if v >= x[t] else 0.0 for v in h1), tol=1e-9)
        vc.eq("false alarm probability", p[t, 1] * n, sum(1.0 if v >= x[t] else 0.0 for v in h0), tol=1e-9)
