"""C18: beamformers point where they are asked to."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.beamforming import CaponBeamformer, ConventionalBeamformer, CoordinateFocus, NullSteeringBeamformer, SphericalFocus
from hermespy.core import AntennaMode, Direction, Transformation
from hermespy.core.signal_model import DenseSignal
from hermespy.simulation import DeviceFocus, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, StaticTrajectory

C = 299792458.0
DUPLEX, TX, RX = AntennaMode.DUPLEX, AntennaMode.TX, AntennaMode.RX
LAYOUTS = {"one antenna": [DUPLEX], "two antennas": [DUPLEX, DUPLEX], "mixed antennas": [RX, DUPLEX, TX], "three antennas": [DUPLEX] * 3}
RATE = 4.0


def device(positions, modes, fc, pose=None):
    antennas = []
    for p, m in zip(positions, modes):
        a = SimulatedIdealAntenna(mode=m, pose=Transformation.From_Translation(np.array(p)))
        antennas.append(a)
    d = SimulatedDevice(antennas=SimulatedCustomArray(antennas), carrier_frequency=fc)
    if pose is not None:
        d.trajectory = StaticTrajectory(pose)
    return d


TURNS = [np.eye(3), np.array([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]), np.array([[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]])]


def placed(vc, modes):
    """A turned and moved device with antennas anywhere, at any carrier frequency."""
    p = [[vc.real(f"x{i}", -1.0, 1.0), vc.real(f"y{i}", -1.0, 1.0), vc.real(f"z{i}", -1.0, 1.0)] for i in range(len(modes))]
    fc = vc.real("carrier", 1e6, 1e9)
    at = [vc.real("position", -9.0, 9.0), 2.0, 1.0]
    t = Transformation.From_Translation(np.array(at))
    t[:3, :3] = vc.choice("turn", TURNS)
    return device(p, modes, fc, t), p, fc


def response(p, modes, mode, fc, angles):
    """Phases of a plane wave of the given direction at the antennas relative to the origin of the array."""
    az, ze = angles
    k = [np.cos(az) * np.sin(ze), np.sin(az) * np.sin(ze), np.cos(ze)]
    return [np.exp(2j * np.pi * fc * (k[0] * q[0] + k[1] * q[1] + k[2] * q[2]) / C) for q, m in zip(p, modes)
            if m is DUPLEX or m is mode]


def direction(vc, name):
    return vc.real(name + " azimuth", -3.0, 3.0), vc.real(name + " zenith", 0.1, 3.0)


def impinging(a, s):
    """Samples s arriving with the given phases."""
    return np.stack([x * s for x in a])


def signal(x, fc):
    return DenseSignal.FromNDArray(x, RATE, carrier_frequency=fc)


def raw(s):
    return s.to_dense().view(np.ndarray)


for NAME in LAYOUTS:
    @contract("C18", f"conventional reception, {NAME}", n=30, limit=60)
    def receive(vc, modes=LAYOUTS[NAME]):
        d, p, fc = placed(vc, modes)
        look = direction(vc, "focus")
        n = vc.int("samples", 1, cap=6)
        s = vc.array("s", (n,), "c")
        b = ConventionalBeamformer()
        b.receive_focus = SphericalFocus(*look)
        state = d.state()
        y = b.decode_streams(signal(impinging(response(p, modes, RX, fc, look), s), fc), 1, state)
        vc.prove("one stream", y.num_streams == 1)
        k = vc.index("sample", n)
        vc.eq("waves of the focused direction are received with unit gain", raw(y)[0, k], s[k], tol=1e-6)

    @contract("C18", f"conventional transmission, {NAME}", n=30, limit=60)
    def transmit(vc, modes=LAYOUTS[NAME]):
        d, p, fc = placed(vc, modes)
        look = direction(vc, "focus")
        n = vc.int("samples", 1, cap=6)
        s = vc.array("s", (n,), "c")
        b = ConventionalBeamformer()
        b.transmit_focus = SphericalFocus(*look)
        state = d.state()
        y = b.encode_streams(signal(s[np.newaxis, :], fc), state.num_transmit_dsp_ports, state)
        a = response(p, modes, TX, fc, look)
        vc.prove("one stream for each antenna", y.num_streams == len(a))
        k = vc.index("sample", n)
        vc.eq("waves add up coherently in the focused direction", sum(x * raw(y)[i, k] for i, x in enumerate(a)), len(a) * s[k], tol=1e-6)
        for i in range(len(a)):
            vc.eq("equal power of all antennas", raw(y)[i, k].real ** 2 + raw(y)[i, k].imag ** 2, s[k].real ** 2 + s[k].imag ** 2, tol=1e-6)


@contract("C18", "probing, conventional", n=30, limit=120)
def probe(vc):
    modes = vc.choice("antennas", list(LAYOUTS.values()))
    d, p, fc = placed(vc, modes)
    b, state = ConventionalBeamformer(), d.state()
    n, m = vc.int("samples", 1, cap=6), sum(k is not TX for k in modes)
    x = vc.array("x", (m, n), "c")
    looks = [direction(vc, f"focus {i}") for i in range(2)]
    points = np.array([[q] for q in looks])
    y = b.probe(x, state, points)
    vc.prove("a stream for each direction", y.shape == (2, 1, n))
    b.probe_focus_points = points
    z = b.probe(x, state)
    k = vc.index("sample", n)
    for i in range(2):
        b.receive_focus = SphericalFocus(*looks[i])
        r = raw(b.decode_streams(signal(x, fc), 1, state))
        vc.eq("probing is reception of each direction", y[i, 0, k], r[0, k], tol=1e-9)
        vc.eq("directions probed by default", z[i, 0, k], r[0, k], tol=1e-9)


class Setting:
    """A device with random antennas, pose and carrier frequency."""

    def __init__(self, rng, low=1, high=7):
        m = int(rng.integers(low, high))
        self.modes = [[DUPLEX, DUPLEX, RX, TX][rng.integers(4)] for _ in range(m)] + [DUPLEX] * low
        self.fc = float(rng.choice([1e8, 1e9, 1e10]))
        self.p = rng.uniform(-1, 1, (len(self.modes), 3)) * C / self.fc * 2
        self.pose = Transformation.From_RPY(rng.uniform(-3, 3, 3), rng.uniform(-10, 10, 3))
        self.device = device(self.p, self.modes, self.fc, self.pose)
        self.state = self.device.state()

    def response(self, mode, angles):
        return np.array(response(self.p, self.modes, mode, self.fc, angles))

    def receive(self, beamformer, x, focus=None):
        return raw(beamformer.decode_streams(signal(x, self.fc), 1, self.state, focus))[0]

    def transmit(self, beamformer, s, focus=None):
        return raw(beamformer.encode_streams(signal(s[np.newaxis], self.fc), self.state.num_transmit_dsp_ports, self.state, focus))


def looking(rng, n=1):
    """Directions which are not close to each other."""
    r = []
    while len(r) < n:
        q = rng.normal(size=3)
        q /= np.linalg.norm(q)
        if all(np.linalg.norm(q - o) > .5 for o in r):
            r.append(q)
    return [np.array([np.arctan2(q[1], q[0]), np.arccos(q[2])]) for q in r]


def noise(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def close(a, b, tol=1e-6):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


KINDS = {"conventional": ConventionalBeamformer, "Capon": lambda: CaponBeamformer(0.5), "null steering": NullSteeringBeamformer}

for KIND in KINDS:
    @bounded("C18", f"probing of random arrays, {KIND}", bound="at most 13 antennas, 6 directions", n=60, budget=10)
    def probes(vc, kind=KIND):
        rng = vc.rng
        w = Setting(rng, 3 if kind == "null steering" else 1)
        b = KINDS[kind]()
        m, f, n = int(rng.integers(1, 7)), b.num_receive_focus_points, int(rng.integers(1, 9))
        x = noise(rng, w.state.antennas.num_receive_antennas, n)
        points = np.array([looking(rng, f) for _ in range(m)])
        y = b.probe(x, w.state, points)
        vc.prove("a stream for each direction", y.shape == (m, 1, n))
        b.probe_focus_points = points
        vc.prove("directions probed by default", close(b.probe(x, w.state), y))
        for i in range(m):
            focus = [SphericalFocus(q) for q in points[i]]
            vc.prove("probing is reception of each direction", close(w.receive(b, x, focus), y[i, 0]))
            b.receive_focus = focus
            vc.prove("reception of the configured focus", close(w.receive(b, x), y[i, 0]))


@bounded("C18", "conventional beams of random arrays", bound="at most 8 antennas", n=100, budget=10)
def conventional(vc):
    rng = vc.rng
    w, b = Setting(rng), ConventionalBeamformer()
    q, o = looking(rng, 2)
    s = noise(rng, 5)
    a, t = w.response(RX, q), w.response(TX, q)
    b.receive_focus, b.transmit_focus = SphericalFocus(q), SphericalFocus(*q)
    vc.prove("unit gain of the focused direction", close(w.receive(b, np.outer(a, s)), s))
    vc.prove("lower gain of all others", np.linalg.norm(w.receive(b, np.outer(w.response(RX, o), s))) <= np.linalg.norm(s) * (1 + 1e-9))
    y = w.transmit(b, s)
    vc.prove("coherent transmission to the focused direction", close(t @ y, len(t) * s))


@bounded("C18", "Capon beams of random arrays", bound="at most 8 antennas", n=100, budget=10)
def capon(vc):
    rng = vc.rng
    w = Setting(rng)
    q, o = looking(rng, 2)
    loading = float(rng.choice([1e-3, .1, 2.0]))
    b = CaponBeamformer(loading)
    b.receive_focus = SphericalFocus(q)
    a = w.response(RX, q)
    s = noise(rng, 5)
    vc.prove("unit gain of the focused direction", close(w.receive(b, np.outer(a, s)), s, 1e-5))
    n = 3 * len(a)
    x = np.outer(a, noise(rng, n)) + 3 * np.outer(w.response(RX, o), noise(rng, n)) + .3 * noise(rng, len(a), n)
    y = w.receive(b, x)
    h = y @ np.linalg.pinv(x)
    vc.prove("the output is a weighted sum of the streams", close(h @ x, y, 1e-5))
    vc.prove("distortionless in the focused direction", abs(h @ a - 1) < 1e-5)
    for _ in range(3):
        v = noise(rng, len(a))
        v = v / (v @ a)
        cost = [np.linalg.norm(u @ x) ** 2 + loading * np.linalg.norm(u) ** 2 for u in (h, v)]
        vc.prove("no distortionless sum has less power", cost[0] <= cost[1] * (1 + 1e-5))


@bounded("C18", "null steering of random arrays", bound="at most 9 antennas", n=100, budget=10)
def nulls(vc):
    rng = vc.rng
    w, b = Setting(rng, 3), NullSteeringBeamformer()
    q = looking(rng, 3)
    s = noise(rng, 4)
    b.receive_focus = [SphericalFocus(k) for k in q]
    b.transmit_focus = [SphericalFocus(k) for k in q]
    y = w.transmit(b, s)
    for mode, gain in ((RX, lambda a: w.receive(b, np.outer(a, s))), (TX, lambda a: a @ y)):
        a = [w.response(mode, k) for k in q]
        u, v = np.linalg.svd(np.array(a[1:]).T.conj())[:2]
        if v[1] < .3:
            continue
        rest = a[0].conj() - u[:, :2] @ (u[:, :2].T.conj() @ a[0].conj())
        if np.linalg.norm(rest) < .3:
            continue
        for k in (1, 2):
            vc.prove("null directions are suppressed", np.linalg.norm(gain(a[k])) < 1e-6 * np.linalg.norm(s))
        vc.prove("the focused direction keeps all of its remaining gain", close(gain(a[0]), np.linalg.norm(rest) * s, 1e-5))


@bounded("C18", "focus points", bound="random poses and directions", n=200, budget=10)
def focuses(vc):
    rng = vc.rng
    w = Setting(rng)
    r = w.pose.view(np.ndarray)[:3, :3]
    local = rng.normal(size=3) if rng.random() < .7 else np.array([0.0, 0.0, rng.choice([-1.0, 1.0])])
    local = local / np.linalg.norm(local)
    glob = r @ local
    other = SimulatedDevice()
    other.trajectory = StaticTrajectory(Transformation.From_Translation(w.pose.translation + glob * float(rng.uniform(1, 100))))
    az = [np.arctan2(local[1], local[0]), np.arccos(local[2])]
    length = float(rng.uniform(.1, 10))
    for name, f in (("spherical", SphericalFocus(*az)), ("array", SphericalFocus(np.array(az))),
                    ("local", CoordinateFocus(local * length)), ("unit", CoordinateFocus(Direction.From_Cartesian(local, True), "local")),
                    ("global", CoordinateFocus(glob * length, "global")), ("device", DeviceFocus(other))):
        for g in (f, f.copy()):
            a, z = g.spherical_angles(w.state)
            k = np.array([np.cos(a) * np.sin(z), np.sin(a) * np.sin(z), np.cos(z)])
            vc.prove(f"{name} focus points to its direction", bool(np.linalg.norm(k - local) < 1e-6))


@bounded("C18", "beams between devices", bound="random poses, far field", n=60, budget=10)
def between(vc):
    """A wave between distant devices is received with unit gain and arrives coherently from all antennas."""
    rng = vc.rng
    w = Setting(rng)
    away = rng.normal(size=3)
    away = w.pose.translation + 1e6 * away / np.linalg.norm(away)
    other = SimulatedDevice()
    other.trajectory = StaticTrajectory(Transformation.From_Translation(away))
    kind = rng.integers(2)
    b = ConventionalBeamformer()
    b.receive_focus = b.transmit_focus = [DeviceFocus(other), CoordinateFocus(away - w.pose.translation, "global")][kind]
    s = noise(rng, 4)
    for mode in (RX, TX):
        a = w.state.antennas.cartesian_phase_response(w.fc, away, "global", mode)
        reference = np.exp(-2j * np.pi * w.fc * np.linalg.norm(away - w.pose.translation) / C)
        a = a / reference
        if mode is RX:
            vc.prove("unit gain of the focused device", close(w.receive(b, np.outer(a, s)), s, 1e-3))
        else:
            vc.prove("coherent transmission to the focused device", close(a @ w.transmit(b, s), len(a) * s, 1e-3))
