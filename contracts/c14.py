"""C14: rigid-body transformations form a group acting on positions and directions."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.transformation import Direction, Transformable, TransformableBase, Transformation


def vector(vc, name, n=3, lo=-5.0, hi=5.0):
    return np.array([vc.real(f"{name}{i}", lo, hi) for i in range(n)])


def rpy(vc, name="rpy"):
    return vector(vc, name, 3, -3.0, 3.0)


def det3(m):
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
            + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))


def rotation(vc, t, label=""):
    """The transformation is a rotation followed by a translation."""
    m = t.view(np.ndarray)
    vc.prove(f"{label}four by four", m.shape == (4, 4))
    for i in range(3):
        for j in range(i, 3):
            vc.eq(f"{label}columns are orthonormal", m[0, i] * m[0, j] + m[1, i] * m[1, j] + m[2, i] * m[2, j],
                  1.0 if i == j else 0.0, tol=1e-9)
    vc.eq(f"{label}determinant one", det3(m), 1.0, tol=1e-9)
    for i in range(4):
        vc.eq(f"{label}last row", m[3, i], 1.0 if i == 3 else 0.0)


def affine(vc, name):
    """Any map that is linear up to a shift."""
    m = [[vc.real(f"{name}{i}{j}", -2.0, 2.0) for j in range(4)] for i in range(3)]
    return np.array(m + [[0.0, 0.0, 0.0, 1.0]]).view(Transformation)


def rx(a):
    return np.array([[1.0, 0.0, 0.0], [0.0, np.cos(a), -np.sin(a)], [0.0, np.sin(a), np.cos(a)]])


def ry(a):
    return np.array([[np.cos(a), 0.0, np.sin(a)], [0.0, 1.0, 0.0], [-np.sin(a), 0.0, np.cos(a)]])


def rz(a):
    return np.array([[np.cos(a), -np.sin(a), 0.0], [np.sin(a), np.cos(a), 0.0], [0.0, 0.0, 1.0]])


@contract("C14", "rotations by roll, pitch and yaw", n=60)
def from_rpy(vc):
    a, p = rpy(vc), vector(vc, "p")
    how = vc.choice("by", ["From_RPY", "rotation_rpy", "orientation"])
    if how == "From_RPY":
        t = Transformation.From_RPY(a, p)
    elif how == "rotation_rpy":
        t = Transformation.From_Translation(p)
        t.rotation_rpy = a
    else:
        frame = Transformable(Transformation.From_Translation(p))
        frame.orientation = a
        t = frame.pose
    rotation(vc, t)
    e = rz(a[2]) @ ry(a[1]) @ rx(a[0])
    for i in range(3):
        vc.eq("translation", t.translation[i], p[i])
        for j in range(3):
            vc.eq("roll, then pitch, then yaw", t[i, j], e[i, j], tol=1e-9)


@contract("C14", "rotations by quaternions", n=60)
def from_quaternion(vc):
    q, p = vector(vc, "q", 4), vector(vc, "p")
    n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    vc.assume(n2 > 0.01)
    how = vc.choice("by", ["From_Quaternion", "unit quaternion", "rotation_quaternion"])
    if how == "From_Quaternion":
        t = Transformation.From_Quaternion(q, p)
    else:
        u = q / np.linalg.norm(q)
        if how == "unit quaternion":
            t = Transformation.From_Quaternion(u, p, False)
        else:
            t = Transformation.From_Translation(p)
            t.rotation_quaternion = u
    rotation(vc, t)
    w, x, y, z = q[0], q[1], q[2], q[3]
    v = vector(vc, "v")
    # q (0, v) q* / |q|^2
    a = (-x * v[0] - y * v[1] - z * v[2], w * v[0] + y * v[2] - z * v[1], w * v[1] + z * v[0] - x * v[2], w * v[2] + x * v[1] - y * v[0])
    e = [-a[0] * x + a[1] * w - a[2] * z + a[3] * y, -a[0] * y + a[2] * w - a[3] * x + a[1] * z, -a[0] * z + a[3] * w - a[1] * y + a[2] * x]
    for i in range(3):
        vc.eq("translation", t.translation[i], p[i])
        vc.eq("rotates as the quaternion", (t[i, 0] * v[0] + t[i, 1] * v[1] + t[i, 2] * v[2]) * n2, e[i], tol=1e-7)


@contract("C14", "action on positions and directions", n=60)
def action(vc):
    t = affine(vc, "t")
    d = vc.choice("dimensions", [1, 2, 3])
    v = vector(vc, "v", d)
    got, turned = t.transform_position(v), t.rotate_direction(v)
    vc.prove("as many dimensions", got.shape == (d,))
    for i in range(d):
        e = sum((t[i, j] * v[j] for j in range(d)), 0.0)
        vc.eq("positions are rotated and shifted", got[i], e + t[i, 3], tol=1e-9)
        vc.eq("directions are rotated", turned[i], e, tol=1e-9)
    vc.prove("directions are three-dimensional", turned.shape == (3,))
    vc.raises("positions of more dimensions", ValueError, lambda: t.transform_position(vector(vc, "w", 4)))
    vc.raises("directions of more dimensions", ValueError, lambda: t.rotate_direction(vector(vc, "w", 4)))


@contract("C14", "normalised directions", n=60)
def normalised(vc):
    t, v = affine(vc, "t"), vector(vc, "v")
    e = [t[i, 0] * v[0] + t[i, 1] * v[1] + t[i, 2] * v[2] for i in range(3)]
    n2 = e[0] * e[0] + e[1] * e[1] + e[2] * e[2]
    vc.assume(n2 > 0.01)
    d = t.transform_direction(v, True)
    vc.eq("unit length", d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 1.0, tol=1e-9)
    for i in range(3):
        vc.eq("the same direction", d[i] * n2 ** 0.5, e[i], tol=1e-9)
    vc.raises("directions of length zero", ValueError, lambda: t.transform_direction(np.zeros(3), True))


@contract("C14", "composition is sequential application", n=60)
def composition(vc):
    a, b, v = affine(vc, "a"), affine(vc, "b"), vector(vc, "v")
    c = (a @ b).view(Transformation)
    x, y = c.transform_position(v), a.transform_position(b.transform_position(v))
    r, s = c.rotate_direction(v), a.rotate_direction(b.rotate_direction(v))
    for i in range(3):
        vc.eq("positions", x[i], y[i], tol=1e-9)
        vc.eq("directions", r[i], s[i], tol=1e-9)


@contract("C14", "compositions of rotations are rotations", n=60)
def closed(vc):
    a = Transformation.From_RPY(rpy(vc, "a"), vector(vc, "p"))
    b = Transformation.From_RPY(rpy(vc, "b"), vector(vc, "q"))
    rotation(vc, (a @ b).view(Transformation))


@contract("C14", "inverting undoes", n=60)
def inverse(vc):
    t, v = affine(vc, "t"), vector(vc, "v")
    d = det3(t)
    vc.assume(d * d > 0.01)
    n = t.invert()
    vc.prove("a transformation", isinstance(n, Transformation))
    x, y = n.transform_position(t.transform_position(v)), t.transform_position(n.transform_position(v))
    r, s = n.rotate_direction(t.rotate_direction(v)), t.rotate_direction(n.rotate_direction(v))
    for i in range(3):
        vc.eq("positions", x[i], v[i], tol=1e-6)
        vc.eq("positions, the other way", y[i], v[i], tol=1e-6)
        vc.eq("directions", r[i], v[i], tol=1e-6)
        vc.eq("directions, the other way", s[i], v[i], tol=1e-6)


@contract("C14", "inverses of rotations", n=60)
def inverse_rotation(vc):
    p = vector(vc, "p")
    t = Transformation.From_RPY(rpy(vc), p)
    n = t.invert()
    for i in range(3):
        for j in range(3):
            vc.eq("the transposed rotation", n[i, j], t[j, i], tol=1e-9)
        vc.eq("the rotated negative translation", n[i, 3], -(t[0, i] * p[0] + t[1, i] * p[1] + t[2, i] * p[2]), tol=1e-8)
    rotation(vc, n)


@contract("C14", "orientations are reported as configured", n=100)
def read_rpy(vc):
    a, p = rpy(vc), vector(vc, "p")
    t = Transformation.From_RPY(a, p)
    again = Transformation.From_RPY(t.rotation_rpy, p)
    for i in range(3):
        for j in range(3):
            vc.eq("the same rotation", again[i, j], t[i, j], tol=1e-7)


@contract("C14", "quaternions are reported as configured", n=100)
def read_quaternion(vc):
    q, p = vector(vc, "q", 4), vector(vc, "p")
    vc.assume(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] > 0.01)
    t = Transformation.From_Quaternion(q, p)
    again = Transformation.From_Quaternion(t.rotation_quaternion, p, False)
    for i in range(3):
        for j in range(3):
            vc.eq("the same rotation", again[i, j], t[i, j], tol=1e-7)


@contract("C14", "looking at targets", n=100)
def lookat(vc):
    a, p, target = rpy(vc), vector(vc, "p"), vector(vc, "target")
    f = target - p
    n2 = f[0] * f[0] + f[1] * f[1] + f[2] * f[2]
    vc.assume(n2 > 0.01)
    which = vc.choice("up", ["default", "given", "parallel"])
    t = Transformation.From_RPY(a, p)
    if which == "default":
        t.lookat(target)
    else:
        if which == "given":
            up = vector(vc, "up")
            c = [up[1] * f[2] - up[2] * f[1], up[2] * f[0] - up[0] * f[2], up[0] * f[1] - up[1] * f[0]]
            vc.assume(c[0] * c[0] + c[1] * c[1] + c[2] * c[2] > 0.0)
        else:
            s = vc.real("scale", -3.0, 3.0)
            vc.assume(s * s > 0.01)
            up = f * s
        before = up.copy()
        t.lookat(target, up)
        for i in range(3):
            vc.eq("arguments are untouched", up[i], before[i])
    rotation(vc, t)
    for i in range(3):
        vc.eq("the position is kept", t[i, 3], p[i])
        vc.eq("the third axis points at the target", t[i, 2] * n2 ** 0.5, f[i], tol=1e-7)


@contract("C14", "spherical directions", n=60)
def spherical(vc):
    az, ze = vc.real("azimuth", -3.0, 3.0), vc.real("zenith", 0.1, 3.0)
    d = Direction.From_Spherical(az, ze)
    vc.eq("unit length", d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 1.0, tol=1e-9)
    vc.eq("x", d[0], np.sin(ze) * np.cos(az), tol=1e-9)
    vc.eq("y", d[1], np.sin(ze) * np.sin(az), tol=1e-9)
    vc.eq("z", d[2], np.cos(ze), tol=1e-9)


@bounded("C14", "spherical angles are reported as configured", n=400, bound="400 sampled directions")
def angles(vc):
    az, ze = vc.rng.uniform(-np.pi, np.pi), vc.rng.uniform(0, np.pi)
    s = Direction.From_Spherical(az, ze).to_spherical()
    d = Direction.From_Spherical(s[0], s[1])
    vc.prove("the same direction", np.allclose(d.view(np.ndarray), Direction.From_Spherical(az, ze).view(np.ndarray), atol=1e-7))


@contract("C14", "nothing to look at", n=20)
def lookat_itself(vc):
    p = vector(vc, "p")
    t = Transformation.From_RPY(rpy(vc), p)
    before = t.copy()
    t.lookat(p)
    for i in range(4):
        for j in range(4):
            vc.eq("the transformation is kept", t[i, j], before[i, j])
    vc.raises("targets of less dimensions", ValueError, lambda: t.lookat(np.zeros(2)))
    vc.raises("up vectors of less dimensions", ValueError, lambda: t.lookat(np.zeros(3), np.zeros(2)))


# Chained frames -------------------------------------------------------------------------------------------------------
OPERATIONS = ["pose", "position", "orientation", "lookat", "set_base", "add_link", "remove_link"]


class World:
    """Frames A, B and C below a root, and what is known about them."""

    def __init__(self, vc, generic=True):
        self.vc, self.generic, self.count = vc, generic, 0
        self.root = TransformableBase()
        self.frames = [Transformable() for _ in range(3)]
        self.base = [None, None, None]
        self.pose = [None, None, None]
        for i, f in enumerate(self.frames):
            self.pose[i] = self.affine()
            f.pose = self.pose[i].view(Transformation)

    def affine(self):
        self.count += 1
        if self.generic:
            return affine(self.vc, f"t{self.count}.").view(np.ndarray)
        return Transformation.From_RPY(self.vc.rng.uniform(-3, 3, 3), self.vc.rng.uniform(-5, 5, 3)).view(np.ndarray)

    def link(self, i):
        return self.root if i == "root" else None if i is None else self.frames[i]

    def below(self, i, j):
        """Frame i is j or connected to the root by way of j."""
        while i is not None and i != "root":
            if i == j:
                return True
            i = self.base[i]
        return False

    def bases(self, i):
        """Possible bases of frame i."""
        return [None, "root"] + [j for j in range(3) if not self.below(j, i)]

    def expected(self, i):
        if i is None or i == "root":
            return np.eye(4)
        return self.expected(self.base[i]) @ self.pose[i]

    def apply(self, name, i):
        vc, f = self.vc, self.frames[i]
        if name == "pose":
            t = self.affine()
            f.pose = t.view(Transformation)
            self.pose[i] = t
        elif name == "position":
            p = vector(vc, f"p{self.count}.")
            self.count += 1
            f.position = p
            self.pose[i] = np.array([[*(self.pose[i][r, c] for c in range(3)), p[r] if r < 3 else 1.0] for r in range(4)])
        elif name == "orientation":
            a = vector(vc, f"a{self.count}.")
            self.count += 1
            f.orientation = a
            r = rz(a[2]) @ ry(a[1]) @ rx(a[0])
            self.turned(i, r)
        elif name == "lookat":
            p = np.array([self.pose[i][k, 3] for k in range(3)])
            f.lookat(p + np.array([0.0, 0.0, 4.0]))
            self.turned(i, np.eye(3))
        elif name == "set_base":
            b = vc.choice(f"base{self.count}", self.bases(i))
            self.count += 1
            f.set_base(self.link(b))
            self.base[i] = b
        elif name == "add_link":
            b = vc.choice(f"base{self.count}", self.bases(i)[1:])
            self.count += 1
            self.link(b).add_link(f)
            self.base[i] = b
        elif name == "remove_link":
            if self.base[i] is None:
                vc.raises("frames that are not linked", RuntimeError, lambda: self.root.remove_link(f))
            else:
                self.link(self.base[i]).remove_link(f)
                self.base[i] = None

    def turned(self, i, r):
        p = self.pose[i]
        self.pose[i] = np.array([[*(r[k, c] if k < 3 else 0.0 for c in range(3)), p[k, 3]] for k in range(4)])

    def check(self, label, entries=True):
        vc = self.vc
        for i, f in enumerate(self.frames):
            got, e = f.forwards_transformation, self.expected(i)
            for r in range(3):
                for c in range(4):
                    vc.eq(f"{label}: global poses are the composition of all frames", got[r, c], e[r, c], tol=1e-6)
                vc.eq(f"{label}: global positions", f.global_position[r], e[r, 3], tol=1e-6)
                vc.eq(f"{label}: local positions", f.position[r], self.pose[i][r, 3])
            vc.prove(f"{label}: links know their base", f.is_base == (self.base[i] is None))
        for b in ["root", 0, 1, 2]:
            linked = self.link(b).linked_frames
            for i in range(3):
                vc.prove(f"{label}: bases know their links", (self.frames[i] in linked) == (self.base[i] == b))


ARRANGEMENTS = {"chain": ("root", 0, 1), "branches": ("root", 0, 0), "unrooted": (None, 0, 1), "apart": ("root", None, "root")}

for OP in OPERATIONS:
    @contract("C14", f"frames after {OP}", n=60, limit=80)
    def frames(vc, OP=OP):
        w = World(vc)
        for i, b in enumerate(ARRANGEMENTS[vc.choice("arrangement", list(ARRANGEMENTS))]):
            if b is not None:
                w.frames[i].set_base(w.link(b))
                w.base[i] = b
        w.check("before")
        w.apply(OP, vc.choice("frame", range(3)))
        w.check("after")


for OP in ["pose", "set_base", "add_link", "remove_link"]:
    @contract("C14", f"frames after {OP} and another change", n=60, limit=80)
    def twice(vc, OP=OP):
        w = World(vc)
        for i, b in enumerate(("root", 0, 1)):
            w.frames[i].set_base(w.link(b))
            w.base[i] = b
        w.check("before")
        w.apply(OP, vc.choice("frame", range(3)))
        w.apply(vc.choice("other", ["pose", "set_base", "add_link", "remove_link"]), vc.choice("other frame", range(3)))
        w.check("after")


@bounded("C14", "frames after long histories", n=150, bound="150 random histories of 25 changes of three frames")
def histories(vc):
    w = World(vc, False)
    for k in range(25):
        w.apply(OPERATIONS[int(vc.rng.integers(len(OPERATIONS)))], int(vc.rng.integers(3)))
        if vc.rng.random() < 0.7:
            w.check("after")
    w.check("at last")


@contract("C14", "local coordinates", n=60)
def local(vc):
    if vc.choice("frames", ["one", "linked rotations"]) == "one":
        f = Transformable()
        g = Transformable(affine(vc, "b"))
        d = det3(g.pose)
        vc.assume(d * d > 0.01)
    else:
        f = Transformable(Transformation.From_RPY(rpy(vc, "a"), vector(vc, "pa")))
        g = Transformable(Transformation.From_RPY(rpy(vc, "b"), vector(vc, "pb")))
        g.set_base(f)
    o = affine(vc, "o")
    how = vc.choice("of a", ["frame", "transformation", "position", "position and orientation"])
    if how == "frame":
        r = g.to_local_coordinates(Transformable(o))
    elif how == "transformation":
        r = g.to_local_coordinates(o)
    else:
        p = vector(vc, "p")
        a = rpy(vc) if how == "position and orientation" else None
        r = g.to_local_coordinates(p, a) if a is not None else g.to_local_coordinates(p)
        o = Transformation.From_RPY(np.zeros(3) if a is None else a, p)
    back = f.pose.view(np.ndarray) @ (g.pose.view(np.ndarray) @ r.view(np.ndarray))
    for i in range(3):
        for j in range(4):
            vc.eq("global coordinates of the local coordinates", back[i, j], o[i, j], tol=1e-5)
    vc.raises("other objects", ValueError, lambda: g.to_local_coordinates("x"))


@contract("C14", "bases have no base", n=5)
def rootless(vc):
    r = TransformableBase()
    vc.raises("base of a base", RuntimeError, lambda: r.set_base(Transformable()))
    r.set_base(None)
    vc.eq("bases are not transformed", r.forwards_transformation[0, 0], 1.0)


@bounded("C14", "antennas follow their device", n=20, bound="20 random histories of device changes")
def antennas(vc):
    from hermespy.simulation import SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray
    d = SimulatedDevice(antennas=SimulatedUniformArray(SimulatedIdealAntenna, 0.5, (2, 2, 1)))
    for _ in range(4):
        t = Transformation.From_RPY(vc.rng.uniform(-3, 3, 3), vc.rng.uniform(-5, 5, 3))
        what = vc.rng.integers(4)
        if what == 0:
            d.pose = t
        elif what == 1:
            d.position = t.translation
        elif what == 2:
            d.orientation = vc.rng.uniform(-3, 3, 3)
        else:
            d.lookat(t.translation)
        a = d.antennas
        e = d.forwards_transformation.view(np.ndarray) @ a.forwards_transformation.view(np.ndarray) if a.is_base else a.forwards_transformation.view(np.ndarray)
        for k in list(a.transmit_antennas) + list(a.receive_antennas):
            g = (e @ k.pose.view(np.ndarray))[:3, 3]
            vc.prove("global positions of antennas", np.allclose(k.global_position, g, atol=1e-9))
