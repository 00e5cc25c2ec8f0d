"""C13: logarithmic and linear scales convert back and forth without loss."""
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.logarithmic import Logarithmic, LogarithmicSequence, ValueType, dB
from hermespy.tools.math import DbConversionType, db2lin, lin2db

TYPES = [DbConversionType.POWER, DbConversionType.AMPLITUDE]


def scale(vc):
    t = vc.choice("conversion", TYPES)
    return t, 10.0 if t is DbConversionType.POWER else 20.0


@contract("C13", "decibels to linear and back", n=200)
def there(vc):
    t, s = scale(vc)
    d = vc.real("decibels", -200.0, 200.0)
    lin = db2lin(d, t)
    vc.lt("linear values are positive", 0.0, lin)
    vc.eq("definition", np.log10(lin) * s, d, tol=1e-9)
    vc.eq("back to the same decibels", lin2db(lin, t), d, tol=1e-9)


@contract("C13", "linear to decibels and back", n=200)
def back(vc):
    t, s = scale(vc)
    x = vc.real("value", 1e-12, 1e12)
    d = lin2db(x, t)
    vc.eq("definition", d, s * np.log10(x), tol=1e-9)
    vc.eq("back to the same value", db2lin(d, t) / x, 1.0, tol=1e-9)


@contract("C13", "conversions are strictly increasing", n=200)
def increasing(vc):
    t, _ = scale(vc)
    a, b = vc.real("a", 1e-6, 1e6), vc.real("b", 1e-6, 1e6)
    vc.assume(a + 1e-7 < b)
    vc.lt("to decibels", lin2db(a, t), lin2db(b, t))
    vc.lt("to linear", db2lin(a / 1e4, t), db2lin(b / 1e4, t))


@contract("C13", "unknown conversions are refused", n=5)
def unknown(vc):
    vc.raises("to linear", ValueError, lambda: db2lin(1.0, None))
    vc.raises("to decibels", ValueError, lambda: lin2db(1.0, None))


def number(vc, name, t):
    """A logarithmic number and its linear value."""
    how = vc.choice(f"{name} given as", ["linear", "decibels", "shorthand"])
    if how == "linear":
        x = vc.real(name, 1e-6, 1e6)
        return Logarithmic(x, ValueType.LIN, t), x
    d = vc.real(name, -60.0, 60.0)
    s = 10.0 if t is DbConversionType.POWER else 20.0
    x = 10.0 ** (d / s)
    return (Logarithmic(d, ValueType.DB, t) if how == "decibels" else dB(d, conversion=t)), x


def agrees(vc, label, n, x, t, s):
    vc.prove(f"{label} is a logarithmic number of the same scale", vc.all(isinstance(n, Logarithmic), n.conversion is t))
    vc.eq(f"{label}: linear value", float(n) / x, 1.0, tol=1e-9)
    vc.eq(f"{label}: decibels agree with the linear value", n.value_db, s * np.log10(x), tol=1e-7)


@contract("C13", "logarithmic numbers", n=200)
def numbers(vc):
    t, s = scale(vc)
    n, x = number(vc, "x", t)
    agrees(vc, "created", n, x, t, s)
    agrees(vc, "restored", Logarithmic.From_Tuple(float(n), n.value_db, t), x, t, s)


def linear(n):
    return float(n)


for OP in ("sum", "difference", "product", "ratio"):
    @contract("C13", f"{OP} of logarithmic numbers", n=200)
    def arithmetic(vc, OP=OP):
        t, s = scale(vc)
        (a, x), (b, y) = number(vc, "x", t), number(vc, "y", t)
        if OP == "difference":
            vc.assume(x > y * (1 + 1e-6))
        r, z = {"sum": lambda: (a + b, x + y), "difference": lambda: (a - b, x - y), "product": lambda: (a * b, x * y),
                "ratio": lambda: (a / b, x / y)}[OP]()
        vc.prove("a logarithmic number of the same scale", vc.all(isinstance(r, Logarithmic), r.conversion is t))
        vc.eq("linear value", linear(r) / z, 1.0, tol=1e-7)
        vc.eq("decibels agree with the linear value", r.value_db, s * np.log10(linear(r)), tol=1e-7)
        vc.eq("operands keep their value", linear(a) / x, 1.0, tol=1e-9)
        vc.eq("operands keep their decibels", b.value_db, s * np.log10(y), tol=1e-7)

    @contract("C13", f"{OP} of logarithmic and plain numbers", n=200)
    def mixed(vc, OP=OP):
        t, s = scale(vc)
        a, x = number(vc, "x", t)
        y = vc.real("y", -1e3, 1e3)
        if OP == "ratio":
            vc.assume(y * y > 1e-6)
        l, r, zl, zr = {"sum": lambda: (a + y, y + a, x + y, y + x), "difference": lambda: (a - y, y - a, x - y, y - x),
                        "product": lambda: (a * y, y * a, x * y, y * x),
                        "ratio": lambda: (a / y, y / a, x / y, y / x)}[OP]()
        tol = 1e-6 * (1 + abs(zl) + abs(zr)) if not vc.symbolic else 1e-9
        vc.eq("on the left", l, zl, tol=tol)
        vc.eq("on the right", r, zr, tol=tol)
        vc.prove("plain numbers", vc.all(not isinstance(l, Logarithmic), not isinstance(r, Logarithmic)))
        vc.eq("the logarithmic number keeps its decibels", a.value_db, s * np.log10(x), tol=1e-7)


@contract("C13", "comparisons follow the decibels", n=200)
def comparison(vc):
    t, s = scale(vc)
    (a, x), (b, y) = number(vc, "x", t), number(vc, "y", t)
    if a < b:
        vc.lt("smaller", a.value_db - 1e-9, b.value_db)
    else:
        vc.le("not smaller", b.value_db, a.value_db + 1e-9)


@bounded("C13", "values without decibels are refused", n=100, bound="100 sampled values")
def refused(vc):
    t = TYPES[int(vc.rng.integers(0, 2))]
    x = -float(vc.rng.uniform(0, 10)) * float(vc.rng.integers(0, 2))
    vc.raises("not positive linear values", ValueError, lambda: Logarithmic(x, ValueType.LIN, t))
    a, b = Logarithmic(1.5, ValueType.LIN, t), Logarithmic(1.5 + float(vc.rng.integers(0, 3)), ValueType.LIN, t)
    vc.raises("not positive differences", ValueError, lambda: a - b)
    vc.raises("unknown value types", ValueError, lambda: Logarithmic(1.0, "something", t))


def content(vc, q, xs, t, s, label):
    vc.prove(f"{label}: length", len(q) == len(xs))
    l = q.tolist()
    for i, x in enumerate(xs):
        agrees(vc, f"{label}: entry {i}", q[i], x, t, s)
        vc.eq(f"{label}: listed entry {i}", float(l[i]) / x, 1.0, tol=1e-9)
        vc.eq(f"{label}: listed decibels {i}", l[i].value_db, s * np.log10(x), tol=1e-7)


@contract("C13", "sequences of logarithmic numbers", n=100)
def sequence(vc):
    t, s = scale(vc)
    how = vc.choice("given as", ["linear", "decibels", "shorthand", "list"])
    if how == "linear":
        xs = [vc.real(f"x{i}", 1e-6, 1e6) for i in range(3)]
        q = LogarithmicSequence(xs, ValueType.LIN, t)
    else:
        ds = [vc.real(f"x{i}", -60.0, 60.0) for i in range(3)]
        xs = [10.0 ** (d / s) for d in ds]
        q = LogarithmicSequence(ds, ValueType.DB, t) if how == "decibels" else dB(*ds, conversion=t) if how == "shorthand" \
            else dB(ds, conversion=t)
    vc.prove("scale", q.conversion is t)
    content(vc, q, xs, t, s, "created")


@contract("C13", "altering sequences of logarithmic numbers", n=200)
def altered(vc):
    t, s = scale(vc)
    xs = [vc.real(f"x{i}", 1e-6, 1e6) for i in range(3)]
    q = LogarithmicSequence(xs, ValueType.LIN, t)
    y = vc.real("y", 1e-3, 1e3)
    how = vc.choice("altered by", ["entry", "logarithmic entry", "in place", "product", "sum", "part", "slice", "copy"])
    zs, r = list(xs), q
    if how == "entry":
        q[1] = y
        zs[1] = y
    elif how == "logarithmic entry":
        q[2] = Logarithmic(y, ValueType.LIN, t)
        zs[2] = y
    elif how == "in place":
        q *= y
        r, zs = q, [x * y for x in xs]
    elif how == "product":
        r, zs = q * y, [x * y for x in xs]
    elif how == "sum":
        r, zs = q + y, [x + y for x in xs]
    elif how == "part":
        q[1:][0] = y
        zs[1] = y
    elif how == "slice":
        r, zs = q[1:], xs[1:]
    else:
        r = q.copy()
        q[0] = y
    content(vc, r, zs, t, s, "altered")
    vc.prove("scale is kept", r.conversion is t)


@bounded("C13", "text and pickling", n=200, bound="200 numbers and sequences")
def text(vc):
    import pickle
    from math import isclose
    t = TYPES[int(vc.rng.integers(0, 2))]
    s = 10.0 if t is DbConversionType.POWER else 20.0
    d = float(vc.rng.uniform(-100, 100)) if vc.rng.integers(2) else float(vc.rng.integers(-100, 100))
    n = dB(d, conversion=t)
    m = pickle.loads(pickle.dumps(n))
    vc.prove("pickling", m == n and m.value_db == n.value_db and m.conversion is n.conversion and isinstance(m, Logarithmic))
    vc.prove("text", str(n).endswith("dB") and isclose(float(str(n)[:-2]), d, rel_tol=0.06, abs_tol=1e-9), str(n))
    ds = vc.rng.uniform(-50, 50, int(vc.rng.integers(1, 6)))
    q = pickle.loads(pickle.dumps(dB(list(map(float, ds)), conversion=t)))
    for e, d in zip(q, ds):
        vc.prove("pickled sequences", isclose(e.value_db, d, rel_tol=1e-9, abs_tol=1e-9) and e.conversion is t)
        vc.prove("linear values", isclose(float(e), 10 ** (d / s), rel_tol=1e-9))
    vc.prove("length", len(q) == len(ds))
