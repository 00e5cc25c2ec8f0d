"""C26: event hooks notify each registered listener exactly once per event."""
from pyvc.api import contract, bounded
from hermespy.core.hooks import Hook, Hookable


@contract("C26", "one operation", n=100,
          note="any pre-state of the operated hook h and one generic other hook g; further hooks are covered by genericity of g")
def one_operation(vc):
    """Inductive step: an operation on h changes the membership of h only, and notify delivers to exactly the members."""
    src = Hookable()
    got = []
    h, g = Hook(src, lambda x: got.append(("h", x))), Hook(src, lambda x: got.append(("g", x)))
    hin, gin = vc.bool("h registered"), vc.bool("g registered")
    if gin:
        src.add_hook(g)
    if hin:
        src.add_hook(h)
    op = vc.choice("op", ["add", "remove hook", "remove", "notify", "none"])
    if op == "add":
        src.add_hook(h)
    elif op == "remove hook":
        src.remove_hook(h)
    elif op == "remove":
        h.remove()
    elif op == "notify":
        src.notify(0)
        del got[:]
    h_after = True if op == "add" else False if op.startswith("remove") else bool(hin)
    x = vc.int("x")
    src.notify(x)
    vc.prove("h is notified iff it is registered", [k for k, _ in got].count("h") == (1 if h_after else 0))
    vc.prove("g is notified iff it is registered", [k for k, _ in got].count("g") == (1 if gin else 0))
    vc.prove("the event itself is delivered", vc.all(*[v == x for _, v in got]))


@bounded("C26", "delivery after any history", n=800, bound="histories of up to 12 operations on up to 4 hooks")
def delivery(vc):
    """After any sequence of registrations and removals exactly the registered listeners are notified, exactly once."""
    nh = vc.int("hooks", 1, 4)
    steps = vc.int("steps", 0, 12, cap=12)
    src, other = Hookable(), Hookable()
    got = []
    hooks = [None] * nh
    live = set()
    foreign = Hook(other, lambda x: got.append(("foreign", x)))
    other.add_hook(foreign)
    for s in range(steps):
        op = vc.choice(f"op{s}", ["add", "again", "remove", "remove hook", "foreign"])
        j = vc.choice(f"hook{s}", list(range(nh)))
        if op == "add":
            if hooks[j] is None:
                hooks[j] = src.add_callback(lambda x, j=j: got.append((j, x)))
                live.add(j)
        elif op == "again" and hooks[j] is not None:
            src.add_hook(hooks[j])
            live.add(j)
        elif op == "remove" and hooks[j] is not None:
            hooks[j].remove()
            live.discard(j)
        elif op == "remove hook" and hooks[j] is not None:
            src.remove_hook(hooks[j])
            live.discard(j)
        elif op == "foreign":
            src.remove_hook(foreign)
    a, b = vc.int("a"), vc.int("b")
    src.notify(a)
    vc.prove("each listener is notified exactly once", len(got) == len(live) and {k for k, _ in got} == live)
    vc.prove("listeners receive the event", vc.all(*[x == a for _, x in got]))
    del got[:]
    src.notify(b)
    vc.prove("the next event is delivered as well", len(got) == len(live) and {k for k, _ in got} == live)
    vc.prove("listeners receive the next event", vc.all(*[x == b for _, x in got]))
    del got[:]
    other.notify(a)
    vc.prove("other sources keep their listeners", [k for k, _ in got] == ["foreign"])


@contract("C26", "equal callbacks", n=50)
def equal_callbacks(vc):
    """Registering one callable twice yields two listeners which are removed independently."""
    src = Hookable()
    got = []

    def cb(x):
        got.append(x)
    h, g = src.add_callback(cb), src.add_callback(cb)
    a = vc.int("a")
    src.notify(a)
    vc.prove("both listeners are notified", len(got) == 2)
    (h if vc.bool("first") else g).remove()
    del got[:]
    src.notify(a)
    vc.prove("the remaining one is notified", len(got) == 1)


@contract("C26", "removal during notification", n=50)
def removal_during(vc):
    """A listener removing itself or others while being notified leaves every remaining one notified exactly once."""
    src = Hookable()
    got = []
    hooks = []
    target = vc.choice("target", [0, 1, 2])
    gone = []

    def cb(j, x):
        got.append(j)
        if target in (j, 2) and not gone:
            k = j if target != 2 else 1 - j
            gone.append(k)
            hooks[k].remove()
            gone.append(len(got))
    for j in range(2):
        hooks.append(src.add_callback(lambda x, j=j: cb(j, x)))
    src.notify(1)
    vc.prove("nobody is notified twice", len(set(got)) == len(got))
    vc.prove("remaining listeners are notified", all(j in got for j in range(2) if j not in gone[:1]))
    vc.prove("removed listeners are not notified afterwards", gone[0] not in got[gone[1]:])
    del got[:]
    src.notify(2)
    vc.prove("later events reach the remaining listeners only", got == [1 - gone[0]])


@contract("C26", "registration during notification", n=50)
def addition_during(vc):
    src = Hookable()
    got = []

    def late(x):
        got.append("late")

    def cb(x):
        got.append("cb")
        if len(got) == 1:
            src.add_callback(late)
    src.add_callback(cb)
    src.notify(1)
    vc.prove("the registering listener is notified exactly once", got.count("cb") == 1 and got.count("late") <= 1)
    del got[:]
    src.notify(2)
    vc.prove("the new listener is notified from then on", sorted(got) == ["cb", "late"])
