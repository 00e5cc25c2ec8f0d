"""C06: Monte Carlo scheduling samples every grid section exactly as often as requested."""
import itertools
import numpy as np
from pyvc.api import contract, bounded
from hermespy.core.pymonte.actors import MonteCarloQueueManager


class Dim:
    """Grid dimension, known to the scheduler by its number of sample points only."""

    def __init__(self, n):
        self.num_sample_points = n


SHAPES = [(), (1,), (2,), (3,), (1, 2), (2, 2), (2, 1, 2)]
PRE = "_MonteCarloQueueManager__"


def sections(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def manager(vc):
    """Queue manager in an arbitrary reachable state: any counts and any active sections satisfying the invariant."""
    shape = vc.choice("shape", SHAPES[:6])
    N = vc.int("num_samples", 1)
    bs = vc.choice("batch", [None, 1, 2, 3])
    m = MonteCarloQueueManager([Dim(n) for n in shape], N, bs)
    sec = sections(shape)
    flags = [vc.choice(f"active{j}", [True, False]) for j in range(len(sec))]
    cnt = []
    for j, s in enumerate(sec):
        c = vc.int(f"count{j}", 0)
        vc.assume(c <= N - 1 if flags[j] else c <= N)
        cnt.append(c)
    # ghost state: havoc the manager's state under the invariant
    count = vc.private(m, PRE + "grid_task_count")
    act = vc.private(m, PRE + "active_section_flags")
    for j, s in enumerate(sec):
        count[s if s else 0] = cnt[j]
        act[s if s else 0] = flags[j]
    coords = vc.private(m, PRE + "active_section_coordinates")
    setattr(m, PRE + "active_section_coordinates", np.array([s for s, f in zip(sec, flags) if f], dtype=int).reshape(
        (sum(flags), len(shape))))
    vc.private(m, PRE + "num_active_sections")
    setattr(m, PRE + "num_active_sections", sum(flags))
    assert coords.shape == (len(sec), len(shape))
    return m, shape, sec, flags, cnt, N


def state(vc, m, sec):
    count = vc.private(m, PRE + "grid_task_count")
    act = vc.private(m, PRE + "active_section_flags")
    co = vc.private(m, PRE + "active_section_coordinates")
    return ([count[s if s else 0] for s in sec], [act[s if s else 0] for s in sec],
            [tuple(int(x) for x in c) for c in co], vc.private(m, PRE + "num_active_sections"))


def invariant(vc, m, sec, N, tag):
    cnt, act, co, na = state(vc, m, sec)
    live = [s for s, a in zip(sec, act) if a]
    vc.prove(tag + ": listed sections are the active ones", sorted(co) == live and na == len(live))
    for s, c, a in zip(sec, cnt, act):
        vc.prove(tag + ": active sections miss samples, no section has too many",
                 vc.all(c >= 0, c <= N - 1 if a else c <= N))
    return cnt, act


@contract("C06", "next batch preserves the schedule", limit=120, max_paths=20000, proof_only=True,
          note="inductive step over the scheduler state for grids of up to four sections in up to two dimensions, batch sizes "
               "up to four, any number of samples and any history")
def step(vc):
    m, shape, sec, flags, cnt, N = manager(vc)
    p0, _ = m.query_progress()
    batch = [tuple(int(x) for x in b) for b in m.next_batch()]
    after, act = invariant(vc, m, sec, N, "after a batch")
    for j, s in enumerate(sec):
        n = batch.count(s)
        vc.prove("each scheduled task is counted", after[j] == cnt[j] + n)
        if not flags[j]:
            vc.prove("confident or complete sections are not scheduled", n == 0)
            vc.prove("inactive sections stay inactive", not act[j])
        else:
            vc.prove("a section is retired exactly when complete", bool(act[j]) == bool(after[j] < N))
    vc.prove("only sections of the grid are scheduled", all(b in sec for b in batch))
    vc.prove("an empty batch means that nothing is left", (len(batch) == 0) == (not any(flags)))
    p1, f = m.query_progress()
    vc.prove("progress lies between zero and one", vc.all(p1 >= 0, p1 <= 1))
    vc.prove("progress never decreases", p1 >= p0)
    vc.prove("progress is one exactly when nothing remains", vc.any(vc.all(p1 == 1, not any(act)),
                                                                   vc.all(p1 < 1, any(act))))


@contract("C06", "disabling a section", limit=120, max_paths=20000, proof_only=True,
          note="inductive step over the scheduler state, as above")
def disable(vc):
    m, shape, sec, flags, cnt, N = manager(vc)
    p0, _ = m.query_progress()
    j = vc.choice("disabled", list(range(len(sec))))
    m.disable_section(sec[j])
    after, act = invariant(vc, m, sec, N, "after disabling")
    for k in range(len(sec)):
        vc.prove("counts are kept", after[k] == cnt[k])
        vc.prove("exactly the named section is retired", bool(act[k]) == (flags[k] and k != j))
    p1, _ = m.query_progress()
    vc.prove("progress never decreases", vc.all(p1 >= p0, p1 <= 1))
    vc.prove("progress is one exactly when nothing remains", vc.any(vc.all(p1 == 1, not any(act)),
                                                                   vc.all(p1 < 1, any(act))))


@contract("C06", "initial state", limit=30, proof_only=True, note="establishes the invariant of the inductive steps")
def initial(vc):
    shape = vc.choice("shape", SHAPES)
    N = vc.int("num_samples", 1)
    m = MonteCarloQueueManager([Dim(n) for n in shape], N, vc.choice("batch", [None, 1, 2, 3]))
    sec = sections(shape)
    cnt, act = invariant(vc, m, sec, N, "initially")
    vc.prove("nothing is scheduled yet", all(c == 0 for c in cnt) and all(act))
    p, _ = m.query_progress()
    vc.prove("progress starts at zero", p == 0)


def grid(vc):
    d = vc.int("dimensions", 0, 3, cap=3)
    return tuple(vc.int(f"points{j}", 1, 4, cap=4) for j in range(d))


@bounded("C06", "complete schedule", n=500, bound="grids of up to 3 dimensions of up to 4 points, up to 6 samples, random "
         "retirements; whole histories from the start")
def history(vc):
    shape, N = grid(vc), vc.int("num_samples", 1, 6, cap=6)
    bs = None if vc.bool("default batch") else vc.int("batch", 1, 20, cap=20)
    m = MonteCarloQueueManager([Dim(n) for n in shape], N, bs)
    sec = sections(shape)
    got = {s: 0 for s in sec}
    confident = set()
    stops = vc.int("stops", 0, 3)
    last = 0.
    limit = len(sec) * N + 5
    for it in range(limit + 1):
        p, flags = m.query_progress()
        vc.prove("progress lies between zero and one", 0 <= p <= 1, p)
        vc.prove("progress never decreases", p >= last - 1e-12, f"{p} after {last}")
        vc.prove("progress is the share of scheduled or confident samples",
                 abs(p - sum(N if s in confident else c for s, c in got.items()) / (N * len(sec))) < 1e-9, p)
        last = p
        remaining = [s for s in sec if got[s] < N and s not in confident]
        vc.prove("progress is one exactly when nothing remains", (p == 1.) == (not remaining), p)
        fl = np.asarray(flags).reshape(shape if shape else (1,))
        vc.prove("reported flags name the sections still sampled", {s for s in sec if fl[s if s else 0]} == set(remaining))
        batch = [tuple(int(x) for x in b) for b in m.next_batch()]
        vc.prove("the batch is empty exactly when nothing remains", (len(batch) == 0) == (not remaining))
        vc.prove("no more than the batch size is scheduled",
                 len(batch) <= (bs if bs is not None and shape else len(sec)))
        if not batch:
            break
        for b in batch:
            vc.prove("a section of the grid is scheduled", b in got, b)
            vc.prove("confident sections are never scheduled again", b not in confident, b)
            got[b] += 1
            vc.prove("no section is scheduled more often than requested", got[b] <= N, b)
        if stops and vc.rng.integers(0, 3) == 0:
            s = sec[vc.rng.integers(0, len(sec))]
            confident.add(s)
            m.disable_section(s)
            if vc.rng.integers(0, 2):
                m.disable_section(tuple(np.asarray(s)))
    else:
        vc.prove("scheduling terminates", False)
    for s in sec:
        if s not in confident:
            vc.prove("every section is scheduled exactly as often as requested", got[s] == N, f"{s}: {got[s]} of {N}")
    vc.prove("the empty batch repeats", m.next_batch() == [] and m.next_batch() == [])


@bounded("C06", "unknown sections", n=150, bound="complete histories")
def foreign_sections(vc):
    """Disabling unknown or already finished sections changes nothing."""
    shape, N = grid(vc), vc.int("num_samples", 1, 5, cap=5)
    vc.assume(len(shape) > 0)
    m = MonteCarloQueueManager([Dim(n) for n in shape], N, vc.int("batch", 1, 8))
    total = 0
    while True:
        b = m.next_batch()
        if not b:
            break
        total += len(b)
        m.disable_section(tuple(n + 3 for n in shape))
    vc.prove("all samples are scheduled", total == N * len(sections(shape)), total)
