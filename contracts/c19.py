"""C19: radar detection reports exactly the cube cells that satisfy its rule."""
import math
import numpy as np
from pyvc.api import contract, bounded
from hermespy.radar import MaxDetector, ThresholdDetector
from hermespy.radar.cube import RadarCube
from hermespy.radar.detection import CFARDetector, PointDetection

C = 299792458.0
FC = 1e9


def any_cube(vc, shape, lo=0.0):
    data = vc.array("power", shape, "f", lo=lo, ties=True)
    return RadarCube(data, vc.array("angles", (shape[0], 2), "f"), vc.array("doppler", (shape[1],), "f"),
                     vc.array("ranges", (shape[2],), "f", lo=0.0), FC)


def matches(point, cube, cell):
    """The differences between a reported point and a cell of the cube."""
    a, d, r = cell
    azimuth, zenith = cube.angle_bins[a, 0], cube.angle_bins[a, 1]
    rng, speed = cube.range_bins[r], cube.doppler_bins[d] * C / FC
    n = [math.cos(azimuth) * math.sin(zenith), math.sin(azimuth) * math.sin(zenith), math.cos(zenith)]
    return ([(f"position {i}", point.position[i], rng * n[i]) for i in range(3)]
            + [(f"velocity {i}", point.velocity[i], speed * n[i]) for i in range(3)]
            + [("power", point.power, cube.data[a, d, r])])


def listed(vc, cloud, cube, mask):
    """The cloud consists of one point for each cell marked by the mask."""
    cells = np.argwhere(mask)
    vc.eq("one point per cell", cloud.num_points, len(cells))
    if not vc.symbolic:
        left = list(cloud.points)
        for c in cells:
            hit = [p for p in left if all(abs(x - y) <= 1e-9 * (1 + abs(y)) for _, x, y in matches(p, cube, c))]
            vc.prove("each cell is reported", len(hit) > 0)
            left.remove(hit[0])
        return
    j = vc.index("point", len(cells))
    for name, got, expected in matches(cloud.points[j], cube, cells[j]):
        vc.eq(f"{name} of the cell", got, expected)


SHAPES = {"any shape": None, "single cell": (1, 1, 1)}


def shape(vc, cap=3):
    return vc.int("angle bins", 1, cap=cap), vc.int("doppler bins", 1, cap=cap), vc.int("range bins", 1, cap=cap)


@contract("C19", "threshold detection of raw powers", n=60)
def raw_threshold(vc):
    cube = any_cube(vc, shape(vc))
    t = vc.real("threshold", 0.0, lo_open=True)
    cloud = ThresholdDetector(t, normalize=False, peak_detection=False).detect(cube)
    listed(vc, cloud, cube, cube.data >= t)


@contract("C19", "threshold detection of normalised powers", n=60)
def threshold(vc):
    cube = any_cube(vc, shape(vc))
    t = vc.real("threshold", 0.0, 1.0, lo_open=True)
    cloud = ThresholdDetector(t, peak_detection=False).detect(cube)
    top, bottom = cube.data.max(), cube.data.min()
    if top > 0.0:
        listed(vc, cloud, cube, cube.data - bottom >= t * top)
    else:
        vc.prove("nothing to report", cloud.num_points == 0)


@contract("C19", "detection of the maximum", n=60)
def maximum(vc):
    cube = any_cube(vc, shape(vc))
    a, d, r = (vc.index(n, s) for n, s in zip(("angle", "doppler", "range"), cube.data.shape))
    cloud = MaxDetector().detect(cube)
    if cloud.num_points == 0:
        vc.eq("nothing to report", cube.data[a, d, r], 0.0)
        return
    vc.prove("a single point", cloud.num_points == 1)
    point = cloud.points[0]
    vc.le("no cell is more powerful", cube.data[a, d, r], point.power)
    cell = np.unravel_index(np.argmax(cube.data), cube.data.shape)
    for name, got, expected in matches(point, cube, cell):
        vc.eq(f"{name} of the cell", got, expected, tol=1e-9)


for NORMALIZE in (False, True):
    @contract("C19", f"threshold detection of local maxima of {'normalised' if NORMALIZE else 'raw'} powers", n=60, limit=100)
    def peaks(vc, NORMALIZE=NORMALIZE):
        s = shape(vc)
        cube = any_cube(vc, s)
        t = vc.real("threshold", 0.0, 1.0, lo_open=True)
        cloud = ThresholdDetector(t, NORMALIZE).detect(cube)
        data = cube.data
        top, bottom = data.max(), data.min()
        if NORMALIZE and top <= 0.0:
            vc.prove("nothing to report", cloud.num_points == 0)
            return
        if NORMALIZE:
            data = (data - bottom) / top
        mask = data >= t
        for lower, upper in (np.s_[:-1, :, :], np.s_[1:, :, :]), (np.s_[:, :-1, :], np.s_[:, 1:, :]), (np.s_[:, :, :-1], np.s_[:, :, 1:]):
            mask[lower] = np.logical_and(mask[lower], data[upper] <= data[lower])
            mask[upper] = np.logical_and(mask[upper], data[lower] <= data[upper])
        listed(vc, cloud, cube, mask)


for TRAIN, GUARD in (((1, 1), (0, 0)), ((1, 1), (1, 0)), ((2, 1), (0, 0))):
    @contract("C19", f"constant false alarm rate detection: training {TRAIN}, guard {GUARD}", n=60, limit=100)
    def cfar(vc, train=TRAIN, guard=GUARD):
        s = vc.int("angle bins", 1, cap=2), vc.int("doppler bins", 1, cap=9), vc.int("range bins", 1, cap=5)
        w = [2 * (t + g) + 1 for t, g in zip(train, guard)]
        cube = any_cube(vc, s)
        pfa = vc.real("false alarm probability", 0.0, 1.0, lo_open=True)
        detector = CFARDetector(train, guard, pfa)
        if s[1] < w[0] or s[2] < w[1]:
            vc.raises("cubes smaller than the window", ValueError, lambda: detector.detect(cube))
            return
        cloud = detector.detect(cube)
        h = (w[0] // 2, w[1] // 2)
        padded = np.zeros((s[0], s[1] + 2 * h[0], s[2] + 2 * h[1]))
        count = np.zeros((s[0], s[1] + 2 * h[0], s[2] + 2 * h[1]))
        padded[:, h[0]:s[1] + h[0], h[1]:s[2] + h[1]] = cube.data
        count[:, h[0]:s[1] + h[0], h[1]:s[2] + h[1]] = 1.0
        total, num = np.zeros(s), np.zeros(s)
        for i in range(w[0]):
            for j in range(w[1]):
                if abs(i - h[0]) > guard[0] or abs(j - h[1]) > guard[1]:
                    total = total + padded[:, i:s[1] + i, j:s[2] + j]
                    num = num + count[:, i:s[1] + i, j:s[2] + j]
        listed(vc, cloud, cube, cube.data > total * (pfa ** (-1 / num) - 1))

for TRAIN, GUARD in (((1, 1), (0, 0)), ((1, 1), (1, 0))):
    @contract("C19", f"constant false alarm rates depend on power ratios only: training {TRAIN}, guard {GUARD}", n=60, limit=100)
    def scaled(vc, train=TRAIN, guard=GUARD):
        s = vc.int("angle bins", 1, cap=2), vc.int("doppler bins", 7, cap=3), vc.int("range bins", 3, cap=3)
        cube = any_cube(vc, s)
        scale = vc.real("scale", 0.0, lo_open=True)
        pfa = vc.real("false alarm probability", 0.0, 1.0, lo_open=True)
        detector = CFARDetector(train, guard, pfa)
        a = detector.detect(cube)
        b = detector.detect(RadarCube(cube.data * scale, cube.angle_bins, cube.doppler_bins, cube.range_bins, FC))
        vc.eq("as many points", a.num_points, b.num_points)
        j = vc.index("point", a.num_points)
        for i in range(3):
            vc.eq("same position", a.points[j].position[i], b.points[j].position[i])
            vc.eq("same velocity", a.points[j].velocity[i], b.points[j].velocity[i])
        vc.eq("scaled power", a.points[j].power * scale, b.points[j].power, tol=1e-9)
