"""Independent model of grid identity: grids with a canonical identity, and the ways to
write each of them down."""

import numpy as np
from inventory import LL_AREAS
from inventory import first_gaussian_latitude

FLAGS = ("i_scans_negatively", "j_points_consecutive", "j_scans_positively")
MORE_LL = {(3, 3): 90, (4, 4): 90, (6, 6): 90, (7.5, 7.5): 90, (15, 15): 90, (10, 5): 90, (5, 10): 90, (2, 1): 90, (30, 30): 90}


def ll_area(dx, dy):
    if dx == dy and dx in LL_AREAS:
        return list(LL_AREAS[dx])
    return [90, 0, -90, 360 - dx]


def ll_shape(area, dx, dy):
    return [int(round((area[0] - area[2]) / dy)) + 1, int(round((area[3] - area[1]) / dx)) + 1]


def whole_circle(west, east, dx):
    rest = (360 - (east - west)) % 360
    return min(rest, 360 - rest, abs(rest - dx)) < 1e-6


class Grid:
    """cid identifies the grid. index() is how an inventory describes it."""

    def __init__(self, kind, name, area=None, flags=(), order=None, shape=None):
        self.kind = kind
        self.name = name  # (dx, dy), or the name
        self.area = area  # None: global
        self.flags = tuple(flags)  # the scanning flags that are on
        self.order = order
        self.shape = shape

    @property
    def cid(self):
        return (
            self.kind,
            self.name,
            self.extent(),
            self.flags,
            self.order,
            None if self.shape is None else tuple(self.shape),
        )

    def __repr__(self):
        return f"Grid{self.cid}"

    def extent(self):
        if self.kind != "ll":
            return None if self.area is None else tuple(self.area)
        n, w, s, e = self.area or ll_area(*self.name)
        if whole_circle(w, e, self.name[0]):
            return ("circle", round(n, 6), round(w % 360, 6) % 360, round(s, 6))
        return tuple(round(float(x), 6) for x in (n, w, s, e))

    # ---- what is in an index
    def index(self, rng=None):
        d = {}
        if self.kind == "ll":
            area = self.area or ll_area(*self.name)
            d["grid"] = list(self.name)
            d["shape"] = ll_shape(area, *self.name)
            d["area"] = list(area)
            d["global"] = int(self.area is None)
        elif self.kind in ("O", "N"):
            d["grid"] = f"{self.kind}{self.name}"
            d["shape"] = [self.points()]
            d["area"] = list(self.area or self.gg_area())
            d["global"] = int(self.area is None)
        elif self.kind == "H":
            d["grid"] = f"H{self.name}"
            d[rng.choice(["order", "ordering"]) if rng else "order"] = self.order
        else:
            d["grid"] = self.name
            if rng is None or rng.random() < 0.5:
                d["shape"] = [sum(map(ord, self.name))]
                d["global"] = 1
        for f in self.flags:
            d[f] = 1
        return d

    def dx(self):
        if self.kind == "O":
            return 360 / (4 * self.name + 16)
        return 360 / (4 * self.name)

    def gg_area(self):
        lat = first_gaussian_latitude(self.name)
        return [lat, 0, -lat, round(360 - self.dx(), 3)]

    def points(self):
        n = self.name
        if self.kind == "O":
            return 2 * sum(4 * i + 16 for i in range(1, n + 1))
        return 6 * n * n - 30

    # ---- the ways to write it
    def spell(self, rng, rich=True):
        d = {}

        def number(x):
            r = rng.random()
            if r < 0.3:
                return float(x)
            if r < 0.4:
                return np.float64(x)
            if r < 0.5 and int(x) == x:
                return np.int64(x)
            if r < 0.6 and float(np.float32(x)) == x:
                return np.float32(x)
            return x

        def seq(lst):
            lst = [number(x) for x in lst]
            return tuple(lst) if rng.random() < 0.4 else lst

        p = 0.5 if rich else 0.0
        if self.kind == "ll":
            d["grid"] = seq(self.name)
            true_area = list(self.area or ll_area(*self.name))
            if self.area is not None:
                area = true_area
            else:
                area = None
                r = rng.random()
                if rich and r < 0.2:
                    area = true_area
                elif rich and r < 0.35:
                    area = true_area[:3] + [360]
                elif rich and r < 0.45 and whole_circle(true_area[1], true_area[3], self.name[0]):
                    k = rng.choice([-360, 360])
                    area = [true_area[0], true_area[1] + k, true_area[2], true_area[3] + k]
                elif rich and r < 0.5:
                    area = true_area[:3] + [0]
            if area is not None:
                d["area"] = seq(area)
            # without an area the global flag means 90 to -90
            if self.area is None and rng.random() < p * 0.6 and (area is not None or true_area[0] == 90):
                d["global"] = 1
            if rng.random() < p * 0.6:
                shape = ll_shape(true_area, *self.name)
                d["shape"] = tuple(shape) if rng.random() < 0.3 else shape
            if rng.random() < p * 0.6:
                d["type"] = "regular_ll"
        elif self.kind in ("O", "N"):
            k = self.kind if rng.random() < 0.6 else self.kind.lower()
            d["grid"] = f"{k}{self.name}"
            if self.area is not None:
                d["area"] = seq(self.area)
            else:
                r = rng.random()
                a = self.gg_area()
                if rich and r < 0.15:
                    d["area"] = seq(a)
                elif rich and r < 0.3:
                    d["area"] = seq([a[0] + rng.uniform(-0.02, 0.02), rng.uniform(0, 0.02), a[2] + rng.uniform(-0.02, 0.02), a[3] + rng.uniform(-0.02, 0.02)])
                elif rich and r < 0.4:
                    d["area"] = seq([90, 0, -90, 360])
                elif rich and r < 0.5:
                    d["area"] = seq(a[:3] + [360])
                if rng.random() < p * 0.6:
                    d["global"] = 1
            if rng.random() < p * 0.6:
                d["shape"] = [self.points()]
            if rng.random() < p * 0.6:
                d["type"] = "reduced_gg"
        elif self.kind == "H":
            d["grid"] = rng.choice("Hh") + str(self.name)
            if self.order == "nested" or rng.random() < p:
                d[rng.choice(["order", "order", "ordering"])] = self.order
            if rng.random() < p * 0.4:
                d["type"] = "healpix"
            if rng.random() < p * 0.3:
                d["area"] = [90, 0, -90, 360]
        else:
            d["grid"] = self.name
            if rng.random() < p * 0.6:
                d["type"] = "orca"
        for f in FLAGS:
            if f in self.flags:
                d[f] = 1
            elif rng.random() < p * 0.4:
                d[f] = 0
        if self.shape is not None:
            d["shape"] = list(self.shape)
        items = list(d.items())
        rng.shuffle(items)
        return dict(items)


def base_grid(rng):
    kind = rng.choice(["ll", "ll", "ll", "O", "N", "H", "orca"])
    if kind == "ll":
        name = rng.choice([(d, d) for d in LL_AREAS] + list(MORE_LL))
    elif kind in ("O", "N"):
        name = rng.choice([8, 16, 24, 32, 48, 64, 80, 96, 128, 320])
    elif kind == "H":
        return Grid("H", rng.choice([1, 2, 4, 8, 16, 32, 128, 1024]), order=rng.choice(["ring", "nested"]))
    else:
        e = rng.choice(["e", "e", ""])
        name = f"{e}ORCA{rng.choice(['025', '1', '12', '2'])}_{rng.choice('FTUVW')}"
    g = Grid(kind, name)
    if kind == "ll" and rng.random() < 0.15:
        g.area = region(rng, *name)
    if kind != "orca" and rng.random() < 0.1:
        g.flags = (rng.choice(FLAGS),)
    return g


def region(rng, dx, dy):
    """A part of the globe on the points of the grid"""
    area = ll_area(dx, dy)
    ni, nj = int(round((area[3] - area[1]) / dx)), int(round((area[0] - area[2]) / dy))
    while True:
        i = sorted(rng.sample(range(ni + 1), 2))
        j = sorted(rng.sample(range(nj + 1), 2))
        r = [area[0] - j[0] * dy, area[1] + i[0] * dx, area[0] - j[1] * dy, area[1] + i[1] * dx]
        if i[1] - i[0] < ni - 1 and r[1] != r[3]:
            return [round(x, 6) for x in r]


def neighbour(rng, g):
    """Another grid that is close to g in some respect, clear of the tolerances"""
    kind = g.kind
    n = Grid(kind, g.name, g.area, g.flags, g.order, None)
    r = rng.random()
    if r < 0.12 and kind != "orca":
        f = rng.choice(FLAGS)
        n.flags = tuple(x for x in FLAGS if (x in g.flags) != (x == f))
        return n
    if kind == "ll":
        dx, dy = g.name
        a = list(g.area or ll_area(dx, dy))
        choice = rng.randrange(10)
        if choice == 0:
            n.name = (dy, dx) if dx != dy else (dx, dy * 2)
            n.area = None
        elif choice == 1:
            n.name = (dx + 0.01, dy)
            n.area = a
        elif choice == 2:
            n.name = (dx, round(dy * 1.01, 6))
            n.area = a
        elif choice == 3:
            n.area = [a[0] - rng.choice([0.001, dy]), a[1], a[2], a[3]]
        elif choice == 4:
            n.area = [a[0], a[1], a[2] + rng.choice([0.001, dy]), a[3]]
        elif choice == 5:
            n.area = [a[0], a[1] + rng.choice([0.001, -0.001, dx / 2]), a[2], a[3]]
        elif choice == 6:
            n.area = [a[0], a[1], a[2], a[3] - rng.choice([0.001, dx, 2 * dx])]
        elif choice == 7:
            # the whole circle, starting somewhere else
            s = rng.choice([dx, -180, 180, -dx, 2 * dx])
            n.area = [a[0], a[1] + s, a[2], a[3] + s]
        elif choice == 8:
            n.area = [a[2], a[1], a[0], a[3]]
        else:
            n.area = region(rng, dx, dy)
        if n.cid == g.cid:
            n.area = region(rng, dx, dy)
    elif kind in ("O", "N"):
        a = g.gg_area()
        dx = g.dx()
        dlat = 180 / (2 * g.name)
        choice = rng.randrange(8)
        if choice == 0:
            n.kind = "N" if kind == "O" else "O"
            n.area = None
        elif choice == 1:
            n.name = rng.choice([g.name * 10, g.name + 1, max(8, g.name // 10), g.name * 2])
            n.area = None
        elif choice == 2:
            n.area = [a[0] - max(0.5, 2.5 * dlat), a[1], a[2], a[3]]
        elif choice == 3:
            n.area = [a[0], a[1], a[2] + max(0.5, 2.5 * dlat), a[3]]
        elif choice == 4:
            n.area = [a[0], a[1], a[2], a[3] - max(0.5, 2.5 * dx)]
        elif choice == 5:
            s = rng.choice([0.5, 10, 180])
            n.area = [a[0], a[1] + s, a[2], a[3] + s]
        elif choice == 6:
            n.area = [60, 0, 30, 40]
        else:
            n.area = [max(1, a[0] - 20), 0, -max(1, a[0] - 20), 360]
    elif kind == "H":
        if rng.random() < 0.6:
            n.order = "ring" if g.order == "nested" else "nested"
        else:
            n.name = rng.choice([g.name * 2, g.name * 10, g.name + 1])
    else:
        e, rest = ("e", g.name[1:]) if g.name[0] == "e" else ("", g.name)
        digits, sub = rest[4:].split("_")
        c = rng.randrange(3)
        if c == 0:
            e = "" if e else "e"
        elif c == 1:
            sub = rng.choice([x for x in "FTUVW" if x != sub])
        else:
            digits = rng.choice([x for x in ("025", "1", "12", "2", "0", "25") if x != digits])
        n.name = f"{e}ORCA{digits}_{sub}"
    return n


def wrong_shape(rng, g):
    """The same grid with a shape that it does not have"""
    n = Grid(g.kind, g.name, g.area, g.flags, g.order)
    true = g.index().get("shape")
    if g.kind == "orca" or true is None:
        return None
    c = rng.randrange(4)
    if c == 0:
        n.shape = [x + 1 for x in true]
    elif c == 1 and len(true) == 2 and true[0] != true[1]:
        n.shape = true[::-1]
    elif c == 2 and len(true) == 2:
        n.shape = [true[0] * true[1]]
    else:
        n.shape = true[:-1] + [true[-1] - 1]
    return n


UNSUPPORTED = [
    {"grid": "G1280"},
    {"grid": "bORCA025_T"},
    {"grid": "ORCA025_TU"},
    {"grid": "ORCA025_X"},
    {"grid": ""},
    {"grid": "X"},
    {"grid": "5x5"},
    {"grid": [1, 2, 3]},
    {"grid": [5]},
    {"grid": None},
    {"grid": 5},
    {"grid": "T1279"},
    {"type": "unknown", "grid": [5, 5]},
    {"type": "mesh", "grid": "O32"},
    {"type": "reduced_gg", "grid": [5, 5]},
    {"type": "regular_ll", "grid": "O32"},
    {"type": "healpix", "grid": "O32"},
    {"type": "healpix", "grid": "N32"},
    {"type": "orca", "grid": "O32"},
    {"grid": "H4", "order": "unknown"},
    {"grid": "H4x"},
    {"grid": "O32x"},
    {"grid": "N32.5"},
    {},
]
