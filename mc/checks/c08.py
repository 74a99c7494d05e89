"""C08: sampling a field gives the value its interpolation method defines.

Every sample point is constructed from the relative coordinates (time, level, row, column and fractions) of a cell, so the
reference needs no cell search and no inverse mapping: it evaluates the definition of the method at those coordinates. On cell
boundaries all adjacent cells are candidates; for methods continuous there they give one value."""
import itertools
import math

import numpy as np

from pk import Field, FieldSet, sample
from parcels.grid import Grid
from parcels.tools.converters import TimeConverter

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('for every world (grid type x mesh x dimensions x depth direction x time levels x method x grid indexing): every point of a lattice of '
        'nodes and interior fractions in every cell, level and time interval, by direct evaluation, interpreted kernel and compiled kernel, '
        'against the definition evaluated at the coordinates the point was made from; non-trivial: point not a node at a stored time; '
        'distinct by (world, point)')
BOUNDS = ('grids of 2 to 5 columns, 2 to 4 rows, 1 to 4 levels, 1 or 3 times; fractions 1/4, 1/2 and 3/4 of every cell plus nodes '
          '(quick: 1/4 and 3/4 in the horizontal); data without symmetry, land patterns for the land method')
ASSUMPTIONS = ['cell coordinates are exactly representable, so that nodes and edges are hit exactly',
               'where a method is discontinuous (cell edges, half-way points of nearest) the value of any adjacent cell is accepted']
DEG2M = 1852 * 60.
RAD = math.pi / 180.

RECT = {  # name: (mesh, lon, lat)
    'flat': ('flat', [0., 1., 3., 3.5], [-1., 0., 2.]),
    'flatS': ('flat', [0., 1., 3., 3.5], [2., 0., -1.]),       # rows from north to south
    'km': ('flat', [0., 1024., 2048., 4096.], [0., 512., 2048.]),
    'sph': ('spherical', [-16., -8., 0., 4.], [48., 56., 64.]),
    'sphx': ('spherical', [168., 176., -176., -172.], [-64., -56., -32.]),   # across the date line
    'globe': ('spherical', [0., 90., 180., 270., 360.], [-64., 0., 64.]),
    'globe2': ('spherical', [-180., -90., 0., 90., 180.], [-64., 0., 64.]),
}
J, I = np.meshgrid(np.arange(3.), np.arange(4.), indexing='ij')
CURV = {
    'shear': ('flat', 2 * I + J, 2 * J - .5 * I),
    'quad': ('flat', 2 * I + J + .25 * I * J, 2 * J + .5 * I),
    'rot90': ('flat', -J, I.copy()),
    'rotkm': ('flat', 1024 * I - 512 * J, 512 * I + 1024 * J),
    'csph': ('spherical', 4 * I + 1 * J + .25 * I * J, 48 + 4 * J + .5 * I),
    'csphx': ('spherical', ((170 + 4 * I + 1 * J) + 180) % 360 - 180, 48 + 4 * J + .5 * I),
}
DEPTH = {'up': [1., 2., 4., 8.], 'down': [0., -1., -3., -4.], 'two': [0., 2.]}
TIMES = {1: [0.], 3: [0., 2., 8.]}


def noise(*shape):
    """Deterministic data without any symmetry, away from zero."""
    n = int(np.prod(shape))
    return (1. + np.modf(np.arange(1, n + 1) * 0.754877666 + .1)[0] * 4).reshape(shape).astype(np.float32)


def worlds(tier):
    out = []

    def w(**k):
        k.setdefault('gi', 'nemo')
        k.setdefault('land', 0)
        out.append(k)
    # horizontal position on all grids, two dimensions
    for g in list(RECT) + list(CURV):
        for m in ('linear', 'nearest', 'cgrid_tracer', 'linear_invdist_land_tracer', 'bgrid_velocity', 'bgrid_tracer'):
            for nt in (1, 3) if (m in ('linear', 'nearest') or tier != 'quick') else (3,):
                if m == 'linear_invdist_land_tracer':
                    for land in (0, 1, 2, 3, 4) if g in ('flat', 'quad') or tier != 'quick' else (1,):
                        w(kind='scalar', hor=g, dep=None, nt=nt, m=m, land=land)
                else:
                    w(kind='scalar', hor=g, dep=None, nt=nt, m=m)
    # levels
    deps = ['up', 'down', 'two', 's-up', 's-down', 's4-up', 's4-down']
    for g in ('flat', 'sph', 'flatS', 'quad', 'csph') if tier == 'quick' else list(RECT) + list(CURV):
        for dep in deps:
            for m in ('linear', 'nearest', 'cgrid_tracer', 'cgrid_velocity', 'linear_invdist_land_tracer'):
                if tier == 'quick' and m not in ('linear', 'linear_invdist_land_tracer') and g not in ('flat', 'quad'):
                    continue
                if m == 'cgrid_velocity' and dep[0] == 's':
                    continue
                for gi in ('nemo', 'mitgcm') if m == 'cgrid_velocity' and g in RECT else ('nemo',):
                    for land in (1, 2, 3, 4) if m == 'linear_invdist_land_tracer' and (dep == 'up' and g in ('flat', 'quad') or tier != 'quick') else (1,):
                        w(kind='scalar', hor=g, dep=dep, nt=3, m=m, gi=gi, land=land if m.startswith('linear_inv') else 0)
    for g in ('flat', 'quad', 'sph') if tier == 'quick' else list(RECT) + list(CURV):
        for dep in ('up', 'two', 'down'):
            for m in ('bgrid_velocity', 'bgrid_w_velocity', 'bgrid_tracer'):
                for gi in ('nemo', 'pop', 'mom5'):
                    if gi == 'mom5' and dep != 'up':
                        continue
                    w(kind='scalar', hor=g, dep=dep, nt=3, m=m, gi=gi)
    # single row or column
    for dep in (None, 'up'):
        for one in ('x', 'y', 'xy'):
            for m in ('linear', 'nearest'):
                w(kind='scalar', hor='flat', dep=dep, nt=3, m=m, one=one)
    # velocities on a C-grid
    for g in list(RECT) + list(CURV):
        for gi in ('nemo', 'mitgcm') if g in RECT else ('nemo',):
            w(kind='uv', hor=g, dep=None, nt=3, gi=gi)
            if tier != 'quick':
                w(kind='uv', hor=g, dep=None, nt=1, gi=gi)
            if g in ('flat', 'quad', 'csph') or tier != 'quick':
                for dep in ('up', 'down'):
                    w(kind='uv', hor=g, dep=dep, nt=3, gi=gi)
                w(kind='uvw', hor=g, dep='up', nt=3, gi=gi)
        if g in ('flat', 'sph', 'quad', 'csph', 'shear') or tier != 'quick':
            for dep in ('s-up', 's-down', 's4-up'):
                w(kind='uvw', hor=g, dep=dep, nt=3, gi='nemo')
                w(kind='uv', hor=g, dep=dep, nt=3, gi='nemo')
    # velocities on A- and B-grids (component-wise)
    for g in ('flat', 'quad', 'km'):
        for m in ('linear', 'nearest'):
            w(kind='auv', hor=g, dep='up', nt=3, m=m)
        for gi in ('nemo', 'pop', 'mom5'):
            w(kind='auvw', hor=g, dep='up', nt=3, m='bgrid_velocity', gi=gi)
    return out


def units(tier):
    ws = worlds(tier)
    if tier == 'quick':
        return [ws[i::48] for i in range(48)]
    return [ws[i::160] for i in range(160)]


# ---------------------------------------------------------------------------------------------------- world
class World(object):
    def __init__(self, w):
        self.w = w
        self.curv = w['hor'] in CURV
        mesh, lon, lat = (CURV if self.curv else RECT)[w['hor']]
        self.mesh = mesh
        self.lon, self.lat = np.array(lon, dtype=np.float64), np.array(lat, dtype=np.float64)
        one = w.get('one', '')
        if 'x' in one:
            self.lon = self.lon[:1]
        if 'y' in one:
            self.lat = self.lat[:1]
        if self.curv:
            self.ny, self.nx = self.lon.shape
        else:
            self.ny, self.nx = len(self.lat), len(self.lon)
        self.t = np.array(TIMES[w['nt']])
        self.s = w['dep'] is not None and w['dep'][0] == 's' and w['dep'] != 'sph'
        self.z4 = self.s and w['dep'].startswith('s4')
        nt = len(self.t)
        if w['dep'] is None:
            self.z, self.nz = None, 1
        else:
            base = np.array(DEPTH[w['dep'].split('-')[-1]])
            self.nz = len(base)
            self.z = base
            if self.s:
                jj, ii = np.meshgrid(np.arange(self.ny), np.arange(self.nx), indexing='ij')
                fac = 1 + .25 * jj + .5 * ii
                d = base[:, None, None] * fac[None] + .5 * ii[None]
                if self.z4:
                    d = d[None] * (1 + .5 * np.arange(nt))[:, None, None, None]
                self.z = d
        # descending rows: the reference works on rows from south to north
        self.flip = not self.curv and self.ny > 1 and self.lat[0] > self.lat[-1]

    def fields(self):
        """name -> array (t, z, y, x) as seen by the reference."""
        nt = len(self.t)
        names = {'scalar': ['P'], 'uv': ['U', 'V'], 'uvw': ['U', 'V', 'W'], 'auv': ['U', 'V'], 'auvw': ['U', 'V', 'W']}[self.w['kind']]
        a = noise(len(names), nt, self.nz, self.ny, self.nx)
        land = self.w.get('land', 0)
        if land:
            idx = np.arange(nt * self.nz * self.ny * self.nx).reshape(nt, self.nz, self.ny, self.nx)
            pat = idx[0] * 7 + 3    # the same land at all times
            masks = {1: pat % 3 == 0, 2: pat % 2 == 0, 3: pat % 4 != 0, 4: pat % 5 != 1}
            a[:, :, masks[land]] = 0.
        if self.w['hor'].startswith('globe'):
            a[..., -1] = a[..., 0]
        return dict(zip(names, a))

    def build(self, data):
        mk = dict(time=self.t.copy(), time_origin=TimeConverter(0), mesh=self.mesh)
        depth = None if self.z is None else self.z.astype(np.float32)
        grid = Grid.create_grid(self.lon.astype(np.float32), self.lat.astype(np.float32), depth, **mk)
        m = {'scalar': self.w.get('m'), 'uv': 'cgrid_velocity', 'uvw': 'cgrid_velocity', 'auv': self.w.get('m'), 'auvw': self.w.get('m')}[self.w['kind']]
        fl = {}
        for n, a in data.items():
            a = a if self.nz > 1 else a[:, 0]
            if len(self.t) == 1:
                a = a[0]
            mm = 'bgrid_w_velocity' if n == 'W' and m == 'bgrid_velocity' else m
            fl[n] = Field(n, a.copy(), grid=grid, interp_method=mm, gridindexingtype=self.w['gi'])
        if 'U' not in data:
            g0 = Grid.create_grid(np.array([-1e6, 1e6], dtype=np.float32), np.array([-1e6, 1e6], dtype=np.float32), None, None, TimeConverter(0), 'flat')
            for n in 'UV':
                fl[n] = Field(n, np.zeros((2, 2), dtype=np.float32), grid=g0)
        u, v = fl.pop('U'), fl.pop('V')
        fs = FieldSet(u, v, fields=fl)
        fs.check_complete()
        return fs

    # -- lattice ------------------------------------------------------------------------------------
    def axis(self, n, fracs, wrap=False):
        """[[(index, fraction), ...]]: candidates of every lattice position of an axis with n nodes."""
        if n == 1:
            return [[(0, 0.)]]
        out = []
        for k in range(n):
            out.append([c for c in ((k - 1, 1.), (k, 0.)) if 0 <= c[0] < n - 1])
            if k < n - 1:
                out.extend([[(k, f)] for f in (fracs if fracs else [(.25, .75)[k % 2]])])
        if wrap:
            out[0].append((n - 2, 1.))
            out[-1].append((0, 0.))
        return out

    def hor(self, yc, xc):
        """Coordinates of a relative position (any candidate)."""
        (yi, e), (xi, s) = yc, xc
        if not self.curv:
            lat = self.lat[::-1] if self.flip else self.lat
            x = self.lon[xi] if self.nx == 1 else self.lon[xi] + s * self.dlon(xi)
            y = lat[yi] if self.ny == 1 else lat[yi] + e * (lat[yi + 1] - lat[yi])
        else:
            px, py = self.corners(yi, xi)
            ph = [(1 - s) * (1 - e), s * (1 - e), s * e, (1 - s) * e]
            x, y = float(np.dot(ph, px)), float(np.dot(ph, py))
        if self.mesh == 'spherical' and not (self.lon.min() <= x <= self.lon.max()):
            for k in (-360, 360):
                if self.lon.min() <= x + k <= self.lon.max():
                    x = x + k
        return x, y

    def dlon(self, xi):
        d = self.lon[xi + 1] - self.lon[xi]
        if self.mesh == 'spherical':
            d = (d + 180) % 360 - 180 if abs(d) != 180 else d
        return d

    def corners(self, yi, xi):
        if not self.curv:
            lat = self.lat[::-1] if self.flip else self.lat
            x0 = self.lon[xi]
            x1 = x0 + self.dlon(xi)
            return np.array([x0, x1, x1, x0]), np.array([lat[yi], lat[yi], lat[yi + 1], lat[yi + 1]])
        ix = [(yi, xi), (yi, xi + 1), (yi + 1, xi + 1), (yi + 1, xi)]
        px, py = np.array([self.lon[i] for i in ix]), np.array([self.lat[i] for i in ix])
        if self.mesh == 'spherical':
            px[1:] = px[0] + (px[1:] - px[0] + 180) % 360 - 180
        return px, py

    def depth_nodes(self, zi, yi, xi, tk):
        """Depth of the four corners of level zi, at slice index tk."""
        d = self.z[tk] if self.z4 else self.z
        if self.flip:
            d = d[:, ::-1]
        return np.array([d[zi, yi, xi], d[zi, yi, xi + 1], d[zi, yi + 1, xi + 1], d[zi, yi + 1, xi]])

    def depth(self, zc, yc, xc, tc):
        if self.z is None:
            return 0.
        zi, f = zc
        if not self.s:
            if zi == -1:      # above the first level of a MOM5 grid
                return f * self.z[0]
            return self.z[zi] + f * (self.z[zi + 1] - self.z[zi])
        (yi, e), (xi, s) = yc, xc
        ph = [(1 - s) * (1 - e), s * (1 - e), s * e, (1 - s) * e]

        def at(tk):
            a, b = np.dot(ph, self.depth_nodes(zi, yi, xi, tk)), np.dot(ph, self.depth_nodes(zi + 1, yi, xi, tk))
            return a + f * (b - a)
        ti, tf = tc
        v = at(ti)
        return v if tf == 0 else v + tf * (at(ti + 1) - v)


# ---------------------------------------------------------------------------------------------------- definitions
def lin(c, *fr):
    """Multilinear interpolation of an array of 2s."""
    for f in fr:
        c = (1 - f) * c[0] + f * c[1]
    return float(c)


def cube(a, *idx):
    """2 x 2 (x 2) block starting at the given indices; axes of length one are repeated."""
    ix = [np.minimum([i, i + 1], n - 1) for i, n in zip(idx, a.shape)]
    return a[np.ix_(*ix)].astype(np.float64)


def near(fr):
    return [0] if fr < .5 else [1] if fr > .5 else [0, 1]


def land_def(c, fr):
    nz = [i for i in itertools.product((0, 1), repeat=len(fr)) if c[i] != 0]
    if not nz:
        return 0.
    if len(nz) == c.size:
        return lin(c, *fr)
    num = den = 0.
    for i in itertools.product((0, 1), repeat=len(fr)):
        d = sum((f - k) ** 2 for f, k in zip(fr, i))
        if d == 0:
            return float(c[i])
        if c[i] != 0:
            num += c[i] / d
            den += 1 / d
    return num / den


def spatial(a, w, zc, yc, xc):
    """All values the method allows for slice a (z, y, x) at one candidate cell."""
    m, gi = w['m'], w['gi']
    (yi, e), (xi, s) = yc, xc
    nz = a.shape[0]
    if nz == 1:
        c = cube(a[0], yi, xi)
        if m == 'nearest':
            return [float(c[j, i]) for j in near(e) for i in near(s)]
        if m in ('linear', 'bgrid_velocity'):
            return [lin(c, e, s)]
        if m == 'linear_invdist_land_tracer':
            return [land_def(c, (e, s))]
        return [float(c[1, 1])]          # tracers: one value per cell, at its upper right index
    zi, f = zc
    if gi == 'mom5' and zi == -1:
        c = cube(a[0], yi, xi)
        if m == 'bgrid_tracer':
            return [float(c[1, 1])]
        return [lin(c, e, s)] if m == 'bgrid_velocity' else [f * float(c[1, 1])]
    c = cube(a, zi, yi, xi)
    if m == 'nearest':
        return [float(c[k, j, i]) for k in near(f) for j in near(e) for i in near(s)]
    if m == 'linear':
        return [lin(c, f, e, s)]
    if m == 'linear_invdist_land_tracer':
        return [land_def(c, (f, e, s))]
    if m in ('cgrid_tracer', 'bgrid_tracer'):
        return [float(c[0, 1, 1])]
    if m == 'cgrid_velocity':            # vertical velocity: linear between the levels of its column
        j = 1 if gi == 'nemo' else 0
        return [(1 - f) * c[0, j, j] + f * c[1, j, j]]
    if m == 'bgrid_velocity':            # one value per layer: the level at the top (POP) or at the bottom (MOM5) of the cell
        return [lin(c[1 if gi == 'mom5' else 0], e, s)]
    if m == 'bgrid_w_velocity':
        below = 0. if gi == 'pop' and zi == nz - 2 else c[1, 1, 1]
        return [(1 - f) * c[0, 1, 1] + f * below]
    raise ValueError(m)


def metric(world, px, py, s, e):
    """Scale factors (metres per coordinate unit) at a point of the cell."""
    if world.mesh == 'flat':
        return 1., 1.
    lat = np.dot([(1 - s) * (1 - e), s * (1 - e), s * e, (1 - s) * e], py)
    return DEG2M * math.cos(RAD * lat), DEG2M


def cgrid2(world, U, V, gi, zi, yc, xc):
    """Velocity (in coordinate units) from the fluxes through the four edges of the cell."""
    (yi, e), (xi, s) = yc, xc
    px, py = world.corners(yi, xi)

    def length(a, b, se):
        mx, my = metric(world, px, py, *se)
        return math.hypot((px[b] - px[a]) * mx, (py[b] - py[a]) * my)
    if gi == 'nemo':
        u0, u1, v0, v1 = U[zi, yi + 1, xi], U[zi, yi + 1, xi + 1], V[zi, yi, xi + 1], V[zi, yi + 1, xi + 1]
    else:
        u0, u1, v0, v1 = U[zi, yi, xi], U[zi, yi, xi + 1], V[zi, yi, xi], V[zi, yi + 1, xi]
    fu = (1 - s) * u0 * length(0, 3, (0, e)) + s * u1 * length(1, 2, (1, e))
    fv = (1 - e) * v0 * length(0, 1, (s, 0)) + e * v1 * length(3, 2, (s, 1))
    xs, xe = (1 - e) * (px[1] - px[0]) + e * (px[2] - px[3]), (1 - s) * (px[3] - px[0]) + s * (px[2] - px[1])
    ys, ye = (1 - e) * (py[1] - py[0]) + e * (py[2] - py[3]), (1 - s) * (py[3] - py[0]) + s * (py[2] - py[1])
    mx, my = metric(world, px, py, s, e)
    jac = (xs * ye - xe * ys) * mx * my
    return [(xs * fu + xe * fv) / jac, (ys * fu + ye * fv) / jac]


class Hexa(object):
    """Trilinear hexahedron with corners indexed [z][y][x]."""

    def __init__(self, world, P):
        self.w, self.P = world, P

    def lat(self, s, e):
        return lin(self.P[0, :, :, 1], e, s)

    def tangents(self, s, e, z):
        P = self.P
        t = []
        for ax in range(3):      # along x, y, z
            d = np.diff(P, axis=2 - ax).squeeze(axis=2 - ax)
            fr = [f for a, f in ((2, z), (1, e), (0, s)) if a != ax]
            v = d
            for f in fr:
                v = (1 - f) * v[0] + f * v[1]
            t.append(np.array(v))
        return t

    def scaled(self, s, e, z):
        t = self.tangents(s, e, z)
        if self.w.mesh == 'spherical':
            mx, my = DEG2M * math.cos(RAD * self.lat(s, e)), DEG2M
        else:
            mx = my = 1.
        return [v * np.array([mx, my, 1.]) for v in t]

    def area(self, s, e, z, ax):
        t = self.scaled(s, e, z)
        a, b = [t[i] for i in range(3) if i != ax]
        return float(np.linalg.norm(np.cross(a, b)))

    def volume(self, s, e, z):
        return float(np.linalg.det(np.array(self.scaled(s, e, z))))

    def half(self, ax):
        """The half on the low side along an axis."""
        P = self.P.copy()
        lo = [slice(None)] * 3
        hi = [slice(None)] * 3
        lo[2 - ax], hi[2 - ax] = 0, 1
        P[tuple(hi)] = (P[tuple(lo)] + P[tuple(hi)]) / 2
        return Hexa(self.w, P)


def cgrid3(world, U, V, W, tk, zi, f, yc, xc):
    """Velocity in a hexahedral C-grid cell: fluxes through opposite faces and, by conservation, through the middle section,
    interpolated quadratically in each direction."""
    (yi, e), (xi, s) = yc, xc
    px, py = world.corners(yi, xi)
    P = np.zeros((2, 2, 2, 3))
    for k in (0, 1):
        pz = world.depth_nodes(zi + k, yi, xi, tk)
        for q, (j, i) in enumerate(((0, 0), (0, 1), (1, 1), (1, 0))):
            P[k, j, i] = px[q], py[q], pz[q]
    H = Hexa(world, P)
    vel = [(U[zi, yi + 1, xi], U[zi, yi + 1, xi + 1]), (V[zi, yi, xi + 1], V[zi, yi + 1, xi + 1]), (W[zi, yi + 1, xi + 1], W[zi + 1, yi + 1, xi + 1])]
    pos = [s, e, f]
    rate = []
    for ax in range(3):
        def at(v):
            q = list(pos)
            q[ax] = v
            return q

        def mid(a, v):
            q = [.5, .5, .5]
            q[a] = v
            return q
        h = H.half(ax)
        flux = vel[ax][0] * h.area(*mid(ax, 0.), ax=ax)
        for o in range(3):
            if o != ax:
                flux += vel[o][0] * h.area(*mid(o, 0.), ax=o) - vel[o][1] * h.area(*mid(o, 1.), ax=o)
        low = vel[ax][0] * H.area(*at(0.), ax=ax)
        high = vel[ax][1] * H.area(*at(1.), ax=ax)
        middle = flux / H.area(.5, .5, .5, ax=ax) * H.area(*at(.5), ax=ax)
        x = pos[ax]
        rate.append(((2 * x * x - 3 * x + 1) * low + (4 * x - 4 * x * x) * middle + (2 * x * x - x) * high) / H.volume(s, e, f))
    t = H.tangents(s, e, f)
    v = sum(r * tt for r, tt in zip(rate, t))
    return [float(v[0]), float(v[1]), float(v[2])]


def candidates(world, data, tc, zcs, ycs, xcs):
    """All tuples of values the definition allows at a point."""
    w = world.w
    ti, tf = tc
    out = []
    for zc, yc, xc in itertools.product(zcs, ycs, xcs):
        sl = []
        for tk in (ti, ti + 1) if tf else (ti,):
            A = data[tk]
            zi, f = zc
            if w['kind'] == 'scalar':
                sl.append([(v,) for v in spatial(A['P'], w, zc, yc, xc)])
            elif w['kind'] in ('auv', 'auvw'):
                vs = [spatial(A[n], dict(w, m='bgrid_w_velocity' if n == 'W' else w['m']), zc, yc, xc) for n in A]
                sl.append(list(zip(*vs)) if all(len(v) == len(vs[0]) for v in vs) else list(itertools.product(*vs)))
            elif w['kind'] == 'uvw' and world.s:
                sl.append([tuple(cgrid3(world, A['U'], A['V'], A['W'], tk, zi, f, yc, xc))])
            else:
                v = cgrid2(world, A['U'], A['V'], w['gi'], zi, yc, xc)
                if w['kind'] == 'uvw':
                    v = v + spatial(A['W'], dict(w, m='cgrid_velocity'), zc, yc, xc)
                sl.append([tuple(v)])
        if tf:
            for a, b in zip(*sl):
                out.append(tuple((1 - tf) * p + tf * q for p, q in zip(a, b)))
        else:
            out.extend(sl[0])
    return out


def points(world, tier):
    w = world.w
    if tier == 'quick':
        q = [.25, .75] if world.nz == 1 else None
        tl = [(0, 0.)] if w['nt'] == 1 else [(0, 0.), (0, .25), (1, .5), (2, 0.)]
        zl = world.axis(world.nz, None)
    else:
        q = [.25, .5, .75]
        tl = [(0, 0.)] if w['nt'] == 1 else [(0, 0.), (0, .25), (1, 0.), (1, .5), (2, 0.)]
        zl = world.axis(world.nz, [.25, .5, .75])
    if w['gi'] == 'mom5':
        zl = [[(-1, .25)], [(-1, .5)]] + zl
    for tc in tl:
        t = world.t[tc[0]] + (tc[1] * (world.t[tc[0] + 1] - world.t[tc[0]]) if tc[1] else 0.)
        for zcs in zl:
            for ycs in world.axis(world.ny, q):
                for xcs in world.axis(world.nx, q, w['hor'].startswith('globe')):
                    x, y = world.hor(ycs[0], xcs[0])
                    z = world.depth(zcs[0], ycs[0], xcs[0], tc)
                    yield tc, zcs, ycs, xcs, (float(t), float(z), float(y), float(x))
                    if w['hor'].startswith('globe'):      # one cell beyond the ends, where the periodic grid continues
                        if xcs[0][0] == 0 and xcs[0][1] < 1:
                            yield tc, zcs, ycs, xcs, (float(t), float(z), float(y), float(x) + 360)
                        elif xcs[0][0] == world.nx - 2 and xcs[0][1] > 0 and len(xcs) == 1:
                            yield tc, zcs, ycs, xcs, (float(t), float(z), float(y), float(x) - 360)


SC = 'particle.o0 = fieldset.P[particle.ts, particle.depth, particle.lat, particle.lon]'
BODY = {'scalar': [SC],
        'uv': ['(u, v) = fieldset.UV[particle.ts, particle.depth, particle.lat, particle.lon]', 'particle.o0 = u', 'particle.o1 = v'],
        'uvw': ['(u, v, w) = fieldset.UVW[particle.ts, particle.depth, particle.lat, particle.lon]', 'particle.o0 = u', 'particle.o1 = v', 'particle.o2 = w']}


def run(unit, ctx):
    for w in unit:
        if not ctx.case(w):
            continue
        world = World(w)
        data = world.fields()
        fs = world.build(data)
        pts = list(points(world, ctx.tier))
        kind = w['kind'].lstrip('a')
        if w['kind'] == 'scalar':
            fs_eval = lambda p: (float(fs.P[p]),)
        elif kind == 'uv':
            fs_eval = lambda p: tuple(float(v) for v in fs.UV[p])
        else:
            fs_eval = lambda p: tuple(float(v) for v in fs.UVW[p])
        coords = [p[4] for p in pts]
        nout = {'scalar': 1, 'uv': 2, 'uvw': 3}[kind]
        got = {m: sample(fs, m, coords, BODY[kind], nout=nout) for m in ('scipy', 'jit')}
        ev = []
        for c in coords:
            try:
                ev.append(fs_eval(c))
            except Exception as e:
                ev.append(type(e).__name__)
            ctx.tick()
        got['eval'] = ev
        bad = {}
        levels = [{n: (a[tk][:, ::-1] if world.flip else a[tk]).astype(np.float64) for n, a in data.items()} for tk in range(len(world.t))]
        for k, (tc, zcs, ycs, xcs, c) in enumerate(pts):
            cand = candidates(world, levels, tc, zcs, ycs, xcs)
            ctx.state((w['hor'], w['dep'], tc, zcs[0], ycs[0], xcs[0]))
            ctx.trace(3)
            ctx.step(3)
            if tc[1] or len(zcs) * len(ycs) * len(xcs) == 1:
                ctx.distinct((sorted(w.items(), key=str), c))
            scale = max(abs(v) for cc in cand for v in cc) + 1e-30
            for m in got:
                g = got[m][k]
                ok = isinstance(g, tuple) and any(all(abs(a - b) <= 2e-5 * scale + 1e-12 * 0 for a, b in zip(g, cc)) for cc in cand)
                if not ok:
                    bad.setdefault(m, []).append((c, g, sorted(set(cand))[:3]))
        ctx.outcome('%s points' % w['kind'])
        for m, b in bad.items():
            ctx.violate('%s:%s:%s' % (m, w['hor'], ','.join('%s=%s' % kv for kv in sorted(w.items(), key=str) if kv[0] != 'hor')),
                        '%s: %d of %d samples wrong, e.g. at (t, z, y, x) = %r got %r, defined %r' % ((m, len(b), len(pts)) + b[0]))
        ctx.sample({'world': w, 'points': len(pts), 'first': coords[0]})
