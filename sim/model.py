"""Executable reference model.

Every curve kind is restated here as a plain function of the *current* source data; nothing
is cached across edits (memo tables are dropped whenever the world's version changes), there
are no observers and no scans that resume.  It shares no code with curvepy.
"""
import bisect
import datetime
import math

EPS = 1e-5
INF = math.inf
ANY = 'any'       # an answer the property leaves open


def fitted(pts):
    """slope and value at the first sample of the least-squares line, exactly"""
    from fractions import Fraction as F
    if len(pts) < 2 or any(p[1] is None for p in pts):
        return None
    x0 = F(pts[0][0])
    xs, ys = [F(p[0]) - x0 for p in pts], [F(p[1]) for p in pts]
    n, sx, sy = len(pts), sum(xs), sum(ys)
    sxx, sxy = sum(x * x for x in xs), sum(x * y for x, y in zip(xs, ys))
    m = (n * sxy - sx * sy) / (n * sxx - sx * sx)
    return float(m), float((sy - m * sx) / n)


def lerp(p, q, x):
    u = (x - p[0]) / (q[0] - p[0])
    return (1.0 - u) * p[1] + u * q[1]


# ---------------------------------------------------------------- user functions
# name -> (arity, function, keeps values exact)
def _n(f):
    return lambda y: None if y is None else f(y)


def _w(f):
    # reads in the middle of an update may hand over values which are gone
    return lambda ys: None if None in ys or not ys else f(ys)


UF = {
    'dbl': (1, _n(lambda y: 2 * y), True),
    'neg1': (1, _n(lambda y: -y), True),
    'inc': (1, _n(lambda y: y + 1), True),
    'half': (1, _n(lambda y: y / 2), True),
    'sq': (1, _n(lambda y: y * y), True),
    'abs1': (1, _n(lambda y: abs(y) + 1), True),
    'fill0': (1, lambda y: 0 if y is None else y, True),
    'addx': (2, lambda x, y: None if y is None else y + x, True),
    'par': (2, lambda x, y: None if y is None else (y if math.floor(x) % 2 == 0 else -y), True),
    # combinations: f(x, ys)
    'wsum': (2, lambda x, ys: None if None in ys else sum((i + 1) * y for i, y in enumerate(ys)), True),
    'cntn': (2, lambda x, ys: sum(1 for y in ys if y is not None), True),
    # windows, newest first
    'wmean': (1, _w(lambda ys: sum(ys) / len(ys)), False),
    'wnew': (1, _w(lambda ys: sum((i + 1) * y for i, y in enumerate(ys))), True),
    'wspan': (2, lambda x, ys: None if None in ys else x + max(ys) - min(ys), True),
    'wcnt': (1, lambda ys: len(ys), True),
    'wmiss': (1, lambda ys: 16 * len(ys) + sum(i + 1 for i, y in enumerate(ys) if y is None), True),
    # accumulators f(x, y, last)
    'csum': (3, lambda x, y, l: (l or 0) + (y or 0), True),
    'cmax': (3, lambda x, y, l: l if y is None else (y if l is None else max(l, y)), True),
    'ccnt': (3, lambda x, y, l: (l or 0) + 1, True),
    # generic curves f(x) over external state k
    'gk': (1, None, True),
}


class Rounding(Exception):
    """level or not is decided by rounding"""


class M:
    """Base of all model nodes."""
    num = True        # numeric valued
    leaf = False      # an end of its domain may be open
    grid_ok = False   # has a finite list of samples, finite domain
    uniform = False   # evenly spaced for sure
    exact = True      # dyadic exact values
    nonone = False    # has a value everywhere inside its domain
    finite = True     # never infinite / nan
    deg = 1           # growth of magnitude
    samp = True       # base-class sampling applies
    stepable = True   # x_next/x_previous follow the grid
    dyable = True     # slopes may be asked
    srcs = ()

    def __init__(self, w, srcs=()):
        self.w = w
        self.srcs = tuple(srcs)
        self.leaf = any(s.leaf for s in self.srcs)
        self.depth = 1 + max([s.depth for s in self.srcs], default=0)
        self._v = None
        self._m = {}

    def memo(self, key, f):
        if self._v != self.w.ver:
            self._v = self.w.ver
            self._m = {}
        try:
            return self._m[key]
        except KeyError:
            v = self._m[key] = f()
            return v

    # --- to override
    def _dom(self):
        raise NotImplementedError

    def _y(self, x):
        raise NotImplementedError

    def _grid(self):
        raise NotImplementedError

    # --- public
    def dom(self):
        return self.memo('d', self._dom)

    def y(self, x):
        return self.memo(('y', x), lambda: self._y(x))

    def grid(self):
        return self.memo('g', self._grid)

    def inside(self, x):
        d, o = self.dom(), self.opens()
        return d is not None and d[0] <= x <= d[1] and not (x == d[0] and o[0] or x == d[1] and o[1])

    def opens(self):
        """whether the finite ends of the domain are open"""
        return self.memo('o', self._opens)

    def _opens(self):
        return self.srcs[0].opens() if self.leaf and len(self.srcs) == 1 else (False, False)

    def scanned(self):
        """samples something scanning this curve meets"""
        return [g for g in self.grid() if self.inside(g)] if self.leaf else self.grid()

    def defined(self):
        return True

    @property
    def walk(self):
        """stepping is modelled"""
        return self.stepable and self.grid_ok

    def nxt(self, x, m=EPS):
        if is_coarse(self):
            return INF
        g = self.grid()
        i = bisect.bisect_left(g, x + m)
        return g[i] if i < len(g) else None

    def prv(self, x, m=EPS):
        if is_coarse(self):
            return -INF
        g = self.grid()
        i = bisect.bisect_right(g, x - m)
        return g[i - 1] if i > 0 else None

    def dy(self, x, forward=False):
        x1 = self.nxt(x) if forward else self.prv(x)
        if x1 is None:
            return None
        y1 = self.y(x1)
        if y1 is None:
            return None
        y = self.y(x)
        if y is None:
            return None
        return (y1 - y) / (x1 - x)

    def samples(self, rng=None):
        """rng: None or (a, b, a_open, b_open)."""
        q = self.clip(rng)
        if q is None:
            return []
        a, b, ao, bo = q
        xs = []
        if not ao:
            xs.append(a)
        xs += [g for g in self.grid() if a < g < b]
        if not bo and b != a:
            xs.append(b)
        return [(x, self.y(x)) for x in xs]

    def walked(self, rng=None):
        """samples of a finite range by stepping: its included ends and every step between"""
        q = self.clip(rng)
        if q is not None and (math.isinf(q[0]) or math.isinf(q[1])):
            return None
        return self.spaced_samples(rng, EPS)

    def search(self, x, sign, step=None):
        """the positions a search downwards (sign 1) or upwards (-1) from x may answer; None in
        it when the way leads out of the curve"""
        def slopes(x):
            a, b = self.dy(x, False), self.dy(x, True)
            if any(v is not None and abs(v) < 1e-9 for v in (a, b)) and not all(exact_at(self, q) for q in (self.prv(x), x, self.nxt(x)) if q is not None):
                raise Rounding
            return None if a is None else sign * a, None if b is None else sign * b

        def go(x, way):
            while True:
                x = self.nxt(x) if way > 0 else self.prv(x)
                a, b = slopes(x)
                ahead, back = (b, a) if way > 0 else (-a if a is not None else None, None if b is None else -b)
                if ahead is None:
                    # back: the slope walked down (or level) to here
                    return x if back is None else None if back < 0 else ANY
                if back is None:
                    # next to a missing value: only a way further on counts
                    if ahead > 0:
                        return None
                elif ahead >= 0:
                    return x
        if self.y(x) is None:
            return [None]
        try:
            return self.stride(x, slopes, step, None, set()) if step else self.search_(x, slopes, go)
        except Rounding:
            return [ANY]

    def stride(self, x, slopes, step, came, seen):
        """by steps it may go past the sought position, and back"""
        if x in seen:
            return [ANY]
        if self.y(x) is None:
            return [came]
        seen = seen | {x}
        a, b = slopes(x)
        if a is None and b is None or a is not None and b is not None and a <= 0 <= b:
            return [x]
        if a is None:
            ways = [1] if b <= 0 else []
        elif b is None:
            ways = [-1] if a >= 0 else []
        elif a > 0 > b:
            ways = [1, -1] if abs(abs(a) - abs(b)) < 1e-9 * abs(a) else [1 if -b > a else -1]
        else:
            ways = [1 if b < 0 else -1]
        return [p for w in ways for p in self.stride(x + w * step, slopes, step, x, seen)] or [None]

    def search_(self, x, slopes, go):
        a, b = slopes(x)
        if a is None and b is None:
            return [x]
        if a is None:
            return [go(x, 1)] if b <= 0 else [None]
        if b is None:
            return [go(x, -1)] if a >= 0 else [None]
        if a <= 0 <= b:
            return [x]
        if a > 0 > b:
            if abs(abs(a) - abs(b)) < 1e-9 * abs(a):
                return [go(x, 1), go(x, -1)]
            return [go(x, 1 if -b > a else -1)]
        return [go(x, 1 if b < 0 else -1)]

    def stepped(self, rng, step):
        """samples every `step` from the start of a finite range to its end"""
        q = self.clip(rng)
        if q is None:
            return []
        a, b, ao, bo = q
        xs = [] if ao else [a]
        x = a + step
        while x < b or x == b and not bo:
            xs.append(x)
            x += step
        return [(x, self.y(x)) for x in xs]

    def spaced_samples(self, rng, step):
        """included ends and steps of at least `step` between"""
        q = self.clip(rng)
        if q is None:
            return []
        a, b, ao, bo = q
        xs = [] if ao else [a]
        x = self.nxt(a, step)
        while x is not None and x < b:
            xs.append(x)
            x = self.nxt(x, step)
        if not bo and (not xs or xs[-1] != b):
            xs.append(b)
        return [(x, self.y(x)) for x in xs]

    def clip(self, rng):
        d, o = self.dom(), self.opens()
        if d is None:
            return None
        a, b, ao, bo = d[0], d[1], o[0], o[1]
        if rng is not None:
            if rng[0] > a or (rng[0] == a and rng[2]):
                a, ao = rng[0], rng[2]
            if rng[1] < b or (rng[1] == b and rng[3]):
                b, bo = rng[1], rng[3]
        return None if a > b or (a == b and (ao or bo)) else (a, b, ao, bo)

    def sources(self):
        if not self.srcs:
            return [self]
        r = []
        for s in self.srcs:
            r += s.sources()
        return r


def exact_at(m, x):
    """nothing the value at x is computed from can be rounded"""
    if isinstance(m, Pts):
        d = m.dom()
        return d is None or not d[0] <= x <= d[1] or x in m.grid()
    y = m.y(x)
    return (y is None or float(y * 1024).is_integer()) and all(exact_at(s, x) for s in m.srcs)


def built_of(m, kind):
    return isinstance(m, kind) or any(built_of(s, kind) for s in m.srcs)


def is_coarse(m):
    return isinstance(m, (Const, Line)) and not getattr(m, 'd', None) or getattr(m, 'coarse', False)


# ---------------------------------------------------------------- sources
class Pts(M):
    grid_ok = True

    def __init__(self, w, pts, interp=0, uniform=True, none_ok=False):
        super().__init__(w)
        self.pts = [tuple(p) for p in pts]
        self.interp = interp
        self.uniform = uniform
        self.nonone = not none_ok

    def _dom(self):
        return (self.pts[0][0], self.pts[-1][0]) if self.pts else None

    def _grid(self):
        return [p[0] for p in self.pts]

    def _y(self, x):
        if not self.inside(x):
            return None
        return interp_y(self.pts, self.grid(), x, self.interp)

    def samples(self, rng=None):
        r = self.pts
        if rng is not None:
            a, b, ao, bo = rng[:4]
            r = [p for p in r if (p[0] > a or (p[0] == a and not ao)) and (p[0] < b or (p[0] == b and not bo))]
        return list(r)

    # edits: return new list of samples, or None if the edit must be rejected
    def spaced(self, pts):
        if not self.uniform or len(pts) < 3:
            return True
        h = pts[1][0] - pts[0][0]
        return all(abs(pts[i][0] - pts[0][0] - i * h) <= 1e-9 * max(1, abs(h) * i) for i in range(len(pts)))

    def edit(self, kind, a):
        P = self.pts
        if kind == 'append':
            pt = tuple(a)
            if P and pt[0] <= P[-1][0]:
                return None
            n = P + [pt]
        elif kind == 'extend':
            pts = [tuple(p) for p in a]
            if not pts:
                return list(P)
            if P and pts[0][0] <= P[-1][0]:
                return None
            n = P + pts
        elif kind in ('replace', 'upsert'):
            pt = tuple(a)
            if not P or not (P[0][0] <= pt[0] <= P[-1][0]):
                if kind == 'upsert':
                    return self.edit('append', pt)
                return None
            g = [p[0] for p in P]
            i = bisect.bisect_left(g, pt[0])
            if g[i] == pt[0]:
                n = P[:i] + [pt] + P[i + 1:]
            elif self.uniform:
                return None
            else:
                n = P[:i] + [pt] + P[i:]
        elif kind == 'reset':
            if a is None:
                return []
            lo, hi, ao, bo = a
            n = [p for p in P if not ((p[0] > lo or (p[0] == lo and not ao)) and (p[0] < hi or (p[0] == hi and not bo)))]
            if len(n) == len(P):
                return n
            if self.uniform and n and n[0] == P[0] and n[-1] == P[-1]:
                return None     # a hole in the grid
        elif kind == 'set':
            n = [tuple(p) for p in a]
        else:
            raise KeyError(kind)
        return n if self.spaced(n) else None


def interp_y(pts, g, x, interp):
    i = bisect.bisect_left(g, x)
    if i < len(g) and g[i] == x:
        return pts[i][1]
    if i == 0 or i == len(g):
        return None
    p, q = pts[i - 1], pts[i]
    if interp < 0:
        return p[1]
    if interp > 0:
        return q[1]
    if p[1] is None or q[1] is None:
        return None
    return lerp(p, q, x)


class Nought(Pts):
    """The curve which is nowhere."""
    fixed = True

    def __init__(self, w):
        super().__init__(w, [])

    def edit(self, kind, a):
        return None


class Everywhere(M):
    """No samples, infinite domain."""
    nonone = True
    samp = False
    stepable = False

    def _dom(self):
        return (-INF, INF)

    def _grid(self):
        return []


class Const(Everywhere):
    def __init__(self, w, v, dom=None):
        super().__init__(w)
        self.v = v
        self.d = tuple(dom[:2]) if dom else None
        self.o = tuple(dom[2:]) if dom and len(dom) > 2 else (False, False)
        self.dyable = self.d is None

    @property
    def walk(self):
        """its only steps are its ends"""
        return bool(self.d) and not math.isinf(self.d[0]) and not math.isinf(self.d[1])

    def nxt(self, x, m=EPS):
        if not self.walk:
            return INF
        return self.d[1] if x < self.d[1] and not self.o[1] else None

    def prv(self, x, m=EPS):
        if not self.walk:
            return -INF
        return self.d[0] if x > self.d[0] and not self.o[0] else None

    def _dom(self):
        return self.d or (-INF, INF)

    def _opens(self):
        return self.o if self.d else (False, False)

    def _y(self, x):
        return self.v if self.inside(x) else None

    def dy(self, x, forward=False):
        return 0.0


class Line(Everywhere):
    def __init__(self, w, p, m):
        super().__init__(w)
        self.p = tuple(p)
        self.m = m

    def _y(self, x):
        return self.p[1] + self.m * (x - self.p[0])

    def dy(self, x, forward=False):
        return self.m


class Sin(Everywhere):
    exact = False

    def dy(self, x, forward=False):
        k = 2 * math.pi / self.period
        return self.a * k * math.cos(k * x + self.phase)

    def __init__(self, w, a, period, phase):
        super().__init__(w)
        self.a, self.period, self.phase = a, period, phase

    def _y(self, x):
        return self.a * math.sin(2 * math.pi * x / self.period + self.phase)


class Gen(Everywhere):
    """Generic curve over external state: y = k[0] + k[1] * x inside an optional domain."""
    dyable = False
    fine = True

    def __init__(self, w, k, dom=None):
        super().__init__(w)
        self.k = list(k)
        self.d = tuple(dom) if dom else None

    def _dom(self):
        return self.d or (-INF, INF)

    def _y(self, x):
        return self.k[0] + self.k[1] * x if self.inside(x) else None


# ---------------------------------------------------------------- pointwise
def _num_all(ys):
    return all(y is not None for y in ys)


def f_add(x, ys):
    return sum(ys) if _num_all(ys) else None


def f_sub(x, ys):
    if not _num_all(ys):
        return None
    r = ys[0]
    for y in ys[1:]:
        r -= y
    return r


def f_mul(x, ys):
    if not _num_all(ys):
        return None
    r = 1.0
    for y in ys:
        r *= y
    return r


def f_div(x, ys):
    if not _num_all(ys):
        return None
    r = ys[0]
    for y in ys[1:]:
        if y == 0:
            r = INF if r >= 0 else -INF
        else:
            r /= y
    return r


def f_pow(x, ys):
    if not _num_all(ys):
        return None
    r = ys[0]
    for y in ys[1:]:
        r = r ** y
    return r


def f_log(x, ys):
    if not _num_all(ys):
        return None
    r = ys[0]
    for y in ys[1:]:
        r = math.log(r) / math.log(y)
    return r


def f_min(x, ys):
    return min([y for y in ys if y is not None], default=None)


def f_max(x, ys):
    return max([y for y in ys if y is not None], default=None)


def f_first(x, ys):
    for y in ys:
        if y is not None:
            return y
    return None


OPS = {'add': f_add, 'sub': f_sub, 'mul': f_mul, 'div': f_div, 'pow': f_pow, 'log': f_log,
       'min': f_min, 'max': f_max, 'mine': f_min, 'maxe': f_max, 'first': f_first,
       'list': lambda x, ys: list(ys)}
UNION = ('mine', 'maxe', 'first')


class Agg(M):
    def __init__(self, w, op, srcs, uf=None):
        super().__init__(w, srcs)
        self.op = op
        self.f = UF[uf][1] if uf else OPS[op]
        self.union = op in UNION
        gs = [s for s in srcs if s.grid_ok]
        fine = [s for s in srcs if not s.grid_ok and not is_coarse(s)]
        self.coarse = not gs and not fine
        self.grid_ok = bool(gs) and not fine and (not self.union or len(gs) == len(srcs))
        self.samp = self.stepable = self.grid_ok
        self.dyable = self.grid_ok and op != 'list'
        self.uniform = self.grid_ok and len(set(map(id, gs))) == 1 and gs[0].uniform
        self.exact = all(s.exact for s in srcs) and op not in ('div', 'pow', 'log')
        if op == 'mul':
            self.deg = sum(s.deg for s in srcs)
        else:
            self.deg = max(s.deg for s in srcs)
        self.finite = all(s.finite for s in srcs) and op != 'div'
        self.num = op != 'list' and all(s.num for s in srcs)
        self.nonone = all(s.nonone for s in srcs) and not self.union
        if op in ('min', 'max') and not self.union:
            self.nonone = any(s.nonone for s in srcs)
        if self.op == 'div' and isinstance(srcs[-1], Map) and srcs[-1].fid == 'abs1':
            self.finite = srcs[0].finite
        if uf == 'cntn':
            self.nonone = True

    def _dom(self):
        ds = [s.dom() for s in self.srcs]
        if self.union:
            ds = [d for d in ds if d]
            if not ds:
                return None
            return (min(d[0] for d in ds), max(d[1] for d in ds))
        if any(d is None for d in ds):
            return None
        a, b = max(d[0] for d in ds), min(d[1] for d in ds)
        return (a, b) if a < b or a == b and all(s.inside(a) for s in self.srcs) else None

    def _opens(self):
        if not self.leaf or self.dom() is None:
            return (False, False)
        q = any if self.union else all
        return tuple(not q(s.inside(e) for s in self.srcs) for e in self.dom())

    def _grid(self):
        return sorted({g for s in self.srcs for g in s.grid() if self.inside(g)})

    def _y(self, x):
        if not self.inside(x):
            return None
        return self.f(x, [s.y(x) for s in self.srcs])


class Map(M):
    def __init__(self, w, src, fid, skip=False):
        super().__init__(w, [src])
        self.src, self.fid, self.skip = src, fid, skip
        ar, self.f, ex = UF[fid]
        self.ar = ar
        self.grid_ok = src.grid_ok
        self.samp = self.stepable = self.dyable = src.grid_ok
        self.coarse = is_coarse(src)
        self.uniform = src.uniform
        self.exact = src.exact and ex
        self.nonone = src.nonone or (fid == 'fill0' and not skip)
        self.finite = src.finite
        self.deg = src.deg * (2 if fid == 'sq' else 1)

    def _dom(self):
        return self.src.dom()

    def _grid(self):
        return self.src.grid()

    def _y(self, x):
        y = self.src.y(x)
        if y is None and self.skip:
            return None
        return self.f(x, y) if self.ar == 2 else self.f(y)


class NegAbs(Map):
    """additive inverse, absolute value and multiplicative inverse built by the API itself"""

    def __init__(self, w, src, which):
        M.__init__(self, w, [src])
        self.src, self.which = src, which
        self.fid = which
        self.grid_ok = src.grid_ok
        self.samp = self.stepable = self.dyable = src.grid_ok
        self.coarse = is_coarse(src)
        self.uniform, self.nonone = src.uniform, src.nonone
        self.exact = src.exact and which != 'inv'
        self.finite, self.deg = src.finite and which != 'inv', src.deg

    def _y(self, x):
        y = self.src.y(x)
        if y is None:
            return None
        return {'neg': lambda: -y, 'abs': lambda: abs(y), 'inv': lambda: 1 / y}[self.which]()


class Diff(M):
    grid_ok = True
    dyable = False

    def __init__(self, w, src, forward=False):
        super().__init__(w, [src])
        self.src, self.forward = src, forward
        self.grid_ok = src.grid_ok
        self.samp = self.stepable = src.grid_ok
        self.uniform = src.uniform
        self.exact = src.exact and src.uniform
        self.deg = src.deg
        self.nonone = False

    def _dom(self):
        return self.src.dom()

    def _grid(self):
        return self.src.grid()

    def _y(self, x):
        return self.src.dy(x, self.forward)


# ---------------------------------------------------------------- views
class Off(M):
    def __init__(self, w, src, off):
        super().__init__(w, [src])
        self.src, self.off = src, off
        for k in ('grid_ok', 'uniform', 'exact', 'nonone', 'finite', 'deg', 'num', 'samp', 'stepable', 'dyable'):
            setattr(self, k, getattr(src, k))
        self.coarse = is_coarse(src)
        if self.coarse:
            self.samp = self.stepable = False

    def _dom(self):
        d = self.src.dom()
        return d and (d[0] + self.off, d[1] + self.off)

    def _grid(self):
        return [g + self.off for g in self.src.scanned()]

    def back(self, x):
        q, d = x - self.off, self.src.dom()
        # the ends are values of the source, whatever the rounding of the shift
        return min(max(q, d[0]), d[1]) if self.inside(x) else q

    def _y(self, x):
        q = self.back(x)
        return self.src.y(q) if self.src.inside(q) else None

    def dy(self, x, forward=False):
        q = self.back(x)
        return self.src.dy(q, forward) if self.src.inside(q) else None


EPOCH = datetime.datetime(1970, 1, 1)


class Dur:
    """
    A duration by its name: whole seconds, hours starting afresh every day, or calendar
    months (UTC) starting afresh every year.  D is the usual length in seconds.
    """
    memo = {}
    UNITS = {'s': 1, 'm': 60, 'h': 3600, 'd': 86400, 'M': 30 * 86400}

    def __new__(cls, name):
        if name not in cls.memo:
            self = cls.memo[name] = super().__new__(cls)
            self.name = name
            self.n, self.unit = int(name[:-1]), name[-1]
            self.D = self.n * cls.UNITS[self.unit]
            self.uniform = self.unit != 'M' and (self.unit != 'h' or 86400 % self.D == 0)
        return cls.memo[name]

    def _month(self, i):
        """start of the i-th month since 1970"""
        return (datetime.datetime(1970 + i // 12, i % 12 + 1, 1) - EPOCH).days * 86400

    def floor(self, x):
        if self.uniform:
            return math.floor(x / self.D) * self.D
        d = math.floor(x / 86400) * 86400
        if self.unit == 'h':
            return d + math.floor((x - d) / self.D) * self.D
        t = EPOCH + datetime.timedelta(seconds=d)
        return self._month((t.year - 1970) * 12 + (t.month - 1) // self.n * self.n)

    def next(self, x):
        """the first whole duration after x"""
        f = self.floor(x)
        if self.unit == 'M':
            t = EPOCH + datetime.timedelta(seconds=f)
            y, m = t.year - 1970, t.month - 1 + self.n
            return self._month(y * 12 + min(m, 12))
        if self.uniform:
            return f + self.D
        return min(f + self.D, (math.floor(f / 86400) + 1) * 86400)

    def ceil(self, x):
        f = self.floor(x)
        return f if f == x else self.next(x)

    def prev(self, x):
        """the last whole duration before x"""
        f = self.floor(x)
        return f if f != x else self.floor(x - 1e-3 * min(self.D, 1000))

    def step(self, x, k):
        """k whole durations away from the whole duration x"""
        if self.uniform:
            return x + k * self.D
        for _ in range(abs(k)):
            x = self.next(x) if k > 0 else self.prev(x)
        return x


class OffDur(Off):
    """Shift by k whole durations, linear between whole durations."""

    def __init__(self, w, src, k, dur):
        super().__init__(w, src, k * dur.D)
        self.k, self.dur = k, dur
        self.dyable = False
        if k:
            self.uniform = dur.uniform
            self.exact = False
            self.leaf = False

    def _opens(self):
        return (False, False) if self.k else self.src.opens()

    def _dom(self):
        d = self.src.dom()
        if not self.k or d is None:
            return d
        a, b = self.dur.ceil(d[0]), self.dur.floor(d[1])
        if not self.src.inside(a) and a <= d[0]:
            a = self.dur.next(a)
        if not self.src.inside(b) and b >= d[1]:
            b = self.dur.prev(b)
        return (self.dur.step(a, self.k), self.dur.step(b, self.k)) if a <= b else None

    def _grid(self):
        if not self.k:
            return self.src.scanned()
        d = self.dom()
        r = [d[0]] if d else []
        while r and r[-1] < d[1]:
            r.append(self.dur.next(r[-1]))
        return r

    def _y(self, x):
        if not self.k:
            return self.src.y(x) if self.src.inside(x) else None
        a, b = self.dur.floor(x), self.dur.ceil(x)
        sa, sb = self.dur.step(a, -self.k), self.dur.step(b, -self.k)
        if not self.src.inside(sa) or not self.src.inside(sb):
            return None
        ya = self.src.y(sa)
        if a == b:
            return ya
        yb = self.src.y(sb)
        if ya is None or yb is None:
            return None
        return lerp((a, ya), (b, yb), x)


def within(p, x):
    """Whether x lies in the interval p = [start, end, start_open, end_open]."""
    return (p[0] < x or p[0] == x and not p[2]) and (x < p[1] or x == p[1] and not p[3])


def piece_next(parts, x, m):
    """parts: (interval, curve); the next cut or step of the curve responsible"""
    for d, f in parts:
        if d[1] < x + m:
            continue
        if d[0] >= x + m:
            return d[0]
        n = f.nxt(x, m)
        if n is None or not (within(d, n) or n == d[1] == INF):
            n = d[1]
        return f.nxt(x, m) if math.isinf(n) else n
    return None


def piece_prev(parts, x, m):
    for d, f in reversed(parts):
        if d[0] > x - m:
            continue
        if d[1] <= x - m:
            return d[1]
        n = f.prv(x, m)
        if n is None or not (within(d, n) or n == d[0] == -INF):
            n = d[0]
        return f.prv(x, m) if math.isinf(n) else n
    return None


class Piece(M):
    """Ascending pieces that do not overlap; a gap between them answers None."""
    samp = stepable = dyable = False
    walk = None

    def __init__(self, w, srcs, parts):
        super().__init__(w, srcs)
        self.parts = [list(p) for p in parts]
        self.walk = all(s.walk or is_coarse(s) for s in srcs)
        self.exact = all(s.exact for s in srcs)
        self.finite = all(s.finite for s in srcs)
        self.deg = max(s.deg for s in srcs)
        self.leaf = self.parts[0][2] and self.parts[0][0] > -INF or self.parts[-1][3] and self.parts[-1][1] < INF
        # with finite ends it has finitely many steps, its cuts among them
        self.grid_ok = self.parts[0][0] > -INF and self.parts[-1][1] < INF and all(s.grid_ok or is_coarse(s) for s in srcs)
        self.dyable = self.grid_ok and all(s.stepable for s in srcs)
        self.num = all(s.num for s in srcs)

    def _opens(self):
        return (bool(self.parts[0][2]) and self.parts[0][0] > -INF, bool(self.parts[-1][3]) and self.parts[-1][1] < INF)

    def nxt(self, x, m=EPS):
        return piece_next(list(zip(self.parts, self.srcs)), x, m)

    def prv(self, x, m=EPS):
        return piece_prev(list(zip(self.parts, self.srcs)), x, m)

    def _dom(self):
        return (self.parts[0][0], self.parts[-1][1])

    def _grid(self):
        if not self.grid_ok:
            return []
        out = set()
        for p, s in zip(self.parts, self.srcs):
            out |= {p[0], p[1]} | {g for g in s.grid() if within(p, g)}
        return sorted(out)

    def _y(self, x):
        for p, s in zip(self.parts, self.srcs):
            if within(p, x):
                return s.y(x)
        return None


class Sub(Piece):
    def __init__(self, w, src, part):
        super().__init__(w, [src], [(list(part) + [False, False])[:4]])


class Mixed:
    """Steps of both curves where both are."""

    def __init__(self, w, srcs):
        self.srcs = srcs

    def dom(self):
        ds = [s.dom() for s in self.srcs]
        if None in ds or max(d[0] for d in ds) > min(d[1] for d in ds):
            return None
        return (max(d[0] for d in ds), min(d[1] for d in ds))

    def nxt(self, x, m=EPS):
        d = self.dom()
        if d is None:
            return None
        if x + m <= d[0]:
            return d[0]
        n = min([n for n in (s.nxt(x, m) for s in self.srcs) if n is not None], default=None)
        return n if n is not None and d[0] <= n <= d[1] else None

    def prv(self, x, m=EPS):
        d = self.dom()
        if d is None:
            return None
        if x - m >= d[1]:
            return d[1]
        n = max([n for n in (s.prv(x, m) for s in self.srcs) if n is not None], default=None)
        return n if n is not None and d[0] <= n <= d[1] else None


class Blend(M):
    """The first curve before a, the second from b, a linear mix between; where the first is."""
    samp = stepable = dyable = False
    walk = None

    def __init__(self, w, p, q, a, b):
        super().__init__(w, [p, q])
        self.walk = all(s.walk or is_coarse(s) for s in self.srcs) and not self.leaf
        self.mix = Mixed(w, [p, q])
        self.a, self.b = a, b
        self.exact = False
        self.finite = p.finite and q.finite
        self.deg = max(p.deg, q.deg)

    def _dom(self):
        return self.srcs[0].dom()

    def _grid(self):
        return []

    def _opens(self):
        return self.srcs[0].opens()

    def parts(self):
        p, q = self.srcs
        return [([-INF, self.a, True, True], p), ([self.a, self.b, False, True], self.mix), ([self.b, INF, False, True], q)]

    def nxt(self, x, m=EPS):
        d, n = self.dom(), piece_next(self.parts(), x, m)
        if d is None or n is None:
            return None
        if n > d[1] >= x + m:
            return d[1]
        return n if self.inside(n) else None

    def prv(self, x, m=EPS):
        d, n = self.dom(), piece_prev(self.parts(), x, m)
        if d is None or n is None:
            return None
        if n < d[0] <= x - m:
            return d[0]
        return n if self.inside(n) else None

    def _y(self, x):
        p, q = self.srcs
        if not self.inside(x):
            return None
        if x < self.a:
            return p.y(x)
        if x >= self.b:
            return q.y(x)
        u = (x - self.a) / (self.b - self.a)
        if not p.inside(x) or not q.inside(x):
            return None
        yp, yq = p.y(x), q.y(x)
        if yp is None or yq is None:
            return None
        return (1 - u) * yp + u * yq


# ---------------------------------------------------------------- scans
class Acc(M):
    """Values accumulated over the samples of the source, interpolated between them."""
    grid_ok = True
    interp = 0

    def __init__(self, w, src):
        super().__init__(w, [src])
        self.src = src
        self.uniform = src.uniform
        self.exact = False
        self.nonone = src.nonone
        self.deg = src.deg + 1

    def _dom(self):
        return self.src.dom()

    def _grid(self):
        return self.src.grid()

    def _opens(self):
        return self.src.opens()

    def acc(self):
        return self.memo('acc', lambda: list(zip(self.src.scanned(), self._acc())))

    def _y(self, x):
        if not self.inside(x):
            return None
        return interp_y(self.acc(), self.src.scanned(), x, self.interp)


class Integ(Acc):
    def __init__(self, w, src, const=0, kind=0):
        super().__init__(w, src)
        self.const, self.kind = const, kind
        self.exact = src.exact and src.uniform and kind != 0

    def _acc(self):
        out, s, prev = [], None, None
        for x in self.src.scanned():
            y = self.src.y(x)
            if y is not None:
                if s is None:
                    s = 0.0
                if prev is not None and prev[1] is not None:
                    w = x - prev[0]
                    if self.kind == 0:
                        s += (y + prev[1]) / 2 * w
                    elif self.kind < 0:
                        s += prev[1] * w
                    else:
                        s += y * w
            out.append(None if s is None else s + self.const)
            prev = (x, y)
        return out


class Sma(M):
    """n samples, or a length of x over an evenly spaced series."""
    grid_ok = True
    exact = False

    def __init__(self, w, src, n=None, period=None):
        super().__init__(w, [src])
        self.src, self.n, self.period = src, n, period
        self.uniform = src.uniform
        self.nonone = src.nonone
        self.deg = src.deg

    def defined(self):
        return all(self.src.y(x) is not None for x in self.src.scanned())

    def count(self):
        if self.n is not None:
            return self.n
        g = self.src.scanned()
        if len(g) < 2:
            return 1
        h = (g[-1] - g[0]) / (len(g) - 1)
        # while the series is shorter than the window, its last sample has the mean of all
        return min(len(g), max(1, math.ceil(self.period / h - 1e-9)))

    def _dom(self):
        g, n = self.src.scanned(), self.count()
        return (g[n - 1], g[-1]) if len(g) >= n else None

    def _grid(self):
        return self.src.scanned()[self.count() - 1:]

    def _vals(self):
        g, n = self.src.scanned(), self.count()
        ys = [self.src.y(x) for x in g]
        if None in ys:
            return [(x, None) for x in self.grid()]     # not defined
        area = [0.0]
        for i in range(1, len(g)):
            area.append(area[-1] + (ys[i] + ys[i - 1]) / 2 * (g[i] - g[i - 1]))
        out = []
        for i in range(n - 1, len(g)):
            j = i - n + 1
            out.append((g[i], ys[i] if n == 1 else (area[i] - area[j]) / (g[i] - g[j])))
        return out

    def _y(self, x):
        if not self.inside(x):
            return None
        if self.count() == 1:
            return self.src.y(x)
        return interp_y(self.memo('v', self._vals), self.grid(), x, 0)


class Ema(Acc):
    def __init__(self, w, src, alpha=None, period=None, init=None):
        super().__init__(w, src)
        if init is not None:
            self.srcs = (src, init)
            self.depth = max(self.depth, init.depth + 1)
        self.alpha, self.period, self.init = alpha, period, init
        self.nonone = src.nonone and init is None
        self.deg = src.deg

    def _acc(self):
        out, e, px = [], None, None
        for x in self.src.scanned():
            y = self.src.y(x)
            if y is not None:
                if e is None:
                    e = self.init.y(x) if self.init is not None else y
                else:
                    a = self.alpha if self.alpha is not None else abs(x - px) / self.period
                    e = e + a * (y - e)
            out.append(e)
            px = x
        return out


class Rsi(M):
    grid_ok = True
    exact = False
    nonone = True
    samp = stepable = False
    dyable = False

    def __init__(self, w, src, n):
        super().__init__(w, [src])
        self.src, self.n = src, n
        self.uniform = src.uniform

    def _dom(self):
        return self.src.dom()

    def _grid(self):
        return self.src.scanned()

    def _em(self, sign):
        out, e = [], None
        for x in self.src.scanned():
            d = self.src.dy(x)
            v = 0 if d is None else max(sign * d, 0)
            e = v if e is None else e + (v - e) / self.n
            out.append((x, e))
        return out

    def _y(self, x):
        if not self.inside(x):
            return None
        g = self.grid()
        u = interp_y(self.memo('u', lambda: self._em(1)), g, x, 0)
        d = interp_y(self.memo('w', lambda: self._em(-1)), g, x, 0)
        rs = INF if d == 0 else u / d
        return 100 - 100 / (1 + rs)


class Trail(Acc):
    def __init__(self, w, src, f, n=None, period=None, interp=0):
        super().__init__(w, src)
        self.n, self.period, self.interp = n, period, interp
        self.fid = f
        if f == 'min' or f == 'max':
            g = min if f == 'min' else max
            self.f = lambda x, ys: g(ys)
            self.exact = src.exact
        else:
            ar, g, ex = UF[f]
            self.f = g if ar == 2 else (lambda x, ys: g(ys))
            self.exact = src.exact and ex and n is not None

    def _acc(self):
        g = self.src.scanned()
        out = []
        for i, x in enumerate(g):
            if self.n is not None:
                k = i
                while k > 0 and i - k + 1 < self.n and self.src.y(g[k - 1]) is not None:
                    k -= 1      # up to a missing value
                xs = g[k:i + 1]
            else:
                # (a bar is in force until the next one)
                end = self.src.src.dur.next if isinstance(self.src, QView) else None
                xs = [q for q in g[:i + 1] if (end(q) > x - self.period if end else q >= x - self.period)]
            out.append(self.f(x, [self.src.y(q) for q in reversed(xs)]))
        return out


class Accum(Acc):
    def __init__(self, w, src, f, interp=0):
        super().__init__(w, src)
        self.fid, self.f, self.interp = f, UF[f][1], interp
        self.exact = src.exact
        self.nonone = False

    def _acc(self):
        out, l = [], None
        for x in self.src.scanned():
            l = self.f(x, self.src.y(x), l)
            out.append(l)
        return out


class Extr(M):
    grid_ok = False
    samp = True
    stepable = dyable = False
    exact = False

    def __init__(self, w, src, ref, dev=0):
        super().__init__(w, [src, ref])
        self.src, self.ref, self.dev = src, ref, abs(dev)
        self.tie = None

    def _dom(self):
        return self.src.dom()

    def tie_ok(self, x):
        return self.src.exact and (isinstance(self.ref, Const) or (isinstance(self.ref, Pts) and x in self.ref.grid()))

    def defined(self):
        """ties with the threshold decided by rounding are left alone"""
        self.confirmed()
        return self.tie != self.w.ver

    def confirmed(self):
        def f():
            # stretches of samples on one side of the reference, away from it
            run, side, out = None, 0, []
            for x in self.src.grid():
                y, r = self.src.y(x), self.ref.y(x)
                if y is not None and r is not None and abs(abs(y / r - 1) - self.dev) < 1e-9 and not self.tie_ok(x):
                    self.tie = self.w.ver
                if y is None or r is None or abs(y / r - 1) <= self.dev or y == r:
                    continue
                s = 1 if y > r else -1
                if run is not None and s != side:
                    out.append(run)
                    run = None
                if run is None or s * y > s * run[1]:
                    run, side = (x, y), s
            return out
        return self.memo('c', f)

    def _grid(self):
        return [p[0] for p in self.confirmed()]

    def _y(self, x):
        return interp_y(self.confirmed(), self.grid(), x, 0)

    # between the first and the last extrema steps are extremas, elsewhere those of the series
    walk = True

    def nxt(self, x, m=EPS):
        g = self.grid()
        if g and g[0] <= x + m <= g[-1]:
            return g[bisect.bisect_left(g, x + m)]
        return self.src.nxt(x, m)

    def prv(self, x, m=EPS):
        g = self.grid()
        if g and g[0] <= x - m <= g[-1]:
            return g[bisect.bisect_right(g, x - m) - 1]
        return self.src.prv(x, m)

    def samples(self, rng=None):
        return [p for p in self.walked(rng) or [] if p[1] is not None]


# ---------------------------------------------------------------- extensions
class Ext(M):
    """kind: constant | tangent | sin; window: None, ('n', k) or ('x', length) for regression."""
    samp = stepable = dyable = False
    exact = False
    walk = None

    def __init__(self, w, src, kind, start, end, window=None, period=None):
        super().__init__(w, [src])
        self.src, self.kind, self.start, self.end = src, kind, start, end
        self.window, self.period = window, period
        self.deg = src.deg
        self.walk = src.walk

    def nxt(self, x, m=EPS):
        d = self.src.dom()
        if d is None:
            return None
        n = self.src.nxt(x, m)
        if n is None and self.end:
            p = self.src.prv(d[1], m)
            n = None if p is None else x + d[1] - p
        return n if n is not None and self.inside(n) else None

    def prv(self, x, m=EPS):
        d = self.src.dom()
        if d is None:
            return None
        n = self.src.prv(x, m)
        if n is None and self.start:
            p = self.src.nxt(d[0], m)
            n = None if p is None else x - (p - d[0])
        return n if n is not None and self.inside(n) else None

    def edge(self, at_start):
        """None, or (x, value, slope) at the edge."""
        def f():
            s = self.src
            d = s.dom()
            if d is None:
                return None
            x = d[0] if at_start else d[1]
            if self.kind == 'constant':
                y = s.y(x)
                return (x, y, 0)
            if self.window is None:
                y, m = s.y(x), s.dy(x, at_start)
                return None if y is None or m is None else (x, y, m)
            g = s.grid()
            if self.window[0] == 'n':
                k = self.window[1] + 1
                xs = g[:k] if at_start else g[-k:]
            else:
                L = self.window[1]
                xs = [q for q in g if (q <= x + L if at_start else q >= x - L)]
            ps = [(q, s.y(q)) for q in xs]
            if len(ps) < 2 or any(p[1] is None for p in ps):
                return None
            n = len(ps)
            mx, my = sum(p[0] for p in ps) / n, sum(p[1] for p in ps) / n
            m = sum((p[0] - mx) * (p[1] - my) for p in ps) / sum((p[0] - mx) ** 2 for p in ps)
            return (x, my + m * (x - mx), m)
        return self.memo(('e', at_start), f)

    def _dom(self):
        d = self.src.dom()
        if d is None:
            return None
        return (-INF if self.start and self.edge(True) else d[0], INF if self.end and self.edge(False) else d[1])

    def _grid(self):
        return self.src.grid()

    def _y(self, x):
        d = self.src.dom()
        if d is None:
            return None
        if d[0] <= x <= d[1]:
            return self.src.y(x)
        left = x < d[0]
        if not (self.start if left else self.end):
            return None
        e = self.edge(left)
        if e is None:
            return None
        if self.kind == 'constant':
            return e[1]
        if self.kind == 'tangent':
            return e[1] + e[2] * (x - e[0])
        k = 2 * math.pi / self.period
        return e[1] * math.cos(k * (x - e[0])) + e[2] / k * math.sin(k * (x - e[0]))


# ---------------------------------------------------------------- quotes
class Quo(M):
    """bars: (t, [o, h, l, c, v]); the bar at or before x is in force."""
    num = False
    grid_ok = True
    exact = True

    def __init__(self, w, bars, dur, enc):
        super().__init__(w)
        self.dur, self.D, self.enc = dur, dur.D, enc
        self.p = Pts(w, bars, interp=-1, uniform=dur.uniform)
        self.uniform = dur.uniform
        self.nonone = True

    def _dom(self):
        return self.p.dom()

    def _grid(self):
        return self.p.grid()

    def _y(self, x):
        return self.p.y(x)

    def samples(self, rng=None):
        """the bars whose time [t, next t) meets the range"""
        if rng is None:
            return list(self.p.pts)
        a, b, ao, bo = rng[:4]
        if a > b or (a == b and (ao or bo)):
            return []
        return [p for p in self.p.pts if (p[0] < b or (p[0] == b and not bo)) and self.dur.next(p[0]) > a]


class QView(M):
    grid_ok = True

    def __init__(self, w, q, which):
        super().__init__(w, [q])
        self.src, self.which = q, which
        self.uniform = q.uniform
        self.nonone = True

    def _dom(self):
        return self.src.dom()

    def _grid(self):
        return self.src.grid()

    def _y(self, x):
        b = self.src.y(x)
        if b is None:
            return None
        if self.which == 'hl2':
            return (b[1] + b[2]) / 2
        return b[{'open': 0, 'high': 1, 'low': 2, 'close': 3, 'volume': 4}[self.which]]


class TrendStub(M):
    """A trend curve is judged against a fresh one, not against a model of its own."""
    samp = stepable = dyable = num = False

    def __init__(self, w, src, a):
        super().__init__(w, [src])
        self.src, self.a = src, a

    def _dom(self):
        d = self.src.dom()
        return d and (d[0], INF)

    def _y(self, x):
        return None
