"""The simulated world: real curvepy objects, their reference models, scripted observers,
faults, and the interpreter of operations.  Nothing here draws random numbers or reads a
clock: a history (list of JSON operations) plus a configuration decides everything."""
import gc
import math
import operator
import os
import time
import weakref

from . import model as Mo

INF = math.inf


class SimFault(Exception):
    """The failure injected into user functions and observers."""


class SimHang(BaseException):
    pass


class Violation(Exception):
    def __init__(self, cls, msg, **info):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg
        self.info = info


class HarnessError(Exception):
    pass


_lib = None


def lib():
    """curvepy from /repo, with the hash seam installed."""
    global _lib
    if _lib is None:
        import curvepy
        from intervalpy import Interval
        from curvepy.curve import Curve

        class L:
            pass
        L.cp = curvepy
        L.I = Interval
        L.Curve = Curve
        from curvepy.points import Points
        from curvepy.constant import Constant
        from curvepy.line import Line
        from curvepy.sin import Sin
        from curvepy.generic import Generic
        from curvepy.piecewise import Piecewise
        from curvepy.aggregate import Aggregate
        from curvepy.accumulator import Accumulator
        from curvepy.extremas import Extremas
        from curvepy.quotes import Quotes
        from curvepy.sma import SMA
        from curvepy.ema import EMA
        from curvepy.integral import Integral
        from curvepy.map import Map
        L.Points, L.Constant, L.Line, L.Sin, L.Generic = Points, Constant, Line, Sin, Generic
        L.Piecewise, L.Aggregate, L.Accumulator, L.Extremas, L.Quotes = Piecewise, Aggregate, Accumulator, Extremas, Quotes
        from curvepy.trend import Trend
        L.Trend = Trend
        L.SMA, L.EMA, L.Integral, L.Map = SMA, EMA, Integral, Map
        _lib = L
        # the simulator owns the hash (and so the set order) of curves
        L.salt = 0
        L.count = 0
        attr = '_sim_hash_key'

        def _hash(self):
            d = self.__dict__
            k = d.get(attr)
            if k is None:
                L.count += 1
                k = L.count
                d[attr] = k
            return ((k + 1) * (2 * L.salt + 1) * 2654435761) % 1000003
        Curve.__hash__ = _hash
    return _lib


def close(a, b, tol=1e-9):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    try:
        a = float(a)
        b = float(b)
    except Exception:
        return a == b
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def cancelled(m, x, got, want, slope=False):
    """the values it was computed from are so large that the difference is their rounding"""
    if not all(isinstance(v, (int, float)) and math.isfinite(v) for v in (got, want)):
        return False

    def large(m, x):
        try:
            y = m.y(x)
        except (OverflowError, ZeroDivisionError, NotImplementedError):
            y = None
        return max([abs(y) if isinstance(y, (int, float)) and math.isfinite(y) else 0] + [large(s, x) for s in m.srcs])
    if not slope:
        return abs(got - want) <= 1e-14 * large(m, x)
    # slopes are differences of values here and at a neighbouring position, over their distance
    xs = sorted({x} | {q for s in m.sources() if s.grid_ok and s.finite for q in s.grid()})
    i = xs.index(x)
    near = xs[max(0, i - 2):i + 3]
    return abs(got - want) <= 1e-14 * max(large(m, q) for q in near) / min([b - a for a, b in zip(near, near[1:])] or [1])


def iv_tuple(iv):
    if iv is None or iv.is_empty:
        return None
    return (iv.start, iv.end, bool(iv.start_open), bool(iv.end_open))


def iv_has(t, x):
    if t is None:
        return False
    a, b, ao, bo = t
    return (x > a or (x == a and not ao)) and (x < b or (x == b and not bo))


def cuts(ts):
    """positions at and between all the ends of some ranges"""
    e = sorted({z for t in ts if t is not None for z in t[:2] if not math.isinf(z)})
    if not e:
        return [0.0]
    return [e[0] - 1] + e + [(a + b) / 2 for a, b in zip(e, e[1:])] + [e[-1] + 1]


def scribbled(answer, handed):
    """the caller goes on to change the list it was handed"""
    if isinstance(handed, list):
        handed.reverse()
        handed[1:] = [(1e9, 0)]
    return answer


def hull(ts):
    """the range several announced ranges come to (the library joins ranges that way)"""
    ts = [t for t in ts if t is not None]
    if not ts:
        return None
    a, b = min(t[0] for t in ts), max(t[1] for t in ts)
    return a, b, not any(iv_has(t, a) for t in ts), not any(iv_has(t, b) for t in ts)


class Obs:
    __slots__ = ('id', 'node', 'dom', 'token', 'scripts', 'budget', 'holder', 'events', 'args', 'prio', 'alive', 'auto', 'kinds')

    def n_args(self, kind):
        return self.args[kind == 'e'] if isinstance(self.args, list) else self.args

    def ranged(self, kind):
        return self.n_args(kind) > 0


class Tick:
    """A subscriber object (for observers bound to objects)."""
    pass


def linear(a, b):
    return lambda x: a + b * x


class World:
    def __init__(self, cfg):
        self.L = lib()
        self.cfg = cfg
        self.L.salt = cfg.get('salt', 0)
        self.L.count = 0
        self.ver = 0
        self.nodes = {}      # id -> real curve
        self.models = {}     # id -> model
        self.specs = {}      # id -> construction op
        self.uses = {}       # id -> ids of operands
        self.obs = {}
        self.holders = {}
        self.log = []
        self.steps = 0
        self.uf_calls = 0
        self.uf_arm = None   # fail at this many further user function calls
        self.uf_fired = 0
        self.ob_fired = 0
        self.stats = {}
        self.edit_depth = 0
        self.edit_seq = 0
        self.nested = 0
        self.cb_reads = []
        self.cfgtol = cfg.get('tol', 1e-9)
        self.snap_on = cfg.get('snap', False)
        self.xprobe = cfg.get('xprobe', [])
        self.tmpl = {}
        self.tz0 = None
        self.order = {}      # node -> ids of observers in the order they are to be called
        gc.disable()

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def close(self):
        for o in list(self.obs.values()):
            o.scripts = {}
        if self.tz0 is not None:
            if self.tz0[0] is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = self.tz0[0]
            time.tzset()
            self.tz0 = None
        self.nodes.clear()
        self.models.clear()
        self.obs.clear()

    # ------------------------------------------------------------ user functions
    def _hit(self):
        self.uf_calls += 1
        if self.uf_arm is not None:
            self.uf_arm -= 1
            if self.uf_arm <= 0:
                self.uf_arm = None
                self.uf_fired += 1
                self.stat('fault.user_function')
                raise SimFault('user function')

    def uf(self, fid):
        ar, f, _ = Mo.UF[fid]
        hit = self._hit
        if ar == 1:
            def g(y):
                hit()
                return f(y)
        elif ar == 2:
            def g(x, y):
                hit()
                return f(x, y)
        else:
            def g(x, y, l):
                hit()
                return f(x, y, l)
        g.__name__ = fid
        return g

    # ------------------------------------------------------------ construction
    def op_new(self, op):
        L = self.L
        k = op['kind']
        i = op['id']
        s = [self.nodes[j] for j in op.get('src', [])]
        m = [self.models[j] for j in op.get('src', [])]
        a = op.get('a', {})
        real, mod = self.build(k, s, m, a, op)
        self.nodes[i] = real
        self.models[i] = mod
        self.specs[i] = op
        self.uses[i] = list(op.get('src', []))
        self.stat('kind.' + k)

    def build(self, k, s, m, a, op):
        L, w = self.L, self
        I = L.I
        if k == 'points':
            pts = [tuple(p) for p in a['pts']]
            args = list(pts)
            real = L.Points(args, interpolation=a.get('interp'), uniform=a.get('uniform', True))
            if a.get('alias'):
                del args[:]
            return real, Mo.Pts(w, pts, a.get('interp') or 0, a.get('uniform', True), a.get('none', False))
        if k == 'const':
            return L.Constant(a['v'], domain=I(*a['dom']) if a.get('dom') else None), Mo.Const(w, a['v'], a.get('dom'))
        if k == 'empty':
            return L.Curve.empty(), Mo.Nought(w)
        if k == 'line':
            return L.Line(p1=tuple(a['p']), slope=a['m']), Mo.Line(w, a['p'], a['m'])
        if k == 'sin':
            return (L.Sin(amplitude=a['a'], period=a['period'], phase=a['phase']),
                    Mo.Sin(w, a['a'], a['period'], a['phase']))
        if k == 'gen':
            mod = Mo.Gen(w, a['k'], a.get('dom'))
            st = {'k': list(a['k'])}
            hit = self._hit

            def yf(x):
                hit()
                return st['k'][0] + st['k'][1] * x
            real = L.Generic(yf, domain=I(*a['dom']) if a.get('dom') else None)
            self.tmpl[op['id']] = st
            return real, mod
        if k == 'agg':
            o = a['op']
            s, m = list(s), list(m)
            for at, what, v in a.get('raw', ()):
                # operands given as numbers, lists of points and functions
                if what == 'num':
                    real, mod = v, Mo.Const(w, v)
                elif what == 'pts':
                    real, mod = [tuple(p) for p in v], Mo.Pts(w, v)
                    # (between samples three apart there are only rounded values)
                    mod.exact = all((q[0] - p[0]) in (0.25, 0.5, 1, 2, 4, 8) for p, q in zip(v, v[1:]))
                else:
                    real, mod = linear(*v), Mo.Gen(w, v)
                s.insert(at, real)
                m.insert(at, mod)
            real = self.combine(o, s, a)
            return real, Mo.Agg(w, o if o != 'uf' else 'add', m, uf=a.get('f'))
        if k == 'map':
            return (s[0].map(self.uf(a['f']), skip_none=a.get('skip', False)),
                    Mo.Map(w, m[0], a['f'], a.get('skip', False)))
        if k == 'un':
            real = -s[0] if a['w'] == 'neg' else abs(s[0]) if a['w'] == 'abs' else s[0].multiplicative_inverse()
            return real, Mo.NegAbs(w, m[0], a['w'])
        if k == 'diff':
            return s[0].differential(forward=a.get('fwd', False)), Mo.Diff(w, m[0], a.get('fwd', False))
        if k == 'off':
            return s[0].offset(a['d']), Mo.Off(w, m[0], a['d'])
        if k == 'offdur':
            return s[0].offset(a['k'], duration=a['dur']), Mo.OffDur(w, m[0], a['k'], Mo.Dur(a['dur']))
        if k == 'piece':
            ps = [list(p) for p in a['parts']]
            ds = [I(p[0], p[1], start_open=p[2], end_open=p[3]) for p in ps]
            return L.Piecewise(s, ds), Mo.Piece(w, m, ps)
        if k == 'sub':
            p = (list(a['dom']) + [False, False])[:4]
            return s[0].subset(I(p[0], p[1], start_open=p[2], end_open=p[3])), Mo.Sub(w, m[0], p)
        if k == 'blend':
            return s[0].blend(s[1], a['a'], a['b']), Mo.Blend(w, m[0], m[1], a['a'], a['b'])
        if k == 'int':
            return (s[0].integral(const=a.get('c', 0), interpolation=a.get('interp'), uniform=a['u']),
                    Mo.Integ(w, m[0], a.get('c', 0), a.get('interp') or 0))
        if k == 'sma':
            if 'family' in a:
                # one of a family of averages
                base, count, stride, j, rev = a['family']
                f = (s[0].centered_macs if rev else s[0].harmonic_smas)(base, count, stride=stride, uniform=a['u'])
                ns = [int(round(base * ((1 + 5 ** 0.5) / 2) ** (i * (stride + 1)) / base) * base) for i in range(count)]
                return f[j], Mo.Sma(w, m[0], n=(ns[::-1] if rev else ns)[j])
            if 'n' in a:
                return s[0].sma(a['n'], uniform=a['u']), Mo.Sma(w, m[0], n=a['n'])
            return s[0].sma(a['p'], is_period=True, uniform=a['u']), Mo.Sma(w, m[0], period=a['p'])
        if k == 'ema':
            init = s[1] if len(s) > 1 else None
            minit = m[1] if len(s) > 1 else None
            if 'alpha' in a:
                return (s[0].ema(a['alpha'], init=init, uniform=a['u']),
                        Mo.Ema(w, m[0], alpha=a['alpha'], init=minit))
            return (s[0].ema(a['p'], is_period=True, init=init, uniform=a['u']),
                    Mo.Ema(w, m[0], period=a['p'], init=minit))
        if k == 'smma':
            sm = Mo.Sma(w, m[0], n=a['n'])
            return s[0].smma(a['n'], uniform=a['u']), Mo.Ema(w, m[0], alpha=1 / a['n'], init=sm)
        if k == 'rsi':
            return s[0].rsi(a['n'], uniform=a['u']), Mo.Rsi(w, m[0], a['n'])
        if k == 'trail':
            f = a['f']
            kw = dict(interpolation=a.get('interp'), uniform=a['u'])
            deg = a.get('n', a.get('p'))
            per = 'p' in a
            if f == 'min':
                real = s[0].trailing_min(deg, is_period=per, **kw)
            elif f == 'max':
                real = s[0].trailing_max(deg, is_period=per, **kw)
            else:
                real = s[0].accumulator_map(self.uf(f), deg, is_period=per, **kw)
            return real, Mo.Trail(w, m[0], f, n=a.get('n'), period=a.get('p'), interp=a.get('interp') or 0)
        if k == 'accum':
            return (L.Accumulator(s[0], self.uf(a['f']), interpolation=a.get('interp'), uniform=a['u']),
                    Mo.Accum(w, m[0], a['f'], a.get('interp') or 0))
        if k == 'extr':
            return L.Extremas(s[0], s[1], min_deviation=a.get('dev', 0)), Mo.Extr(w, m[0], m[1], a.get('dev', 0))
        if k == 'ext':
            kw = {}
            win = None
            if 'rn' in a:
                kw['regression_degree'] = a['rn']
                win = ('n', a['rn'])
            if 'rx' in a:
                kw['regression_period'] = a['rx']
                win = ('x', a['rx'])
            if a['k'] == 'sin':
                kw['period'] = a['period']
            return (s[0].extension(a['k'], start=a['start'], end=a['end'], **kw),
                    Mo.Ext(w, m[0], a['k'], a['start'], a['end'], win, a.get('period')))
        if k == 'quotes':
            enc = self.quote_encoder() if a.get('enc') else None
            bars = [tuple(b) for b in a['bars']]
            real = L.Quotes(a['dur'], quote_points=[self.bar_in(b, enc) for b in bars] if bars or a.get('init') else None, encoder=enc)
            mod = Mo.Quo(w, [(b[0], list(b[1])) for b in bars], Mo.Dur(a['dur']), bool(enc))
            mod.real_enc = enc
            return real, mod
        if k == 'trend':
            return L.Trend(s[0], **a), Mo.TrendStub(w, m[0], a)
        if k == 'qview':
            return getattr(s[0], a['w']), Mo.QView(w, m[0], a['w'])
        if k == 'qtrail':
            deg, per = a.get('n', a.get('p')), 'p' in a
            real = s[0].trailing_high(deg, is_period=per) if a['w'] == 'high' else s[0].trailing_low(deg, is_period=per)
            v = Mo.QView(w, m[0], a['w'])
            return real, Mo.Trail(w, v, 'max' if a['w'] == 'high' else 'min', n=a.get('n'), period=a.get('p'), interp=-1)
        if k == 'qao':
            h = Mo.QView(w, m[0], 'hl2')
            return s[0].ao(), self.ao_model(h)
        if k == 'qalli':
            h = Mo.QView(w, m[0], 'hl2')
            n, off = [(13, 8), (8, 5), (5, 3)][a['j']]
            return s[0].alligator()[a['j']], Mo.OffDur(w, Mo.Sma(w, h, n=n), off, m[0].dur)
        raise HarnessError('unknown kind ' + k)

    def combine(self, o, s, a):
        C, form = self.L.Curve, a.get('form', 'op')
        first = isinstance(s[0], C)
        if o == 'uf':
            return self.L.Aggregate(s, tfm=self.uf(a['f']))
        if o == 'list':
            return self.L.Aggregate(s)
        kw = {'ignore_empty': True} if o in ('mine', 'maxe') else {}
        many = {'add': C.add_many, 'sub': C.subtract_many, 'mul': C.multiply_many, 'div': C.divide_many, 'pow': C.pow_many,
                'log': C.log_many, 'min': C.min, 'mine': C.min, 'max': C.max, 'maxe': C.max, 'first': C.first}[o]
        if form == 'args' and first:
            return many(*s, **kw)
        if len(s) == 2 and form == 'meth' and o in ('add', 'sub', 'mul', 'div', 'pow', 'log'):
            if first:
                name = {'sub': 'subtract', 'mul': 'multiply', 'div': 'divide'}.get(o, o)
                return getattr(s[0], name)(s[1])
            if o == 'pow':
                return s[1].raised(s[0])
        if len(s) == 2 and form != 'many' and o in ('add', 'sub', 'mul', 'div', 'pow'):
            return {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'pow': operator.pow}[o](s[0], s[1])
        return many(s, **kw)

    # quotes ---------------------------------------------------------------
    def quote_encoder(self):
        hit = self._hit

        def enc(q):
            hit()
            # the external form is {'t':..., 'b': [...]}
            return (q['t'], q['b'])
        return enc

    def bar_in(self, b, enc):
        return {'t': b[0], 'b': list(b[1])} if enc else (b[0], list(b[1]))

    def ao_model(self, h):
        return Mo.Agg(self, 'sub', [Mo.Sma(self, h, n=5), Mo.Sma(self, h, n=34)])

    # ------------------------------------------------------------ edits
    def plan_edit(self, op):
        """-> (ok, do_model, do_real); do_model() switches the model, returns an undo."""
        n = op['node']
        real, mod = self.nodes[n], self.models[n]
        k = op['op']
        L = self.L
        if isinstance(mod, Mo.Pts):
            v = op.get('v')
            new = mod.edit(k, v)

            def do_real():
                if k == 'append':
                    real.append(tuple(v))
                elif k == 'extend':
                    l = [tuple(p) for p in v]
                    try:
                        real.append_list(l)
                    finally:
                        if op.get('alias'):
                            del l[:]
                elif k == 'replace':
                    real.replace(tuple(v))
                elif k == 'upsert':
                    real.replace(tuple(v), or_append=True)
                elif k == 'reset':
                    if v is None:
                        real.reset()
                    else:
                        real.reset(L.I(v[0], v[1], start_open=v[2], end_open=v[3]))
                elif k == 'set':
                    l = [tuple(p) for p in v]
                    try:
                        real.set(l)
                    finally:
                        if op.get('alias'):
                            l.append((1e9, 0))

            def do_model():
                old = mod.pts
                mod.pts = new
                self.ver += 1

                def undo():
                    mod.pts = old
                    self.ver += 1
                return undo
            return new is not None, do_model, do_real
        if isinstance(mod, Mo.Quo):
            v = op['v']
            enc = mod.real_enc
            bars = [(b[0], list(b[1])) for b in ([v] if k == 'append' else v)]
            P = mod.p
            new = P.edit('set' if k == 'set' or (k != 'set' and not P.pts) else 'extend', bars)

            def do_real():
                if k == 'append':
                    real.append(self.bar_in(bars[0], enc))
                elif k == 'extend':
                    real.append_list([self.bar_in(b, enc) for b in bars])
                else:
                    real.set([self.bar_in(b, enc) for b in bars])

            def do_model():
                old = P.pts
                P.pts = new
                self.ver += 1

                def undo():
                    P.pts = old
                    self.ver += 1
                return undo
            return new is not None, do_model, do_real
        if isinstance(mod, Mo.Const):
            def do_real():
                real.value = op['v']

            def do_model():
                old = mod.v
                mod.v = op['v']
                self.ver += 1

                def undo():
                    mod.v = old
                    self.ver += 1
                return undo
            return True, do_model, do_real
        if isinstance(mod, Mo.Line):
            if op['op'] == 'badline':
                kw = op['kw']
                return False, None, lambda: real.set(**{q: (tuple(z) if isinstance(z, list) else z) for q, z in kw.items()})

            form = op.get('form', 0)
            p, mm = op['p'], op['m']

            def do_real():
                if form == 0:
                    real.set(p1=tuple(p), slope=mm)
                elif form == 1:
                    real.set(p1=tuple(p), p2=(p[0] + 2, p[1] + 2 * mm))
                else:
                    real.set(points=[tuple(p), (p[0] + 4, p[1] + 4 * mm)])

            def do_model():
                old = (mod.p, mod.m)
                mod.p, mod.m = tuple(p), mm
                self.ver += 1

                def undo():
                    mod.p, mod.m = old
                    self.ver += 1
                return undo
            return True, do_model, do_real
        if isinstance(mod, Mo.Sin):
            if op['op'] == 'badsin':
                return False, None, lambda: real.set(**op['kw'])

            def do_real():
                real.set(amplitude=op['a'], period=op['period'], phase=op['phase'])

            def do_model():
                old = (mod.a, mod.period, mod.phase)
                mod.a, mod.period, mod.phase = op['a'], op['period'], op['phase']
                self.ver += 1

                def undo():
                    mod.a, mod.period, mod.phase = old
                    self.ver += 1
                return undo
            return True, do_model, do_real
        if isinstance(mod, Mo.Gen):
            st = self.tmpl[n]
            dom = L.I.infinite()

            def do_real():
                with real.updating(dom):
                    st['k'][:] = op['k']

            def do_model():
                old = list(mod.k)
                mod.k = list(op['k'])
                self.ver += 1

                def undo():
                    mod.k = old
                    self.ver += 1
                return undo
            return True, do_model, do_real
        raise HarnessError('edit of ' + n)

    EDITS = ('append', 'extend', 'replace', 'upsert', 'reset', 'set', 'setc', 'setline', 'setsin', 'setgen', 'badline', 'badsin')

    def probes(self):
        return self.xprobe

    def snapshot(self):
        out = {}
        for n, mod in self.models.items():
            if not self.decided(mod):
                continue
            row = []
            for x in self.xprobe:
                row.append(self.announced(mod, x))
            out[n] = row
        return out

    @staticmethod
    def announced(mod, x):
        """the value at x as far as announcements go: slopes outside of the domain, which there are
        where a map makes up values there, do not count"""
        return mod.y(x) if mod.inside(x) or not Mo.built_of(mod, Mo.Diff) else None

    def decided(self, mod):
        return decided(mod)

    def op_edit(self, op):
        n = op['node']
        if n not in self.nodes:
            return
        ok, do_model, do_real = self.plan_edit(op)
        self.edit_seq += 1
        seq = self.edit_seq
        outer = self.edit_depth == 0
        if outer:
            self.nested = 0
            self.cb_reads = []
            self.mark = len(self.log)
        else:
            self.nested += 1
            self.stat('nested_edits')
        src_real, src_mod = self.nodes[n], self.models[n]
        pre = self.snapshot() if (self.snap_on and outer) else None
        order = {q: list(l) for q, l in self.order.items()} if (outer and self.cfg.get('registry')) else None
        watch = self.watch_old() if (outer and self.cfg.get('watch')) else None
        undo = do_model() if ok else None
        fired0 = self.ob_fired
        self.edit_depth += 1
        err = None
        try:
            do_real()
        except (SimFault, SimHang, Violation, HarnessError) as e:
            err = e
            if not isinstance(e, SimFault):
                raise
        except Exception as e:
            err = e
            if chain_has_fault(e):
                err = SimFault()
        finally:
            self.edit_depth -= 1
        self.log.append(('edit', op['op'], n, 'raise' if err is not None else 'ok'))
        self.stat('edit.' + op['op'] + ('' if ok else '.rejected'))
        if isinstance(err, SimFault):
            self.stat('faulted_edits')
            if not ok:
                raise Violation('edit', 'impossible: fault in rejected edit')
            if self.cfg.get('atomic', True) and outer:
                self.resolve_atomic(n, src_real, src_mod, undo)
        elif err is not None:
            if ok:
                raise Violation('edit-raised', f'valid edit {brief(op)} raised {type(err).__name__}: {err}')
            self.stat('fault.rejected_edit')
        elif not ok:
            raise Violation('edit-accepted', f'invalid edit {brief(op)} was accepted')
        if self.ob_fired > fired0 and err is None:
            raise Violation('fault-swallowed', f'an observer raised during {brief(op)} but the editor saw no error')
        if outer:
            if order is not None:
                self.check_registry(op, order, ok)
            self.after_edit(op, ok and not isinstance(err, SimFault), pre, watch)

    def check_registry(self, op, order, ok):
        """Every notification reaches exactly the observers subscribed throughout, in order."""
        ev = self.log[self.mark:]
        for n, ids in order.items():
            sen = [o for o in (self.obs[i] for i in ids) if o.id.startswith('sen')]
            if not sen:
                continue
            got = [e for e in ev if e[0] == 'n' and e[1] == sen[0].id]
            ks = ''.join(e[2] for e in got)
            if ks not in ('', 'be'):
                raise Violation('registry', f'{n}: one update, but the notifications were "{ks}" for {brief(op)}')
            for j, kind in enumerate('be'):
                iv = got[j][3] if ks else None
                seq = [e for e in ev if e[0] == 'n' and e[2] == kind and self.obs[e[1]].node == n]
                calls = [e[1] for e in seq]
                first = ids if kind == 'b' else self.order_before_end(n, ids, ev)
                sure = [i for i in first if kind in self.obs[i].kinds and self.obs[i].alive is True]
                if not ks:
                    want = []
                else:
                    want = [i for i in sure if self.obs[i].dom is None or meets(iv, self.obs[i].dom)]
                have = [i for i in calls if i in sure]
                self.stat('rounds')
                if have != want:
                    raise Violation('registry', f'{n}: "{kind}" of {iv} called {have}, subscribed throughout were {want}, for {brief(op)}')
                for i in calls:
                    if calls.count(i) > 1:
                        raise Violation('registry', f'{n}: "{kind}" called {i} {calls.count(i)} times for one update')
                    o = self.obs[i]
                    if o.dom is not None and o.alive is not False and not meets(iv, o.dom):
                        raise Violation('registry', f'{n}: {i} restricted to {o.dom} was told "{kind}" of {iv}')
                for e in seq:
                    if self.obs[e[1]].ranged(kind) and e[3] != iv:
                        raise Violation('registry', f'{n}: {e[1]} was told "{kind}" of {e[3]}, others of {iv}')

    def order_before_end(self, n, ids, ev):
        """the observers of n, in order, when updates began to end"""
        out = list(ids)
        for e in ev:
            if e[0] == 'n' and e[2] == 'e':
                break
            if e[0] == 'sub' and self.obs[e[1]].node == n:
                if self.obs[e[1]].prio:
                    out.insert(0, e[1])
                else:
                    out.append(e[1])
            elif e[0] == 'unsub' and e[1] in out:
                out.remove(e[1])
        return out

    def resolve_atomic(self, n, real, mod, undo):
        """The edit failed because an observer did: all or nothing."""
        if isinstance(mod, Mo.Pts):
            try:
                got = [tuple(p) for p in real.sample_points()]
            except SimHang:
                raise
            except Exception as e:
                raise Violation('atomic', f'{n} cannot be read after a failing observer: {type(e).__name__}: {e}')
            if got == list(mod.pts):
                self.stat('atomic.applied')
                return
            new = list(mod.pts)
            undo()
            if got != list(mod.pts):
                raise Violation('atomic', f'edit half applied: {got} is neither {mod.pts} nor {new}')
            self.stat('atomic.undone')
        else:
            xs = [-20, 0, 1, 2, 2.5, 3.25, 4, 7, 9.5, 30]
            d = mod.dom()
            if d is not None and math.isfinite(d[0] + d[1]):
                xs += [d[0] + (d[1] - d[0]) * k / 8 for k in range(9)]
            got = [real.y(x) for x in xs]
            if close(got, [mod.y(x) for x in xs]):
                return
            undo()
            if not close(got, [mod.y(x) for x in xs]):
                raise Violation('atomic', f'edit of {n} half applied')

    # ------------------------------------------------------------ after an edit
    def after_edit(self, op, applied, pre, watch):
        cfg = self.cfg
        if cfg.get('quiet', True):
            for n, r in self.nodes.items():
                if r.is_updating:
                    raise Violation('updating', f'{n} ({self.specs[n]["kind"]}) is still updating after {brief(op)}')
        if cfg.get('pairs'):
            self.check_pairs(op)
        if pre is not None:
            self.check_cover(op, pre)
        if watch is not None:
            self.check_watch(op, watch)

    def round_events(self):
        """events of this edit per observer"""
        ev = {}
        for e in self.log[self.mark:]:
            if e[0] == 'n':
                ev.setdefault(e[1], []).append(e)
        return ev

    def check_pairs(self, op):
        for oid, ev in self.round_events().items():
            o = self.obs.get(oid)
            if o is None or o.kinds != 'be' or o.alive is not True:
                continue
            ks = [e[2] for e in ev]
            if ks[0] != 'b' and not self.nested:
                raise Violation('pairing', f'observer {oid} of {o.node} was told an update ended that never began ({"".join(ks)}) by {brief(op)}')
            if ks[-1] != 'e':
                raise Violation('pairing', f'observer {oid} of {o.node} got {"".join(ks)} for {brief(op)}: the update it was told about never ended')
            if o.ranged('b') and o.ranged('e') and o.dom is None and not self.nested:
                bs = [e[3] for e in ev if e[2] == 'b']
                es = [e[3] for e in ev if e[2] == 'e']
                for k1, k2, p, q in (('end', 'begin', es, bs), ('begin', 'end', bs, es)):
                    for x in cuts(p + q):
                        if any(iv_has(t, x) for t in p) and not iv_has(hull(q), x):
                            raise Violation('pairing', f'observer {oid} of {o.node} ({self.specs[o.node]["kind"]}) was told of the {k1} of an update of {p}, but of the {k2} only for {q} (x={x}) in {brief(op)}')

    def check_cover(self, op, pre):
        if self.nested:
            return
        ev = self.round_events()
        by_node = {}
        for oid, o in self.obs.items():
            by_node.setdefault(o.node, []).append(o)
        for n, row in pre.items():
            if n not in by_node:
                continue
            mod = self.models[n]
            if not self.decided(mod):
                continue
            ch = []
            for x, y0 in zip(self.xprobe, row):
                y1 = self.announced(mod, x)
                if not close(y0, y1, 1e-7):
                    ch.append((x, y0, y1))
            if ch:
                self.stat('changed_curves')
            full = None
            for o in by_node[n]:
                if o.alive is True and o.dom is None and o.ranged('b') and o.ranged('e') and o.kinds == 'be':
                    full = o
            if full is not None:
                fe = [e for e in ev.get(full.id, ())]
                for kind, word in (('e', 'end'), ('b', 'begin')):
                    ivs = [e[3] for e in fe if e[2] == kind]
                    for x, y0, y1 in ch:
                        if not any(iv_has(t, x) for t in ivs):
                            raise Violation('coverage', f'{n} ({self.specs[n]["kind"]}) changed at x={x} from {y0} to {y1} but the {word} ranges announced were {ivs} for {brief(op)}')
                # restricted observers see exactly the announced ranges that meet their part
                for o in by_node[n]:
                    if o.alive is True and o.dom is not None and o.ranged('b') and o.ranged('e') and o.kinds == 'be' and o is not full:
                        want = [(e[2], e[3]) for e in fe if meets(e[3], o.dom)]
                        got = [(e[2], e[3]) for e in ev.get(o.id, ())]
                        self.stat('restricted_rounds')
                        if want != got:
                            raise Violation('filter', f'observer {o.id} of {n} restricted to {o.dom} got {got}, announced were {[(e[2], e[3]) for e in fe]}')

    def watch_old(self):
        """model answers at the positions scripted callbacks will read, before the edit"""
        out = {}
        for o in self.obs.values():
            for s in o.scripts.values():
                for act in s:
                    if act[0] == 'read' and act[1] in self.models and decided(self.models[act[1]]):
                        out[(act[1], act[2])] = self.models[act[1]].y(act[2])
        return out

    def check_watch(self, op, old):
        if self.nested:
            return
        src = op['node']
        last = {}
        for (seq, oid, kind, n, x, val) in self.cb_reads:
            if (n, x) not in old or n not in self.models or not decided(self.models[n]):
                continue
            o = self.obs.get(oid)
            if kind == 'b' and n == src:
                if not close(val, old[(n, x)], self.cfgtol):
                    raise Violation('begin-old', f'a begin notice arrived when {n} already answered {val} at {x} (before the edit: {old[(n, x)]}) in {brief(op)}')
            if kind == 'e' and o is not None and o.node == n:
                last[(oid, n, x)] = (seq, val)
        lastend = {}
        for j, e in enumerate(self.log[self.mark:]):
            if e[0] == 'n' and e[2] == 'e':
                lastend[e[1]] = j
        for (oid, n, x), (seq, val) in last.items():
            y1 = self.models[n].y(x)
            if seq == lastend.get(oid) and not close(val, y1, self.cfgtol):
                raise Violation('end-new', f'at the last end notice {n} answered {val} at {x}, the new data gives {y1} in {brief(op)}')

    # ------------------------------------------------------------ observers
    def op_obs(self, op):
        n = op['node']
        if n not in self.nodes or op['id'] in self.obs:
            return
        self.subscribe(op)

    def subscribe(self, op):
        L = self.L
        n = op['node']
        o = Obs()
        o.id, o.node = op['id'], n
        o.dom = tuple(op['dom']) if op.get('dom') else None
        o.scripts = {k: [list(a) for a in v] for k, v in op.get('scripts', {}).items()}
        o.budget = op.get('budget', 3)
        o.args = op.get('args', 1)
        o.kinds = op.get('kinds', 'be')
        o.prio = op.get('prio', False)
        o.auto = op.get('auto', False)
        o.alive = True
        o.holder = op.get('holder')
        args = ()
        if o.holder:
            h = self.holders.get(o.holder)
            if h is None:
                h = self.holders[o.holder] = Tick()
            args = (h,)
            del h

        def mk(kind):
            wself = self
            n_args = o.n_args(kind)
            if n_args == 1:
                def cb(d):
                    wself.on_event(o, kind, iv_tuple(d))
            elif n_args == 2:        # a method taking the range
                class Sub:
                    def cb(self, d):
                        wself.on_event(o, kind, iv_tuple(d))
                cb = Sub().cb
            elif n_args == 3:        # keyword-only extras do not count
                def cb(d, *, extra=None):
                    wself.on_event(o, kind, iv_tuple(d))
            elif n_args == -1:       # a method taking nothing
                class Sub:
                    def cb(self):
                        wself.on_event(o, kind, None)
                cb = Sub().cb
            else:
                def cb():
                    wself.on_event(o, kind, None)
            return cb
        kw = {}
        if 'b' in o.kinds:
            kw['begin'] = mk('b')
        if 'e' in o.kinds:
            kw['end'] = mk('e')
        if o.dom:
            kw['domain'] = L.I(*o.dom)
        if o.auto and args:
            kw['autoremove'] = True
        if o.prio:
            kw['prioritize'] = True
        self.obs[o.id] = o
        o.token = self.nodes[n].add_observer(*args, **kw)
        reg = self.order.setdefault(n, [])
        if o.prio:
            reg.insert(0, o.id)
        else:
            reg.append(o.id)
        self.log.append(('sub', o.id))
        self.stat('observers')

    def on_event(self, o, kind, iv):
        self.steps += 1
        self.log.append(('n', o.id, kind, iv))
        if self.cfg.get('silent') and self.edit_depth == 0:
            raise_later(self, Violation('read-notified', f'observer {o.id} of {o.node} ({self.specs[o.node]["kind"]}) was notified of {iv} although nothing was edited'))
        if o.alive is False:
            raise_later(self, Violation('called-after-removal', f'observer {o.id} of {o.node} was called after it was removed'))
        s = o.scripts.get(kind)
        if not s or o.budget <= 0:
            return
        o.budget -= 1
        for act in s:
            self.act(o, kind, act)

    def act(self, o, kind, act):
        a = act[0]
        if a == 'read':
            if act[1] in self.nodes:
                v = self.nodes[act[1]].y(act[2])
                self.stat('reads_in_callbacks')
                self.cb_reads.append((len(self.log) - 1 - self.mark, o.id, kind, act[1], act[2], v))
        elif a == 'dom':
            if act[1] in self.nodes:
                self.nodes[act[1]].domain
                self.stat('reads_in_callbacks')
        elif a == 'edit':
            e = self.relative(act[1])
            if e is not None and self.nodes[e['node']].is_updating:
                # an update of a source which is under way is never edited into
                self.stat('nested_edits_skipped')
                e = None
            if e is not None:
                try:
                    self.op_edit(e)
                except Violation as v:
                    raise_later(self, v)
                    raise
        elif a == 'raise':
            self.ob_fired += 1
            self.stat('fault.observer.' + kind)
            raise SimFault('observer')
        elif a == 'unobs':
            self.op_unobs({'id': act[1]})
            self.stat('unobs_in_callback')
        elif a == 'obs':
            op = act[1]
            if op['id'] not in self.obs and op['node'] in self.nodes:
                self.subscribe(op)
                self.stat('obs_in_callback')
        elif a == 'gc':
            gc.collect()
        elif a == 'release':
            self.op_release({'holder': act[1]})
            self.stat('release_in_callback')
        elif a == 'unobsobj':
            self.op_unobsobj({'holder': act[1], 'node': act[2]})
            self.stat('unobs_in_callback')

    def relative(self, e):
        """edits scripted in callbacks are relative to the data at that moment"""
        n = e['node']
        if n not in self.nodes:
            return None
        mod = self.models[n]
        if isinstance(mod, Mo.Pts):
            P = mod.pts
            if e['rel'] == 'append':
                if not P:
                    return {'op': 'append', 'node': n, 'v': [0, e['y']]}
                h = P[-1][0] - P[-2][0] if len(P) > 1 else 1
                return {'op': 'append', 'node': n, 'v': [P[-1][0] + h, e['y']]}
            if not P:
                return None
            return {'op': 'replace', 'node': n, 'v': [P[e['i'] % len(P)][0], e['y']]}
        if isinstance(mod, Mo.Const):
            return {'op': 'setc', 'node': n, 'v': e['y']}
        return None

    def op_unobs(self, op):
        o = self.obs.get(op['id'])
        if o is None or o.alive is not True:
            return
        if o.node not in self.nodes:
            return
        self.nodes[o.node].remove_observer(o.token)
        self.gone(o)

    def op_unobsobj(self, op):
        h = self.holders.get(op['holder'])
        if h is None or op['node'] not in self.nodes:
            return
        self.nodes[op['node']].remove_observer(h)
        for o in self.obs.values():
            if o.node == op['node'] and o.alive is True:
                if o.holder == op['holder']:
                    self.gone(o)
                elif o.holder == 'gone':
                    # tied to an object which is gone without automatic removal: either is fine
                    o.alive = 'unknown'

    def gone(self, o):
        o.alive = False
        if o.id in self.order.get(o.node, ()):
            self.order[o.node].remove(o.id)
        self.log.append(('unsub', o.id))

    def op_release(self, op):
        """the subscriber object is let go of"""
        h = self.holders.pop(op['holder'], None)
        if h is None:
            return
        r = weakref.ref(h)
        del h
        gc.collect()
        if r() is not None:
            return
        self.stat('fault.subscriber_collected')
        for o in self.obs.values():
            if o.holder == op['holder']:
                o.holder = 'gone'
                if o.auto and o.alive is True:
                    self.gone(o)

    # ------------------------------------------------------------ descriptors
    def op_parse(self, op):
        """Parse a descriptor into curve `id` (and, parsing the same object again, into `again`)."""
        from . import descr
        ast = op['ast']
        if any(j not in self.nodes for j in descr.refs(ast)):
            return
        d = descr.render(ast, self.nodes)
        before = descr.freeze(d, self.nodes)
        for i in [op['id']] + ([op['again']] if op.get('again') else []):
            try:
                if op.get('via') == 'parse':
                    real = self.L.Curve.parse(d)
                elif op.get('via') == 'member':
                    real = self.L.Curve.parse_descriptor({'price': d})['price']
                else:
                    real = self.L.Curve.parse_descriptor(d)
            except (SimHang, SimFault):
                raise
            except Exception as e:
                raise Violation('parse-raised', f'{d} was refused: {type(e).__name__}: {e}')
            if not isinstance(real, self.L.Curve):
                raise Violation('parse', f'{d} gave {real!r}, which is no curve')
            if descr.freeze(d, self.nodes) != before:
                raise Violation('parse-mutated', f'parsing changed its descriptor to {d}')
            self.nodes[i] = real
            self.models[i] = descr.to_model(self, ast)
            self.specs[i] = dict(op, kind='descriptor')
            self.uses[i] = sorted(descr.refs(ast))
            self.stat('parsed')

    def op_badparse(self, op):
        from . import descr
        import copy
        d = copy.deepcopy(descr.BAD[op['i']])
        before = descr.freeze(d, self.nodes)
        try:
            r = self.L.Curve.parse_descriptor(d)
        except SimHang:
            raise
        except Exception:
            self.stat('fault.failed_parse')
        else:
            raise Violation('parse-accepted', f'{d} was accepted as {r!r}')
        if descr.freeze(d, self.nodes) != before:
            raise Violation('parse-mutated', f'a failed parse changed its descriptor to {d}')

    # ------------------------------------------------------------ trends
    def op_trendread(self, op):
        """reads of a trend anywhere; what is answered obeys the trend's own parameters"""
        t, m = self.nodes.get(op['node']), self.models.get(op['node'])
        if t is None:
            return
        x, k = op['x'], op['k']
        self.stat('poke.trend')
        if k == 'lines':
            ls = [(l, None) for l in t.lines]
        elif k == 'y':
            ls = [(l, None) for l in t.y(x) or []]
        else:
            ls = [(l, k == 'upper') for l in (t.upper(x) if k == 'upper' else t.lower(x))]
        self.log.append(('a', op['node'], k, [trend_line(l) for l, _ in ls]))
        data = set(m.src.pts)
        a = m.a
        for l, up in ls:
            self.stat('checks')
            what = f'{op["node"]}.{k}({x}): a line through {l.trend_points}'
            if up is not None and l.is_upper_trend is not up:
                raise Violation('trend-side', f'{what} is on the wrong side')
            stale = [p for p in l.trend_points if (p[0], p[1]) not in data]
            if stale:
                raise Violation('trend-stale', f'{what} uses {stale}, which are no longer samples')
            if len(l.trend_points) < a['min_points']:
                raise Violation('trend-points', f'{what} has fewer than {a["min_points"]} points')
            if l.trend_points[-1][0] - l.trend_points[0][0] < a['min_width'] or sorted(l.trend_points) != list(l.trend_points):
                raise Violation('trend-width', f'{what} is narrower than {a["min_width"]} or out of order')
            far = 1 + sum(1 for p, q in zip(l.trend_points, l.trend_points[1:]) if q[0] - p[0] >= a.get('min_point_distance', 0))
            if far < a['min_points']:
                raise Violation('trend-distance', f'{what} has fewer than {a["min_points"]} points {a["min_point_distance"]} apart')
            if x is not None and k != 'lines' and not l.search_interval.contains(x):
                raise Violation('trend-range', f'{what} was found at {x} outside of {l.search_interval}')

    def op_trendchk(self, op):
        """everything found so far, read to the end, against a trend curve built afresh"""
        n = op['node']
        t, m = self.nodes.get(n), self.models.get(n)
        if t is None or not m.src.pts:
            return
        src = m.src
        fresh = self.L.Trend(self.L.Points([tuple(p) for p in src.pts], interpolation=src.interp or None, uniform=src.uniform), **m.a)
        last = src.pts[-1][0]
        self.stat('fresh_compares')
        got = [trend_line(l) for l in t.upper(last)], [trend_line(l) for l in t.lower(last)], [trend_line(l) for l in t.lines]
        want = [trend_line(l) for l in fresh.upper(last)], [trend_line(l) for l in fresh.lower(last)], [trend_line(l) for l in fresh.lines]
        self.stat('trend_lines', len(want[2]))
        self.log.append(('a', n, 'trend', got))
        for name, g, w in zip(('upper', 'lower', 'lines'), got, want):
            if not close(g, w, 1e-6):
                raise Violation('trend-fresh', f'{n}: {name} at {last} gives {fmt(g)}; built afresh on the same samples {fmt(w)}')
        for x in op['xs']:
            for k in ('upper', 'lower'):
                g, w = [[trend_line(l) for l in getattr(q, k)(x)] for q in (t, fresh)]
                if not close(g, w, 1e-6):
                    raise Violation('trend-fresh', f'{n}: {k}({x}) gives {fmt(g)}; built afresh on the same samples {fmt(w)}')

    # ------------------------------------------------------------ misc ops
    def op_drop(self, op):
        n = op['node']
        if n not in self.nodes or any(n in u for u in self.uses.values()):
            return
        if not self.uses.get(n):
            return
        for o in list(self.obs.values()):
            if o.node == n:
                o.alive = 'dropped'
                o.scripts = {}
                del self.obs[o.id]
        del self.nodes[n], self.models[n], self.specs[n], self.uses[n]
        self.stat('fault.dropped_curve')

    def op_gc(self, op):
        gc.collect()
        self.stat('fault.collection')

    def op_tz(self, op):
        if self.tz0 is None:
            self.tz0 = [os.environ.get('TZ')]
        os.environ['TZ'] = op['tz']
        time.tzset()
        self.stat('fault.time_zone')

    def op_arm(self, op):
        self.uf_arm = op['n']

    def op_poke(self, op):
        """A read whose answer nobody looks at (it may fill caches)."""
        n = op['node']
        if n not in self.nodes:
            return
        c = self.nodes[n]
        k = op['k']
        self.stat('poke.' + k)
        try:
            if k == 'y':
                c.y(op['x'])
            elif k == 'dom':
                c.domain
            elif k == 'dy':
                c.d_y(op['x'], forward=op.get('f', False))
            elif k == 'nx':
                c.x_next(op['x'])
            elif k == 'px':
                c.x_previous(op['x'])
            elif k == 'sp':
                c.sample_points(domain=self.interval(op['r'])) if op.get('r') else c.sample_points()
            elif k == 'ends':
                c.first_point()
                c.last_point()
                c.y_start()
                c.y_end()
            elif k == 'repr':
                repr(c)
        except SimFault:
            pass
        self.uf_arm = None if op.get('disarm', True) else self.uf_arm

    def op_chk(self, op):
        n = op['node']
        if n not in self.nodes:
            return
        c, m = self.nodes[n], self.models[n]
        if not decided(m):
            self.stat('undecided')
            return
        for it in op['it']:
            self.check_item(n, c, m, it)

    def check_item(self, n, c, m, it):
        self.stat('checks')
        k = it[0]
        what = f'{n} ({self.specs[n]["kind"]})'
        fired = self.uf_fired
        try:
            got, want, desc = self.eval_item(c, m, it)
        except (SimHang, Violation, HarnessError):
            raise
        except RecursionError as e:
            raise Violation('read-raised', f'{what} {it}: RecursionError')
        except Exception as e:
            if isinstance(e, SimFault) or chain_has_fault(e):
                if self.uf_fired > fired or isinstance(e, SimFault):
                    self.stat('reads_failed_by_fault')
                    return
            if isinstance(e, OverflowError) and (k in ('y', 'call') and overflows(m, it[1]) or k == 'dom' and overflows(m)):
                self.stat('overflows')
                return
            raise Violation('read-raised', f'{what} {it} raised {type(e).__name__}: {e}')
        if self.uf_fired > fired:
            raise Violation('fault-swallowed', f'{what} {it}: a user function failed but the read answered {got}')
        self.log.append(('a', n, k, got))
        if not close(got, want, self.cfgtol) and not (k in ('y', 'call', 'dy') and cancelled(m, it[1], got, want, k == 'dy')):
            raise Violation({'y': 'value', 'dom': 'domain', 'nx': 'step', 'px': 'step', 'nxm': 'step', 'pxm': 'step', 'wf': 'walk', 'wb': 'walk',
                             'sp': 'samples', 'sfx': 'samples', 'dy': 'slope', 'ends': 'ends'}.get(k, k),
                            f'{what}: {desc} is {fmt(got)}, expected {fmt(want)}')

    def interval(self, r):
        if len(r) > 4:
            return {'list': [r[0], r[1]], 'tuple': (r[0], r[1]), 'num': r[0]}[r[4]]
        return self.L.I(r[0], r[1], start_open=r[2], end_open=r[3])

    def spaced(self, m, it):
        """range, keywords and samples of an item over samples"""
        r, by = it[1], it[2:]
        if not by:
            return r, {}, m.samples(r) if m.samp else m.walked(r)
        how, h = by[0]
        return r, {how: h}, m.stepped(r, h) if how == 'step' else m.spaced_samples(r, h)

    def eval_item(self, c, m, it):
        k = it[0]
        if k == 'y':
            return c.y(it[1]), m.y(it[1]), f'y({it[1]})'
        if k == 'call':
            return c(it[1]), m.y(it[1]), f'({it[1]})'
        if k == 'dom':
            d = c.domain
            got = None if d.is_empty else [d.start, d.end, bool(d.start_open), bool(d.end_open)]
            w = m.dom()
            o = m.opens()
            want = None if w is None else [w[0], w[1], o[0] or w[0] == -INF and w[0] != w[1], o[1] or w[1] == INF and w[0] != w[1]]
            return got, want, 'domain [start, end, start_open, end_open]'
        if k == 'nx':
            return c.x_next(it[1]), m.nxt(it[1]), f'x_next({it[1]})'
        if k == 'px':
            return c.x_previous(it[1]), m.prv(it[1]), f'x_previous({it[1]})'
        if k in ('nxm', 'pxm'):
            f, g = (c.x_next, m.nxt) if k == 'nxm' else (c.x_previous, m.prv)
            return f(it[1], min_step=it[2]), g(it[1], it[2]), f'{"x_next" if k == "nxm" else "x_previous"}({it[1]}, min_step={it[2]})'
        if k == 'npt':
            x1 = m.nxt(it[1])
            return c.next_point(it[1]), None if x1 is None else (x1, m.y(x1)), f'next_point({it[1]})'
        if k == 'ppt':
            x1 = m.prv(it[1])
            return c.previous_point(it[1]), None if x1 is None else (x1, m.y(x1)), f'previous_point({it[1]})'
        if k == 'dy':
            return c.d_y(it[1], forward=it[2]), m.dy(it[1], it[2]), f'd_y({it[1]}, forward={it[2]})'
        if k in ('wf', 'wb'):
            g = m.grid()
            d = c.domain
            out = []
            if not d.is_empty:
                x = d.start if k == 'wf' else d.end
                while x is not None and len(out) <= len(g) + 3:
                    out.append(x)
                    x = c.x_next(x) if k == 'wf' else c.x_previous(x)
            if m.leaf:
                g, out = [x for x in g if m.inside(x)], [x for x in out if m.inside(x)]
            w = list(g) if k == 'wf' else list(reversed(g))
            return out, w, 'the walk ' + ('forward' if k == 'wf' else 'backward')
        if k == 'sp':
            r = it[1]
            got = c.sample_points() if r is None else c.sample_points(domain=self.interval(r))
            return scribbled([tuple(p) for p in got], got), m.samples(r) if m.samp else m.walked(r), f'sample_points({r})'
        if k == 'sfx':
            x, lim, back, op = it[1:5]
            h = it[5] if len(it) > 5 else None
            got = c.sample_points_from_x(x, lim, backward=back, open=op, **({'min_step': h} if h else {}))
            want, x1 = [], x
            if lim < 0:
                lim, back = -lim, not back
            n, h = lim, h or Mo.EPS
            if not op:
                if m.y(x) is None:
                    return scribbled([tuple(p) for p in got], got), [], f'sample_points_from_x{tuple(it[1:])}'
                want.append((x, m.y(x)))
                n -= 1
            while n > 0:
                x1 = m.prv(x1, h) if back else m.nxt(x1, h)
                if x1 is None or not m.inside(x1) or m.y(x1) is None:
                    break
                want.append((x1, m.y(x1)))
                n -= 1
            return scribbled([tuple(p) for p in got], got), want, f'sample_points_from_x{tuple(it[1:])}'
        if k == 'spstep':
            r, h = it[1:]
            got = c.sample_points(step=h) if r is None else c.sample_points(domain=self.interval(r), step=h)
            return scribbled([tuple(p) for p in got], got), m.stepped(r, h), f'sample_points({r}, step={h})'
        if k == 'spmin':
            r, h = it[1:]
            got = c.sample_points(min_step=h) if r is None else c.sample_points(domain=self.interval(r), min_step=h)
            return scribbled([tuple(p) for p in got], got), m.spaced_samples(r, h), f'sample_points({r}, min_step={h})'
        if k == 'rng':
            r, kw, ps = self.spaced(m, it)
            got = c.get_range(**kw) if r is None else c.get_range(domain=self.interval(r), **kw)
            ys = [p[1] for p in ps if p[1] is not None]
            return None if got.is_empty else [got.start, got.end, bool(got.start_open), bool(got.end_open)], [min(ys), max(ys), False, False] if ys else None, f'get_range({r}, {kw})'
        if k == 'reg':
            r, kw, ps = self.spaced(m, it)
            got = c.regression(**kw) if r is None else c.regression(domain=self.interval(r), **kw)
            want = Mo.fitted(ps)
            desc = f'regression({r}, {kw}) [slope, value at the first and last sample]'
            if want is None or got is None:
                return None if got is None else [got.slope], want, desc
            x0, x1 = ps[0][0], ps[-1][0]
            return [got.slope, got.y(x0), got.y(x1)], [want[0], want[1], want[1] + want[0] * (x1 - x0)], desc
        if k in ('mini', 'maxi'):
            x, h = it[1], it[2] if len(it) > 2 else None
            f = c.minimise if k == 'mini' else c.maximise
            got = f(x, step=h) if h else f(x)
            want = m.search(x, 1 if k == 'mini' else -1, h)
            if not isinstance(m, Mo.Pts) and (h or x not in m.grid()):
                want = [Mo.ANY]     # between samples a curve need not be monotone
            if Mo.ANY in want or any(w == got for w in want):
                want = [got]
            return got, want[0], f'{"minimise" if k == "mini" else "maximise"}({x}{", step=%s" % h if h else ""})'
        if k == 'lx':
            return c.x(it[1]), m.p[0] + (it[1] - m.p[1]) / m.m if m.m else 0, f'x({it[1]})'
        if k == 'ends':
            d = m.dom()
            fin = d is not None and not math.isinf(d[0]) and not math.isinf(d[1])
            if d is None:
                return [c.first_point(), c.last_point()], [None, None], 'first/last point'
            if not fin:
                return 0, 0, ''
            return ([c.first_point(), c.last_point(), c.y_start(), c.y_end()],
                    [(d[0], m.y(d[0])), (d[1], m.y(d[1])), m.y(d[0]), m.y(d[1])], 'first point, last point, y_start, y_end')
        if k == 'qsample':
            r = it[1]
            D = m.D
            got = c.sample() if r is None else c.sample(domain=self.interval(r))
            want = [p[1] for p in m.samples(r)]
            return scribbled([list(q) for q in got], got), want, f'sample({r})'
        if k == 'qrange':
            r = it[1]
            got = c.get_range() if r is None else c.get_range(domain=self.interval(r))
            ps = m.samples(r)
            want = None if not ps else [min(p[1][2] for p in ps), max(p[1][1] for p in ps)]
            return None if got.is_empty else [got.start, got.end], want, f'get_range({r})'
        if k == 'qlast':
            d = m.dom()
            return ([c.first_quote(), c.last_quote()] if d else 0,
                    [m.y(d[0]), m.y(d[1])] if d else 0, 'first/last quote')
        raise HarnessError('item ' + k)

    def op_fresh(self, op):
        """Compare every curve with the same graph built afresh from the current data."""
        salt, count = self.L.salt, self.L.count
        sub = World(dict(self.cfg, salt=op.get('salt', 0)))
        try:
            skip = set()
            for n, spec in self.specs.items():
                spec = dict(spec)
                m = self.models[n]
                a = dict(spec.get('a', {}))
                if isinstance(m, Mo.Pts):
                    a['pts'] = [list(p) for p in m.pts]
                elif isinstance(m, Mo.Quo):
                    a['bars'] = [list(p) for p in m.p.pts]
                elif isinstance(m, Mo.Const):
                    a['v'] = m.v
                elif isinstance(m, Mo.Line):
                    a['p'], a['m'] = list(m.p), m.m
                elif isinstance(m, Mo.Sin):
                    a.update(a=m.a, period=m.period, phase=m.phase)
                elif isinstance(m, Mo.Gen):
                    a['k'] = list(m.k)
                spec['a'] = a
                if any(j in skip for j in spec.get('src', ())):
                    skip.add(n)
                    continue
                sub.op_new(spec)
            for n, xs in op['reads']:
                if n not in self.nodes or n in skip or n not in sub.nodes:
                    continue
                for x in xs:
                    self.stat('fresh_compares')
                    a, b = outcome(self.nodes[n], x), outcome(sub.nodes[n], x)
                    if a[0] != b[0] or not close(a[1], b[1], max(self.cfgtol, 1e-8)):
                        raise Violation('fresh', f'{n} ({self.specs[n]["kind"]}) answers {fmt(a[1])} at {x}; built afresh on the same data it answers {fmt(b[1])}')
        finally:
            sub.close()
            self.L.salt = salt
            self.L.count = count + sub.L.count

    # ------------------------------------------------------------ driver
    def run_op(self, op):
        self.steps += 1
        k = op['op']
        for j in op.get('src', ()):
            if j not in self.nodes:
                return False
        if k in self.EDITS and op['node'] not in self.nodes:
            return False
        try:
            if k in self.EDITS:
                self.op_edit(op)
            else:
                getattr(self, 'op_' + k)(op)
        except (Violation, HarnessError, SimHang):
            raise
        except Exception as e:
            if in_model(e):
                raise
            raise Violation('raised', f'{brief(op)} {op.get("kind", "")} raised {type(e).__name__}: {e}')
        p = self.__dict__.pop('_pending', None)
        if p is not None:
            raise p
        return True

    def final_check(self, items):
        """items: list of (node, [item...])"""
        for n, its in items:
            if n in self.nodes:
                self.op_chk({'node': n, 'it': its})


def outcome(c, x):
    try:
        if x == 'dom':
            d = c.domain
            return 'ok', None if d.is_empty else [d.start, d.end]
        return 'ok', c.y(x)
    except SimHang:
        raise
    except Exception as e:
        return 'raised', type(e).__name__


def trend_line(l):
    pt = lambda p: None if p is None else [float(p[0]), float(p[1])]
    pts = lambda ps: None if ps is None else [pt(p) for p in ps]
    return [bool(l.is_upper_trend), pts(l), pts(l.trend_points), pts(l.intersections), pts(l.tangent_points), pts(l.extremas),
            [l.search_interval.start, l.search_interval.end], l.prediction_phase, bool(l.prediction_failed), bool(l.prediction_succeeded),
            bool(l.prediction_valid), l.prediction_y, l.prediction_x_max, pt(l.prediction_extrema), pts(l.prediction_line)]


def overflows(m, x=None):
    """does the meaning of the curve itself leave the range of numbers there?"""
    try:
        y = m.y(x) if x is not None else m.dom() and None
    except OverflowError:
        return True
    return isinstance(y, (int, float)) and abs(y) > 1e290


def raise_later(w, v):
    """An exception raised inside a callback would be taken for an injected fault by the
    library under test: remember it and raise it from the driver."""
    if '_pending' not in w.__dict__:
        w._pending = v


def decided(m):
    try:
        if isinstance(m, Mo.TrendStub) or not m.defined():
            return False
    except OverflowError:
        return False        # what it is made of is no number
    return all(decided(s) for s in m.srcs)


def in_model(e):
    """Did the reference model (or the generator) itself fail?  Anything else is the code under
    test raising, or answering something that cannot even be read as an answer."""
    if isinstance(e, (MemoryError, RecursionError)):
        return False
    tb, name = e.__traceback__, ''
    while tb is not None:
        name = tb.tb_frame.f_globals.get('__name__', '')
        if name.split('.')[0] == 'curvepy':
            return False
        tb = tb.tb_next
    return isinstance(e, KeyError) or name.rsplit('.', 1)[-1] in ('model', 'gen', 'special', 'run1')


def chain_has_fault(e):
    seen = 0
    while e is not None and seen < 20:
        if isinstance(e, SimFault):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def meets(t, dom):
    """announced range against an observer's closed part (positions off the lattice)"""
    if t is None:
        return True
    return t[0] <= dom[1] and t[1] >= dom[0]


def fmt(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + '...'


def brief(op):
    return {k: v for k, v in op.items() if k in ('op', 'node', 'v', 'p', 'm', 'k', 'a', 'kw')}
