"""Reference simulator: a deliberately plain re-statement of the documented semantics.

Written from the documentation and module docstrings, in scalar Python, with no pymgrid import.
"""


class RBattery:
    controllable = True

    def __init__(self, s):
        self.s = s
        self.charge = s['charge'] if s.get('charge') is not None else s['soc'] * s['max']

    def limits(self):
        """(most it can deliver to the microgrid, most it can take from it) in this step."""
        s = self.s
        out = min(s['md'], self.charge - s['min']) * s['eff']
        inn = min(s['mc'], s['max'] - self.charge) / s['eff']
        return out, inn

    def step(self, a, t):
        s = self.s
        out, inn = self.limits()
        if a >= 0:
            p = min(a, out)
            delta = -p / s['eff']
            r = dict(provided=p)
        else:
            c = min(-a, inn)
            delta = c * s['eff']
            r = dict(absorbed=c)
        self.charge += delta
        r['reward'] = -abs(delta) * s.get('cost', 0.0)
        return r

    def state(self, t):
        return dict(soc=self.charge / self.s['max'], current_charge=self.charge)

    def bounds(self):
        s = self.s
        return [(s['min'] / s['max'], 1.0), (s['min'], s['max'])]


class RGenset:
    controllable = True

    def __init__(self, s):
        self.s = s
        self.init()

    def init(self):
        self.cur = self.goal = int(self.s.get('on', True))
        self._settle()

    def _settle(self):
        self.up = 0 if self.cur else self.s.get('su', 0)
        self.down = self.s.get('wd', 0) if self.cur else 0

    def next_cur(self, g):
        c = RGenset.__new__(RGenset)
        c.s, c.cur, c.goal, c.up, c.down = self.s, self.cur, self.goal, self.up, self.down
        c.request(g)
        return c.cur

    def request(self, g):
        """One status request. A change takes `su` (`wd`) further steps, then happens with the next request."""
        s = self.s
        delay = s.get('su', 0) if g else s.get('wd', 0)
        if self.cur == self.goal:                 # settled
            if g == self.cur:
                return
            if delay == 0:
                self.cur = self.goal = g
                self._settle()
                return
            self.goal = g
            if g:
                self.up = delay - 1
            else:
                self.down = delay - 1
            return
        # a change is in progress
        if g != self.goal and (s.get('abort', True) or delay == 0):
            self.goal = self.cur                  # aborted
            self._settle()
            return
        left = self.up if self.goal else self.down
        if left == 0:
            self.cur = self.goal
            self._settle()
        elif self.goal:
            self.up -= 1
        else:
            self.down -= 1

    def step(self, a, t):
        g, e = a
        self.request(int(round(float(g))))
        s = self.s
        lo, hi = self.cur * s['min'], self.cur * s['max']
        p = min(max(e, lo), hi)
        c = s['cost']
        fuel = c[1] * p + c[2] * p * p + sum(c[3:]) if isinstance(c, (list, tuple)) else c * p
        co2 = s.get('co2', 0.0) * p
        return dict(provided=p, co2_production=co2, reward=-(fuel + s.get('cco2', 0.0) * co2))

    def state(self, t):
        return dict(current_status=self.cur, goal_status=self.goal, steps_until_up=self.up,
                    steps_until_down=self.down)

    def bounds(self):
        return [(0, 1), (0, 1), (0, self.s.get('su', 0)), (0, self.s.get('wd', 0))]


class RSeries:
    """Shared time-series bookkeeping; rows are lists, load rows are negative."""
    comps = ()

    def rows(self):
        return self._cached()[1]

    def comp_bounds(self):
        return self._cached()[2]

    def _cached(self):
        c = self.__dict__.get('_c')
        if c is None or c[0] is not self.s['ts']:
            rows = self._rows()
            c = self._c = (self.s['ts'], rows, self._bounds(rows))
        return c

    def n(self):
        return len(self.s['ts'])

    def horizon(self):
        return self.s.get('h', 23 if self.s.get('bare') else 3) if self.s.get('fc') is not None else 0

    def bounds(self):
        return self.comp_bounds() * (1 + self.horizon())

    def state(self, t):
        """Current row, then the oracle forecast; past the end of the data, the midpoint of the bounds."""
        rows = self.rows()
        mid = [(lo + hi) / 2 for lo, hi in self.comp_bounds()]
        d = {}
        cur = rows[t] if t < len(rows) else mid
        for c, v in zip(self.comps, cur):
            d[f'{c}_current'] = v
        for j in range(self.horizon()):
            row = rows[t + 1 + j] if t + 1 + j < len(rows) else mid
            for c, v in zip(self.comps, row):
                d[f'{c}_forecast_{j}'] = v
        return d


class RLoad(RSeries):
    comps = ('load',)

    def __init__(self, s):
        self.s = s

    def _rows(self):
        return [[-abs(x)] for x in self.s['ts']]

    def _bounds(self, rows):
        v = [r[0] for r in rows]
        lo, hi = min(v), max(v)
        return [(lo, 0 if hi < 0 else hi)]

    def step(self, a, t):
        return dict(absorbed=abs(self.s['ts'][t]), reward=0.0)


class RPV(RSeries):
    comps = ('renewable',)

    def __init__(self, s):
        self.s = s

    def _rows(self):
        return [[abs(x)] for x in self.s['ts']]

    def _bounds(self, rows):
        v = [r[0] for r in rows]
        lo, hi = min(v), max(v)
        return [(0 if lo > 0 else lo, hi)]

    def limits_at(self, t):
        return abs(self.s['ts'][t]), 0.0

    def step(self, a, t):
        avail = abs(self.s['ts'][t])
        p = min(max(a, 0.0), avail)
        return dict(provided=p, curtailment=avail - p, reward=0.0)


class RGrid(RSeries):
    comps = ('import_price', 'export_price', 'co2_per_kwh', 'grid_status')

    def __init__(self, s):
        self.s = s

    def _rows(self):
        return [list(r) + [1.0] * (4 - len(r)) for r in self.s['ts']]

    def _bounds(self, rows):
        return [(min(c), max(c)) for c in zip(*rows)]

    def limits_at(self, t):
        up = self.rows()[t][3]
        return self.s['imp'] * up, self.s['exp'] * up

    def step(self, a, t):
        imp, exp, co2, up = self.rows()[t]
        mi, me = self.limits_at(t)
        if a >= 0:
            e = min(a, mi)
            return dict(provided=e, co2_production=co2 * e,
                        reward=-imp * e - self.s.get('cco2', 0.0) * co2 * e)
        e = min(-a, me)
        return dict(absorbed=e, co2_production=0.0, reward=exp * e)


class RUnb:
    def __init__(self, s):
        self.s = s

    def limits_at(self, t):
        return float('inf'), float('inf')

    def step(self, a, t):
        if a >= 0:
            return dict(provided=a, reward=-self.s.get('llc', 10.0) * a)
        return dict(absorbed=-a, reward=-self.s.get('ogc', 2.0) * -a)

    def state(self, t):
        return {}

    def bounds(self):
        return []


KIND = dict(load=RLoad, pv=RPV, battery=RBattery, genset=RGenset, grid=RGrid, unb=RUnb)
NAMES = dict(load='load', pv='renewable', battery='battery', genset='genset', grid='grid', unb='balancing')


def _group(items):
    """Keep insertion order, but modules sharing a name are adjacent (at the first one's place)."""
    d = {}
    for key, m in items:
        d.setdefault(key[0], []).append((key, m))
    return [x for v in d.values() for x in v]


class Ref:
    def __init__(self, spec):
        self.spec = spec
        mods = list(spec['m'])
        if spec.get('unb', True):
            mods.append(dict(k='unb', llc=spec.get('llc', 10.0), ogc=spec.get('ogc', 2.0)))
        self.mods, count = {}, {}
        for s in mods:
            name = s.get('name') or NAMES[s['k']]
            i = count.get(name, 0)
            count[name] = i + 1
            self.mods[(name, i)] = KIND[s['k']](s)
        kinds = {k: m.s['k'] for k, m in self.mods.items()}
        it = list(self.mods.items())
        self.loads = _group([x for x in it if kinds[x[0]] == 'load'])
        self.ctrl = _group([x for x in it if kinds[x[0]] in ('battery', 'genset')
                            or (kinds[x[0]] == 'grid' and not x[1].s.get('flex'))])
        self.flex = _group([x for x in it if kinds[x[0]] == 'pv']) + \
            _group([x for x in it if kinds[x[0]] == 'unb' or (kinds[x[0]] == 'grid' and x[1].s.get('flex'))])
        series = [m.n() for m in self.mods.values() if isinstance(m, RSeries)]
        self.t0 = spec.get('i', 0)
        f = spec.get('f', -1)
        self.final = f if f > 0 else (min(series) if series else float('inf'))
        self.t = self.t0

    def reset(self):
        self.t = self.t0
        for m in self.mods.values():
            if isinstance(m, RGenset):
                m.init()

    def step(self, control):
        """control: {(name, idx): action} for every controllable module. Returns {key: record}, totals."""
        t, out = self.t, {}
        for key, m in self.loads:
            out[key] = m.step(0.0, t)
        fixed = self._tot(out)
        for key, m in self.ctrl:
            out[key] = m.step(control[key], t)
        both = self._tot(out)
        diff = both[0] - both[1]
        for key, m in self.flex:
            give, take = m.limits_at(t)
            if diff > 0:
                amt = -min(diff, take) if m.s['k'] != 'pv' else 0.0
                if amt == 0.0 and m.s['k'] != 'pv':
                    amt = 0.0
            else:
                amt = min(-diff, give)
            out[key] = m.step(amt, t)
            diff += amt
        total = self._tot(out)
        self.t += 1
        return out, dict(fixed=fixed, controllable=(both[0] - fixed[0], both[1] - fixed[1]), overall=total,
                         reward=sum(r['reward'] for r in out.values()),
                         done=t >= self.final - 1 and any(isinstance(m, RSeries) for m in self.mods.values()))

    @staticmethod
    def _tot(out):
        return (sum(r.get('provided', 0.0) for r in out.values()), sum(r.get('absorbed', 0.0) for r in out.values()))

    def state(self):
        return {k: m.state(self.t) for k, m in self.mods.items()}

    def bounds(self):
        return {k: m.bounds() for k, m in self.mods.items()}

    def clone(self):
        c = Ref.__new__(Ref)
        c.__dict__.update(self.__dict__)
        c.mods = {}
        for k, m in self.mods.items():
            n = m.__class__.__new__(m.__class__)
            n.__dict__.update(m.__dict__)
            c.mods[k] = n
        for g in ('loads', 'ctrl', 'flex'):
            setattr(c, g, [(k, c.mods[k]) for k, _ in getattr(self, g)])
        return c
