"""Generated microgrids: sizing and data for every combination of draws (deviation-bounded), and reproducibility."""
import contextlib
import csv
import glob
import os

import numpy as np

import pymgrid
from pymgrid import MicrogridGenerator

PID = 'C28'
RULE = ('numpy\'s draws replaced by enumerated values (all small integers, all files, both ends of every range): every generated microgrid that differs from one of the base '
        'combinations in up to two draws, in legacy and modular form; all seeds of a set, generated twice')
BOUNDS = dict(quick='18 base combinations, all deviations in one draw, and in two draws for 6 of them', thorough='18 base combinations, all deviations in up to two draws')
ASSUMPTIONS = ['the menus of continuous draws hold both ends, the thresholds and values between; outage draws are patterns of low values in a year']

UNIT = [0.1, 0.5, 0.9, 0.0, 0.33 - 1e-9, 0.33, 0.66 - 1e-9, 0.66, 1 - 2 ** -53]
NORMAL = [0.6, -3.0, 4.0, 0.2, 1.0, 0.95]
DATA = os.path.join(os.path.dirname(pymgrid.__file__), 'data')
_files = {}


def files(kind):
    if kind not in _files:
        out = []
        for f in sorted(glob.glob(os.path.join(DATA, kind, '*.csv'))):
            with open(f) as h:
                rows = list(csv.reader(h))
            out.append(np.array([float(r[-1]) for r in rows[1:]]))
        _files[kind] = out
    return _files[kind]


class Draws:
    """One value from a menu for every draw; menus are rotated so that their first entry is the base value."""
    def __init__(self, base, change):
        self.base, self.change = base, change
        self.sizes = []

    def pick(self, kind, menu):
        k = len(self.sizes)
        start = self.base.get(kind, 0) % len(menu)
        menu = menu[start:] + menu[:start]
        self.sizes.append(len(menu))
        return menu[self.change.get(k, 0) % len(menu)]

    def vector(self, n):
        spikes = self.pick('vector', [(100, 4000), (), (0,), (1, 2, 3), (n - 1, n - 2), tuple(range(0, n, 24)), tuple(range(n))])
        out = np.full(n, 0.999)
        out[list(spikes)] = 0.0
        return out


def fill(size, one):
    if size is None:
        return one()
    return np.array([one() for _ in range(int(np.prod(size)))], dtype=float).reshape(size)


@contextlib.contextmanager
def controlled(d):
    def randint(low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        menu = list(range(lo, hi)) if hi - lo <= 20 else sorted({lo, lo + 1, (lo + hi) // 2, hi - 2, hi - 1})
        one = lambda: int(d.pick('int' if hi - lo <= 2 else 'range', menu))
        return one() if size is None else fill(size, one).astype(int)

    def random(size=None):
        if size is not None and np.prod(size) >= 100:
            return d.vector(int(np.prod(size))).reshape(size)
        return fill(size, lambda: d.pick('unit', UNIT))

    def rand(*shape):
        return random(shape or None)

    def randn(*shape):
        return fill(shape or None, lambda: d.pick('normal', NORMAL))

    def normal(loc=0.0, scale=1.0, size=None):
        return loc + scale * fill(size, lambda: d.pick('normal', NORMAL))

    def uniform(low=0.0, high=1.0, size=None):
        return low + (high - low) * random(size)

    def choice(a, size=None, replace=True, p=None):
        opts = list(range(a)) if np.isscalar(a) else sorted(a, key=str)
        if size is not None:
            return np.array([d.pick('choice', opts) for _ in range(int(np.prod(size)))]).reshape(size)
        return d.pick('choice', opts)

    fakes = dict(randint=randint, random=random, random_sample=random, rand=rand, randn=randn, standard_normal=lambda size=None: normal(size=size), normal=normal, uniform=uniform, choice=choice,
                 seed=lambda *a: None)
    saved = {k: getattr(np.random, k) for k in fakes}
    try:
        for k, v in fakes.items():
            setattr(np.random, k, v)
        yield
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)


def make(base, change, modular):
    d = Draws(base, change)
    with controlled(d):
        gen = MicrogridGenerator(nb_microgrid=1)
        res = gen.generate_microgrid(modular=modular)
    assert res is gen and len(gen.microgrids) == 1
    return gen.microgrids[0], d.sizes


def cases(tier):
    out = []
    bases = [dict(unit=u, int=i, normal=0, range=r, choice=c) for u in range(3) for i in range(2) for r, c in ((0, 0), (2, 1), (4, 1))]
    for n, b in enumerate(bases):
        parts = 8 if tier == 'thorough' or n % 3 == 1 else 1
        for part in range(parts):
            out.append(dict(id=f'draws/{n}/{part}', base=b, part=part, parts=parts, bound=2 if parts > 1 else 1, cost=50 if parts > 1 else 5))
    for s in range(6 if tier == 'quick' else 40):
        out.append(dict(id=f'seed/{s}', seed=s, cost=10))
    out.append(dict(id='fresh', seed=None, cost=5))
    return out


def check(case, ctx):
    if case['id'].startswith('draws'):
        return draws(case, ctx)
    if case['id'] == 'fresh':
        return fresh(ctx)
    seed = case['seed']
    first = MicrogridGenerator(nb_microgrid=3, random_seed=seed).generate_microgrid(modular=False).microgrids
    np.random.seed(99)
    np.random.rand(5)
    again = MicrogridGenerator(nb_microgrid=3, random_seed=seed).generate_microgrid(modular=False).microgrids
    modular = MicrogridGenerator(nb_microgrid=3, random_seed=seed).generate_microgrid().microgrids
    ctx.expect(len(first) == len(again) == len(modular) == 3, 'number of microgrids')
    for n, (a, b, m) in enumerate(zip(first, again, modular)):
        ctx.trace = [dict(seed=seed, microgrid=n)]
        ctx.expect(a.parameters.equals(b.parameters) and a.architecture == b.architecture, 'the same seed gave different parameters')
        for s, t in zip(series(a).items(), series(b).items()):
            ctx.expect(s[0] == t[0] and np.array_equal(s[1], t[1]), 'the same seed gave different {} series', s[0])
        ctx.step(3)
        ctx.state((seed, n))
        ctx.outcome(tuple(a.parameters.iloc[0].tolist()))
        legacy_ok(a, ctx)
        modular_ok(a, m, ctx)
    ctx.traces += 1
    ctx.sample(dict(seed=seed))


def fresh(ctx):
    """The default generator is reproducible without an explicit seed, and counts its microgrids."""
    for n in (1, 2):
        a = MicrogridGenerator(nb_microgrid=n).generate_microgrid(modular=False).microgrids
        b = MicrogridGenerator(nb_microgrid=n, random_seed=42).generate_microgrid(modular=False).microgrids
        ctx.expect(len(a) == len(b) == n, 'number of microgrids')
        for x, y in zip(a, b):
            ctx.expect(x.parameters.equals(y.parameters), 'the default seed is not 42')
            ctx.step(2)
        gen = MicrogridGenerator(nb_microgrid=n)
        ctx.expect(gen.generate_microgrid(modular=False, verbose=True) is gen and len(gen.microgrids) == n, 'verbose generation')
        ctx.expect(gen.microgrids[-1].parameters.equals(a[-1].parameters), 'verbose generation gives other microgrids')
        ctx.traces += 1
        ctx.state(n)


def draws(case, ctx):
    base = case['base']
    todo, count = [{}], 0
    while todo:
        change = todo.pop()
        ctx.trace = [dict(base=base, change={str(k): v for k, v in change.items()})]
        mg, sizes = make(base, change, False)
        last = max(change, default=-1)
        if len(change) < case['bound']:
            for k in range(last + 1, len(sizes)):
                if not change and case['parts'] > 1 and k % case['parts'] != case['part']:
                    continue
                todo += [{**change, k: j} for j in range(1, sizes[k])]
        if not change and case['part']:
            continue
        ctx.step()
        ctx.traces += 1
        ctx.state(tuple(mg.parameters.iloc[0].tolist()) + (float(np.sum(series(mg)['load'])), float(np.sum(series(mg)['pv']))))
        legacy_ok(mg, ctx)
        count += 1
        if len(change) < 2:
            modular_ok(mg, make(base, change, True)[0], ctx)
            ctx.step()
    ctx.sample(dict(base=base, microgrids=count))


def series(mg):
    load, pv = mg.get_data()
    out = dict(load=load, pv=pv)
    if mg.architecture['grid']:
        out.update(price_import=mg._grid_price_import, price_export=mg._grid_price_export, co2=mg._grid_co2, status=mg._grid_status_ts)
    return {k: np.asarray(v, dtype=float).reshape(-1) for k, v in out.items()}


def tariff(n):
    out = []
    for i in range(8760):
        h = i % 24
        if n == 1:
            out.append(0.59 if 12 <= h < 18 else 0.22 if h < 8 or h >= 21 else 0.29)
        else:
            out.append(0.08 if h < 5 or 14 <= h < 17 else 0.11)
    return np.array(out)


TARIFFS = [tariff(1), tariff(2)]


def legacy_ok(mg, ctx):
    p = {k: v for k, v in mg.parameters.iloc[0].items()}
    s = series(mg)
    arch = mg.architecture
    for k, v in s.items():
        ctx.expect(len(v) == 8760, '{} series has {} rows', k, len(v))
        ctx.expect(np.isfinite(v).all() and v.min() >= 0, '{} series has invalid values', k)
    peak = s['load'].max()
    ctx.close(peak, p['load'], 'peak of the load')
    ctx.expect(100 <= p['load'] <= 100000, 'load of size {}', p['load'])
    ctx.expect(any(np.allclose(s['load'], f * (peak / f.max()), rtol=1e-9, atol=0) for f in files('load')), 'the load is not a scaled data file')
    top = s['pv'].max()
    ctx.expect(0.3 * peak - 1e-6 * peak <= top <= 1.5 * peak + 1e-6 * peak, 'renewable peak is {} of the peak load', top / peak)
    ctx.expect(abs(p['PV_rated_power'] - top) <= 0.0051, 'rated renewable power {}, peak {}', p['PV_rated_power'], top)
    ctx.expect(any(np.allclose(s['pv'], f * (top / f.max()), rtol=1e-9, atol=1e-12) for f in files('pv')), 'the renewable series is not a scaled data file')
    mean = s['load'].mean()
    cap = p['battery_capacity']
    ctx.expect(any(abs(cap - np.ceil(h * mean)) <= 1e-6 * cap for h in (3, 4, 5)), 'battery capacity is {} hours of mean load', cap / mean)
    ctx.close(p['battery_power_charge'], np.ceil(cap / 4), 'battery charging power')
    ctx.close(p['battery_power_discharge'], np.ceil(cap / 4), 'battery discharging power')
    ctx.close(p['battery_soc_min'], 0.2, 'smallest state of charge')
    ctx.close(p['battery_soc_max'], 1.0, 'largest state of charge')
    ctx.expect(0.2 <= p['battery_soc_0'] <= 1.0, 'initial state of charge {}', p['battery_soc_0'])
    ctx.close(mg.battery.soc, p['battery_soc_0'], 'state of charge of the battery')
    ctx.close(p['battery_efficiency'], 0.9, 'efficiency')
    ctx.close(p['battery_cost_cycle'], 0.02, 'battery cost')
    ctx.close(p['cost_loss_load'], 10, 'cost of loss load')
    ctx.close(p['cost_overgeneration'], 1, 'cost of overgeneration')
    ctx.close(p['cost_co2'], 0.1, 'cost of emissions')
    ctx.expect(arch['PV'] == 1 and arch['battery'] == 1, 'architecture {}', arch)
    ctx.expect(arch['grid'] == 1 or arch['genset'] == 1, 'neither grid nor genset')
    if arch['genset']:
        ctx.expect(p['genset_pmax'] * p['genset_rated_power'] >= peak * (1 - 1e-9), 'the genset cannot supply the peak load {}', peak)
        ctx.close(p['genset_rated_power'], np.ceil(peak / 0.9), 'rated power of the genset', tol=1e-4 if abs(peak / 0.9 - round(peak / 0.9)) < 1e-6 else 1e-7)
        ctx.close(p['genset_pmin'], 0.05, 'smallest production of the genset')
        ctx.close(p['fuel_cost'], 0.4, 'fuel cost')
        ctx.close(p['genset_co2'], 2, 'genset emissions')
    if arch['grid']:
        for k in ('grid_power_import', 'grid_power_export'):
            ctx.expect(abs(p[k] - int(2 * peak)) <= 1, '{} is {} with peak load {}', k, p[k], peak)
        ctx.expect(set(np.unique(s['status'])) <= {0.0, 1.0}, 'grid status takes other values than 0 and 1')
        if p['grid_weak'] != 1:
            ctx.expect(s['status'].min() == 1, 'a grid that is not weak has outages')
        else:
            ctx.expect(arch['genset'] == 1, 'a weak grid without a genset')
        if s['status'].min() < 1:
            ctx.expect(arch['genset'] == 1, 'outages without a genset')
        ctx.expect(any(np.allclose(s['price_import'], t) for t in TARIFFS), 'import prices are not one of the tariffs')
        ctx.expect(not s['price_export'].any(), 'export prices')
        ctx.expect(any(np.allclose(s['co2'], f) for f in files('co2')), 'emissions are not a data file')
    ctx.close(mg.load, s['load'][0], 'first load')
    ctx.close(mg.pv, s['pv'][0], 'first renewable production')


def modular_ok(legacy, m, ctx):
    p = {k: v for k, v in legacy.parameters.iloc[0].items()}
    s, arch = series(legacy), legacy.architecture
    names = {'load', 'PV', 'battery', 'unbalanced_energy'} | ({'genset'} if arch['genset'] else set()) | ({'grid'} if arch['grid'] else set())
    ctx.expect(set(m.modules.names()) == names, 'modules {}', m.modules.names())
    one = {k: m.modules[k].item() for k in names}
    ctx.close_arr(np.abs(one['load'].time_series), s['load'], 'load of the modular microgrid')
    ctx.close_arr(one['PV'].time_series, s['pv'], 'renewable series of the modular microgrid')
    b = one['battery']
    for attr, want in (('max_capacity', p['battery_capacity']), ('min_capacity', 0.2 * p['battery_capacity']), ('max_charge', p['battery_power_charge']),
                       ('max_discharge', p['battery_power_discharge']), ('efficiency', 0.9), ('battery_cost_cycle', 0.02), ('soc', p['battery_soc_0'])):
        ctx.close(getattr(b, attr), want, 'battery {}', attr)
    u = one['unbalanced_energy']
    ctx.close(u.loss_load_cost, 10, 'cost of loss load')
    ctx.close(u.overgeneration_cost, 1, 'cost of overgeneration')
    if arch['genset']:
        g = one['genset']
        ctx.close(g.running_max_production, p['genset_pmax'] * p['genset_rated_power'], 'largest genset production')
        ctx.close(g.running_min_production, p['genset_pmin'] * p['genset_rated_power'], 'smallest genset production')
        ctx.close(g.genset_cost, 0.4, 'genset cost')
        ctx.close(g.co2_per_unit, 2, 'genset emissions')
        ctx.close(g.cost_per_unit_co2, 0.1, 'price of emissions')
    if arch['grid']:
        g = one['grid']
        ctx.close(g.max_import, p['grid_power_import'], 'import limit')
        ctx.close(g.max_export, p['grid_power_export'], 'export limit')
        ctx.close(g.cost_per_unit_co2, 0.1, 'price of emissions')
        want = np.stack([s['price_import'], s['price_export'], s['co2'], s['status']], axis=1)
        ctx.close_arr(g.time_series, want, 'grid series of the modular microgrid')
