"""Model predictive control: every applied control starts a plan of least cost over the horizon, by exhaustive search over all plans."""
import itertools

from mc import build
from mc.ref import Ref
from mc.specs import BAT1, GEN, GRID, LOAD, PV

from pymgrid.algos import ModelPredictiveControl

PID = 'C26'
RULE = ('every load pattern over {0, 2, 6} (combined with renewable, price and outage patterns) on small microgrids with integer data and no battery losses, for every horizon: '
        'each step of model predictive control against the minimum over all plans on the integer lattice (where the problem attains its optimum)')
BOUNDS = dict(quick='4 steps: all 81 load patterns x 2 renewable patterns x 3 price/outage patterns x horizons 1-3, 5 microgrids',
              thorough='5 steps: all 243 load patterns x 4 renewable patterns x 4 price/outage patterns x horizons 1-4, 8 microgrids')
ASSUMPTIONS = ['export price zero, battery efficiency one, equal co2 prices of grid and genset, gensets without start-up or wind-down: the setting in which the model that the '
               'controller optimizes is exact', 'with integer data the minimum over all plans is attained on the integer lattice (network flow for every on/off choice of the genset)']

BATS = dict(small=dict(BAT1, min=0.0, max=6.0, mc=2.0, md=4.0, cost=0.125, charge=4.0, soc=None), free=dict(BAT1, min=1.0, max=5.0, mc=3.0, md=2.0, cost=0.0, charge=1.0, soc=None),
            lossy=dict(BAT1, min=0.0, max=6.0, mc=2.0, md=4.0, eff=0.5, cost=0.0, charge=3.0, soc=None), wide=dict(BAT1, min=1.0, max=5.0, mc=1.0, md=3.0, eff=0.5, cost=0.0, charge=5.0, soc=None))
GENSETS = dict(cheap=dict(GEN, min=2.0, max=4.0, cost=0.5, co2=0.5, cco2=0.25), dear=dict(GEN, min=1.0, max=6.0, cost=3.0, co2=1.0, cco2=0.25))
PVS = [[2, 0, 6, 4, 0], [0, 8, 0, 0, 2], [0, 0, 0, 0, 0], [6, 6, 0, 6, 6]]
GRIDS = [[[1.0, 0.0, 0.5, 1], [0.5, 0.0, 10.0, 1], [0.5, 0.0, 0.25, 1], [2.0, 0.0, 0.0, 1], [4.0, 0.0, 0.0, 1]],
         [[1.0, 0.0, 0.0, 0], [1.0, 0.0, 2.0, 1], [2.5, 0.0, 0.0, 0], [0.25, 0.0, 0.0, 0], [0.25, 0.0, 0.0, 1]],
         [[0.0, 0.0, 0.0, 1], [20.0, 0.0, 0.0, 1], [0.25, 0.0, 0.0, 0], [0.75, 0.0, 0.0, 1], [0.0, 0.0, 0.0, 1]],
         [[2.0, 0.0, 0.0, 1], [2.0, 0.0, 0.0, 1], [2.0, 0.0, 0.0, 1], [2.0, 0.0, 0.0, 1], [2.0, 0.0, 0.0, 1]]]
SELL = [[[1.0, 0.5, 0.5, 1], [3.0, 2.5, 2.0, 1], [0.5, 0.25, 0.25, 1], [2.0, 0.0, 0.0, 1], [4.0, 1.0, 0.0, 1]],
        [[1.0, 1.0, 0.0, 1], [1.0, 0.75, 2.0, 0], [2.5, 0.0, 0.0, 1], [3.25, 3.0, 0.0, 1], [0.25, 0.0, 0.0, 1]],
        [[0.0, 0.0, 0.0, 1], [20.0, 4.0, 0.0, 1], [0.25, 0.25, 0.0, 0], [0.75, 0.125, 0.0, 1], [0.0, 0.0, 0.0, 1]],
        [[2.0, 1.5, 0.0, 1], [2.0, 1.5, 0.0, 1], [2.0, 1.5, 0.0, 1], [2.0, 1.5, 0.0, 1], [2.0, 1.5, 0.0, 1]]]      # import never cheaper than export
KINDS = [('small', None, True, 4.0), ('free', None, True, 2.0), ('small', 'cheap', False, 0.0), ('small', 'dear', True, 2.0), ('free', 'cheap', True, 4.0),
         ('lossy', None, 'sell', 4.0), ('free', 'dear', 'sell', 2.0), ('free', 'dear', False, 0.0), ('small', 'cheap', True, 2.0), ('free', 'dear', True, 2.0), ('small', None, 'sell', 2.0),
         ('wide', None, True, 6.0), ('lossy', None, True, 2.0), ('small', 'cheap', 'sell', 4.0)]
NAMED = dict(load='demand', pv='panels', battery='cells', genset='diesel', grid='utility')


def cases(tier):
    T, npv, ngrid, hs, kinds = (4, 2, 3, (0, 1, 2), KINDS[:7]) if tier == 'quick' else (5, 4, 4, (0, 1, 2, 3), KINDS)
    out = []
    for n, k in enumerate(kinds):
        for p in range(npv):
            for g in range(ngrid if k[2] else 1):
                for h in hs:
                    out.append(dict(id=f'{n}/{p}/{g}/{h}', kind=list(k), T=T, pv=p, grid=g, h=h, cost=1 + h, named=(n + h) % 2))
    return out


def spec_for(case, loads):
    bat, gen, grid, imp = case['kind']
    T, h = case['T'], case['h']
    fc = dict(fc='oracle', h=h) if h else {}
    mods = [dict(LOAD, ts=[float(x) for x in loads], **fc), dict(PV, ts=[float(x) for x in PVS[case['pv']][:T]], **fc), dict(BATS[bat])]
    if gen:
        mods.append(dict(GENSETS[gen]))
    if grid:
        mods.append(dict(GRID, ts=(SELL if grid == 'sell' else GRIDS)[case['grid']][:T], imp=imp, exp=2.0, cco2=0.25, **fc))
    if case.get('named'):
        mods = [dict(m, name=NAMED[m['k']]) for m in mods]
    return dict(m=mods, llc=10.0, ogc=2.0)


def window(ref, h):
    """The data of the current and the next h steps, as the microgrid observes them."""
    out = []
    st = {ref.mods[k].s['k']: s for k, s in ref.state().items()}
    for j in range(h + 1):
        w = 'current' if j == 0 else f'forecast_{j - 1}'
        row = dict(load=-st['load'][f'load_{w}'], pv=st['pv'][f'renewable_{w}'])
        if 'grid' in st:
            row.update(price=st['grid'][f'import_price_{w}'] + 0.25 * st['grid'][f'co2_per_kwh_{w}'], up=st['grid'][f'grid_status_{w}'],
                       sell=st['grid'][f'export_price_{w}'])
        out.append(row)
    return out


def step_cost(row, d, gen, grid, cache, part=1):
    """With the grid in parts of a unit. Least cost of a step in which the battery delivers d (negative: takes), over all genset and grid choices. None: impossible."""
    key = (tuple(sorted(row.items())), d)
    if key in cache:
        return cache[key]
    best = None
    levels = [0.0] + ([gen['min'] + i for i in range(int(gen['max'] - gen['min']) + 1)] if gen else [])
    imp = grid['imp'] * row['up'] if grid else 0.0
    exp = grid['exp'] * row['up'] if grid else 0.0
    for g in levels:
        for x in range(-int(exp) * part, int(imp) * part + 1):
            x /= part
            rest = row['load'] - d - g - x          # still to be covered by the renewable, then lost
            if rest < 0:
                continue
            lost = max(0.0, rest - row['pv'])
            if lost > row['load']:
                continue
            cost = lost * 10.0 + (g * (gen['cost'] + gen['co2'] * gen['cco2']) if gen else 0.0) + (max(x, 0) * row['price'] - max(-x, 0) * row.get('sell', 0.0) if grid else 0.0)
            best = cost if best is None else min(best, cost)
    cache[key] = best
    return best


def unit(bat):
    """The lattice of charges: whole units, halves if half of the energy is lost (then the value function bends at halves only)."""
    return bat.get('eff', 1.0)


def plans(win, bat, gen, grid):
    """value[j][c]: least cost of the steps j.. of the window with charge c (in lattice units), over all plans."""
    u = unit(bat)
    part = round(1 / u) ** 2
    lo, hi = round(bat['min'] / u), round(bat['max'] / u)
    value = [None] * len(win) + [{c: 0.0 for c in range(lo, hi + 1)}]
    cache = {}
    for j in range(len(win) - 1, -1, -1):
        v = {}
        for c in range(lo, hi + 1):
            best = None
            for d in range(-round(bat['mc'] / u), round(bat['md'] / u) + 1):
                if not lo <= c - d <= hi:
                    continue
                s = step_cost(win[j], d * u * u if d > 0 else float(d), gen, grid, cache, part)
                if s is None:
                    continue
                t = s + abs(d) * bat['cost'] + value[j + 1][c - d]
                best = t if best is None else min(best, t)
            v[c] = best
        value[j] = v
    return value


def at(v, c, u=1.0):
    """Linear between lattice points."""
    c /= u
    a = int(c // 1)
    if abs(c - round(c)) < 1e-4:
        return v[round(c)]
    return v[a] * (a + 1 - c) + v[a + 1] * (c - a)


def check(case, ctx):
    T, h = case['T'], case['h']
    gen = GENSETS[case['kind'][1]] if case['kind'][1] else None
    bat = BATS[case['kind'][0]]
    u, name = unit(bat), NAMED['battery'] if case.get('named') else 'battery'
    for n, loads in enumerate(itertools.product((0, 2, 6), repeat=T)):
        spec = spec_for(case, loads)
        ctx.trace = [dict(loads=list(loads))]
        grid = next((m for m in spec['m'] if m['k'] == 'grid'), None)
        mg = build.microgrid(spec)
        mpc = ModelPredictiveControl(mg)
        runs = [(None, T)] if n % 9 else [(2, 2), (0, 0), (T, T), (None, T)]
        charge0 = bat['charge']
        for most, want in runs:
            log = mpc.run() if most is None else mpc.run(max_steps=most)
            ctx.expect(len(log) == want, 'model predictive control for {} steps of {} ran {}', most, T, len(log))
            ref = Ref(spec)
            c = charge0
            for t in range(want):
                ref.t = t
                win = window(ref, h)
                value = plans(win, bat, gen, grid)
                row = log.iloc[t]
                given, taken = row[(name, 0, 'discharge_amount')], row[(name, 0, 'charge_amount')]
                moved = given / u - taken * u
                after = min(max(c - moved, bat['min']), bat['max'])
                cost = -row[('balance', 0, 'reward')]
                ctx.trace = [dict(loads=list(loads), step=t, charge=c)]
                ctx.step()
                ctx.state((case['id'], loads, t, round(c, 3)))
                got = cost + at(value[1], after, u)
                best = at(value[0], c, u)
                ctx.expect(got <= best + 2e-3 * (1 + abs(best)), 'step {} with {} stored: the control costs {} now and at best {} later, the best plan costs {} in all', t, c, cost,
                           at(value[1], after, u), best)
                ctx.expect(got >= best - 2e-3 * (1 + abs(best)), 'step {}: cost {} below the minimum over all plans {}', t, got, best)
                ctx.outcome((round(moved, 2), round(cost, 2)))
                c = after
            charge0 = c
            ctx.traces += 1
    ctx.sample(dict(case=case['id'], patterns=n + 1))
