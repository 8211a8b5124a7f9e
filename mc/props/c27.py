"""The legacy (non-modular) microgrid: every control sequence, reset and train/test split against a reference model."""
import copy
import itertools
import math

import numpy as np

from mc import build
from mc.specs import BAT, BAT1, BAT9, G3, GEN, GENS, GRID, LOAD, PV

PID = 'C27'
RULE = ('every sequence of controls (each component at, inside and beyond its limits) on a legacy microgrid, whole data, training and testing part, '
        'every horizon, with a reset at every point; production, state, costs, forecasts and end of episode against a reference model')
BOUNDS = dict(quick='series of 5 rows (and one of 51); all control sequences to the depth given per case (2 to 5)', thorough='one or two steps deeper, larger alphabets')
ASSUMPTIONS = ['a load, a renewable series and a grid or a genset; the legacy simulator tolerates 1e-3 energy units of imbalance; it leaves grid outages to the controller',
               'room for charging is computed conservatively by the simulator: anything between room x efficiency and room / efficiency is accepted',
               'genset requests between zero and one unit below the smallest production are not claimed']

B5 = [(0.0, 0.0), (50.0, 0.0), (0.0, 50.0), (1.3, 0.0), (0.0, 0.7)]
B3 = B5[:3]
B6 = B5 + [(1.0, 1.0), (-1.0, 2.0)]
G5 = [(0.0, 0.0), (50.0, 0.0), (0.0, 50.0), (1.5, 0.0), (0.0, 1.25)]
E4 = [0.0, 2.5, 50.0, 1.5]
E3 = [0.0, 3.0, 50.0]
FC = dict(fc='oracle', h=1)
GENS0 = {k: v for k, v in dict(GENS, cost=0.5, max=6.0, on=True, cco2=0.5).items() if k not in ('su', 'wd')}


def sized(s, **kw):
    return dict(s, **kw)


def all_specs():
    S = {}
    S['grid_bat'] = (dict(m=[LOAD, PV, BAT, GRID]), dict(bat=B5, grid=[G5[0], G5[1], G5[4]]))
    S['grid_bat9'] = (dict(m=[LOAD, PV, BAT9, sized(GRID, ts=G3)]), dict(bat=B5, grid=[G5[0], G5[2], G5[3]]))
    S['grid'] = (dict(m=[LOAD, PV, GRID]), dict(grid=G5))
    S['gen_bat'] = (dict(m=[LOAD, PV, BAT, GENS0], llc=7.0, ogc=0.5), dict(bat=B5, gen=E4))
    S['gen_full'] = (dict(m=[LOAD, PV, BAT1, GEN]), dict(bat=B3, gen=E3))
    S['gen'] = (dict(m=[LOAD, PV, GENS0]), dict(gen=E4))
    S['all'] = (dict(m=[LOAD, PV, BAT9, GENS0, GRID], llc=4.0, ogc=1.5), dict(bat=B3, grid=[G5[0], G5[1], G5[4]], gen=[0.0, 3.0]))
    S['equal'] = (dict(m=[dict(LOAD, ts=[2.0, 2.0, 3.0, 2.0, 2.0]), dict(PV, ts=[2.0, 1.0, 3.0, 0.0, 4.0]), BAT1, GRID]), dict(bat=[(0.0, 0.0), (1.0, 0.0), (0.0, 2.0)], grid=[(0.0, 0.0), (1.0, 0.0), (0.0, 2.0)]))
    S['near'] = (dict(m=[dict(LOAD, ts=[2.0, 2.0005, 3.0, 2.0, 2.0]), dict(PV, ts=[0.5, 1.0, 1.0, 1.0, 1.0]), GRID]), dict(grid=[(1.0, 0.0), (1.4996, 0.0), (1.502, 0.0), (0.9999, 0.0), (2.0005, 0.0)]))
    S['min'] = (dict(m=[LOAD, PV, sized(BAT, min=3.0, charge=4.0), GRID]), dict(bat=B5, grid=[G5[0], G5[3]]))
    S['flat'] = (dict(m=[LOAD, PV, sized(BAT, min=3.0, charge=3.0), GENS0]), dict(bat=[(0.0, 0.0), (0.0, 1.0), (2.0, 0.0), (1.0, 1.0), (-1.0, 2.0)], gen=[-1.0, 2.5]))
    S['big'] = (dict(m=[dict(LOAD, ts=[31234.5, 0.0, 54321.0, 20000.25, 47000.0]), dict(PV, ts=[10000.0, 61234.5, 0.0, 25000.0, 90000.0]),
                        dict(k='battery', min=2000.0, max=90000.0, mc=30000.0, md=41000.0, eff=0.8, cost=0.02, soc=0.5),
                        dict(k='grid', imp=40000.0, exp=30000.0, ts=GRID['ts'], cco2=12.0)]),
                dict(bat=[(0.0, 0.0), (12345.0, 0.0), (1e6, 0.0), (0.0, 1e6)], grid=[(0.0, 0.0), (1e7, 0.0), (0.0, 20000.0)]))
    # requests above a limit but within what is stored or can be stored; import and export at once; negative requests
    S['between'] = (dict(m=[LOAD, PV, sized(BAT, min=1.0, max=21.0, charge=11.0, eff=0.8), GRID]), dict(bat=[(0.0, 0.0), (0.0, 4.5), (3.5, 0.0)], grid=[(1.5, 1.25), (0.5, -2.0), (-2.0, 0.5)]))
    S['day'] = (dict(m=[dict(LOAD, ts=[float(3 + t % 5) for t in range(51)]), dict(PV, ts=[float((2 * t) % 7) for t in range(51)]), sized(BAT9), dict(GRID, ts=[[0.5, 0.25, 0.1, 1]] * 51)]),
                dict(bat=[(0.0, 0.0), (0.5, 0.0)], grid=[(2.0, 0.0)]))
    return S


SPECS = all_specs()


def menu(name):
    _, a = SPECS[name]
    keys, lists = [], []
    for k, names in (('bat', ('battery_charge', 'battery_discharge')), ('grid', ('grid_import', 'grid_export')), ('gen', ('genset',))):
        if k in a:
            keys.append(names)
            lists.append(a[k])
    out = []
    for combo in itertools.product(*lists):
        c = {}
        for names, v in zip(keys, combo):
            c.update(zip(names, v if isinstance(v, tuple) else (v,)))
        out.append(c)
    return out


def cases(tier):
    out = []
    budget = 500 if tier == 'quick' else 12000
    for name in SPECS:
        n = len(menu(name))
        d = 2
        while d < 5 and sum(n ** i for i in range(1, d + 2)) <= budget:
            d += 1
        if n ** d <= 150:
            out.append(dict(id=f'{name}', spec=name, depth=d, prefix=None, mode='all', horizon=None, cost=n ** d))
        else:
            out += [dict(id=f'{name}/{i}', spec=name, depth=d, prefix=i, mode='all', horizon=None, cost=n ** (d - 1)) for i in range(n)]
        for mode in ('training', 'testing', 'cancelled', 'reset', 'price'):
            for h in (1, 2, 3, 7):
                if tier == 'quick' and h == 7 and name not in ('gen', 'grid', 'all'):
                    continue
                out.append(dict(id=f'{name}/{mode}/{h}', spec=name, depth=1 if n > 12 and tier == 'quick' else 2, prefix=None, mode=mode, horizon=h, size=0.6, cost=n))
        for h in (1, 2, 3, 4, 5, 6):
            out.append(dict(id=f'{name}/horizon/{h}', spec=name, depth=1, prefix=None, mode='all', horizon=h, cost=n))
    for size in (0.2, 0.39, 0.4, 0.41, 0.5, 0.67, 0.79, 0.8):
        for mode in ('training', 'testing'):
            out.append(dict(id=f'size/{size}/{mode}', spec='grid', depth=1, prefix=None, mode=mode, horizon=1, size=size, cost=5))
    return out


class Model:
    def __init__(self, spec):
        self.one = {s['k']: s for s in spec['m']}
        self.llc, self.ogc = spec.get('llc', 10.0), spec.get('ogc', 2.0)
        n = len(self.one['load']['ts'])
        self.load = [abs(x) for x in self.one['load']['ts']]
        self.pv = [abs(x) for x in self.one['pv']['ts']]
        self.grid = [list(r) + [1.0] * (4 - len(r)) for r in self.one['grid']['ts']] if 'grid' in self.one else None
        self.rows = (0, n)
        self.t = 0
        b = self.one.get('battery')
        self.soc0 = (b['charge'] / b['max'] if 'charge' in b else b['soc']) if b else None
        self.soc = self.soc0
        cco2 = [s['cco2'] for s in spec['m'] if 'cco2' in s]
        self.cco2 = sum(cco2) / len(cco2)

    def length(self):
        return self.rows[1] - self.rows[0]

    def reset(self, rows=None):
        self.rows = rows or self.rows
        self.t = 0
        self.soc = self.soc0

    def at(self, what, t):
        return what[self.rows[0] + t]


def legacy(case):
    spec, _ = SPECS[case['spec']]
    mg = build.microgrid(spec).to_nonmodular()
    ref = Model(spec)
    n = ref.length()
    if case['horizon']:
        mg.set_horizon(case['horizon'])
    ref.h = mg.horizon
    cut = math.ceil(n * case.get('size', 0.6) - 1e-9)
    if case['mode'] in ('training', 'testing', 'cancelled'):
        mg.run(dict(menu(case['spec'])[-1]))                  # leaves a mark that must not survive the split
        mg.train_test_split(train_size=case['size'])
        ref.reset((0, cut))
        parts = mg.get_training_testing_data()
        assert parts[0] == cut
        for got, want in zip(parts[1:], (ref.load[:cut], ref.pv[:cut], ref.load[cut:], ref.pv[cut:])):
            assert np.allclose(np.asarray(got, dtype=float).reshape(-1), want), 'training and testing data'
    if case['mode'] == 'testing':
        mg.run(dict(menu(case['spec'])[-1]))
        mg.reset(testing=True)
        ref.reset((cut, n))
    if case['mode'] == 'cancelled':
        mg.train_test_split(cancel=True)
        ref.reset((0, n))
    if case['mode'] == 'reset':
        mg.run(dict(menu(case['spec'])[0]))
        mg.run(dict(menu(case['spec'])[-1]))
        mg.reset()
        ref.reset((0, n))
    if case['mode'] == 'price':
        mg.set_cost_co2(3.25)
        ref.cco2 = 3.25
    for got, want in zip(mg.get_data(), (ref.load, ref.pv)):
        assert np.allclose(np.asarray(got, dtype=float).reshape(-1), want), 'data'
    return mg, ref


def view(mg, ref, ctx, first):
    """Everything a controller can see before it decides."""
    ctx.close(mg.load, ref.at(ref.load, ref.t), 'load')
    ctx.close(mg.pv, ref.at(ref.pv, ref.t), 'renewable production')
    hi = min(ref.t + ref.h, ref.length())
    fc = mg.forecast_all()
    ctx.close_arr(fc['load'], [ref.at(ref.load, i) for i in range(ref.t, hi)], 'load forecast')
    ctx.close_arr(fc['pv'], [ref.at(ref.pv, i) for i in range(ref.t, hi)], 'renewable forecast')
    ctx.close_arr(mg.forecast_load(), fc['load'], 'load forecast')
    ctx.close_arr(mg.forecast_pv(), fc['pv'], 'pv forecast')
    if ref.grid:
        for key, attr, col in (('grid_import', 'price_import', 0), ('grid_export', 'price_export', 1), ('grid_co2', 'co2', 2), ('grid_status', 'status', 3)):
            ctx.close_arr(fc[key], [ref.at(ref.grid, i)[col] for i in range(ref.t, hi)], '{} forecast', key)
            ctx.close(getattr(mg.grid, attr), ref.at(ref.grid, ref.t)[col], 'grid {}', attr)
    if ref.soc is not None:
        ctx.close(mg.battery.soc, ref.soc, 'state of charge of the battery')
    state(mg, mg.get_updated_values(), ref, ref.t, ctx, first)


def state(mg, got, ref, t, ctx, first):
    end = t >= ref.length()
    ctx.expect(got['hour'] == t % 24, 'the hour is {} before step {}', got['hour'], t)
    # the very first state of the data is stored rounded to one decimal
    for key, series in (('load', ref.load), ('pv', ref.pv)):
        want = None if end else ref.at(series, t)
        if want is None or got[key] is None:
            ctx.expect(got[key] is None and want is None, 'state {} is {}, expected {}', key, got[key], want)
        else:
            ctx.close(got[key], want, 'state {} before step {}', key, t, tol=0.051 / max(1.0, abs(want)) if first is True else 1e-7)
    if ref.grid:
        for key, col in (('grid_price_import', 0), ('grid_price_export', 1), ('grid_co2', 2), ('grid_status', 3)):
            want = None if end else ref.at(ref.grid, t)[col]
            if want is None or got[key] is None:
                ctx.expect(got[key] is None and want is None, 'state {} is {}, expected {}', key, got[key], want)
            else:
                ctx.close(got[key], want, 'state {} before step {}', key, t)
    b = ref.one.get('battery')
    if b:
        ctx.close(got['battery_soc'], ref.soc, 'state of charge')
        ctx.expect(b['min'] / b['max'] - 1e-7 <= got['battery_soc'] <= 1 + 1e-7, 'state of charge {} outside its limits', got['battery_soc'])
        if not first:
            ctx.close(got['capa_to_discharge'], max(0.0, ref.soc * b['max'] - b['min']) * b['eff'], 'capacity to discharge', tol=1e-6)
            room = b['max'] - ref.soc * b['max']
            ctx.expect(room * b['eff'] - 1e-6 * b['max'] <= got['capa_to_charge'] <= room / b['eff'] + 1e-6 * b['max'], 'capacity to charge is {} with room for {}', got['capa_to_charge'], room)


def judge(ref, control, p, c, ctx):
    """The recorded production p and costs c of one step under the given control; moves the stored charge on."""
    one = ref.one
    load, pv = ref.at(ref.load, ref.t), ref.at(ref.pv, ref.t)
    sources, sinks, costs, co2 = 0.0, load, {}, 0.0
    if 'battery' in one:
        b = one['battery']
        ask_c, ask_d = max(0.0, control['battery_charge']), max(0.0, control['battery_discharge'])
        free = min(ask_c, b['mc'])
        room = b['max'] - ref.soc * b['max']
        ch, di = p['battery_charge'], p['battery_discharge']
        if free <= room * b['eff']:
            ctx.close(ch, free, 'energy charged')
        else:
            ctx.expect(min(free, room * b['eff']) - 1e-6 * b['max'] <= ch <= min(free, room / b['eff']) + 1e-6 * b['max'], 'energy charged is {} of {} with room for {}', ch, free, room)
        ctx.close(di, min(ask_d, b['md'], max(0.0, ref.soc * b['max'] - b['min']) * b['eff']), 'energy discharged', tol=1e-6)
        ctx.expect(ch >= 0 and di >= 0, 'negative energy')
        sources += di
        sinks += ch
        ref.soc = ref.soc + (ch * b['eff'] - di / b['eff']) / b['max']
        costs['battery'] = (ch + di) * b.get('cost', 0.0)
    if 'grid' in one:
        g = one['grid']
        row = ref.at(ref.grid, ref.t)
        im, ex = p['grid_import'], p['grid_export']
        ctx.close(im, min(max(0.0, control['grid_import']), g['imp']), 'import')
        ctx.close(ex, min(max(0.0, control['grid_export']), g['exp']), 'export')
        sources += im
        sinks += ex
        costs['grid_import'] = im * row[0]
        costs['grid_export'] = -ex * row[1]
        co2 += im * row[2]
    if 'genset' in one:
        g = one['genset']
        want = 0.0 if control['genset'] <= 0 else min(max(control['genset'], g['min']), g['max'])
        ctx.close(p['genset'], want, 'genset production', tol=1e-7)
        sources += want
        costs['genset'] = want * g['cost']
        co2 += want * g['co2']
    need = sinks - sources
    tol = 1.01e-3 if abs(need - pv) <= 1.01e-3 else 1e-7 * max(1.0, sinks, sources)
    want = dict(pv_consummed=min(pv, max(0.0, need)), loss_load=max(0.0, need - pv), overgeneration=max(0.0, -need))
    want['pv_curtailed'] = pv - want['pv_consummed']
    for k, v in want.items():
        ctx.expect(abs(p[k] - v) <= tol and p[k] >= 0, 'production record {} is {}, expected {} (needed {}, available {})', k, p[k], v, need, pv)
    costs.update(loss_load=p['loss_load'] * ref.llc, overgeneration=p['overgeneration'] * ref.ogc, co2=co2 * ref.cco2)
    for k, v in costs.items():
        ctx.close(c[k], v, 'cost of {}', k)
    ctx.expect(set(c) == set(costs) | {'total_cost'}, 'cost records {}', sorted(c))
    ctx.close(c['total_cost'], sum(costs.values()), 'total cost')
    ctx.outcome((c['total_cost'], p))
    return sum(costs.values()), co2


def one_step(mg, ref, control, ctx):
    if ref.t % 2:                   # a control may also plan the renewable production
        control = dict(control, pv_consummed=1.25, pv_curtailed=0.5)
    given = dict(control)
    n = len(mg._df_record_cost['total_cost'])
    out = mg.run(given)
    ctx.step()
    p = {k: v[-1] for k, v in mg._df_record_actual_production.items()}
    c = {k: v[-1] for k, v in mg._df_record_cost.items()}
    for name, rec in (('production', mg._df_record_actual_production), ('cost', mg._df_record_cost), ('co2', mg._df_record_co2)):
        for k, v in rec.items():
            ctx.expect(len(v) == n + 1, 'record of {} {} has {} entries after {} steps', name, k, len(v), n + 1)
    off = 0.0
    for k, v in mg._df_record_control_dict.items():
        want = ref.at(ref.load, ref.t) if k == 'load' else ref.at(ref.pv, ref.t) if k == 'pv' else control.get(k, 0.0)
        ctx.expect(len(v) == n + 1, 'record of control {} has {} entries after {} steps', k, len(v), n + 1)
        ctx.close(v[-1], want, 'recorded control {}', k)
        off += abs(want - p[k]) if k in p else 0.0
    ctx.close(mg.penalty(), off, 'penalty')
    ctx.close(mg.penalty(coef=2.5), 2.5 * off, 'weighted penalty')
    total, co2 = judge(ref, control, p, c, ctx)
    ctx.close(mg.get_cost(), total, 'get_cost')
    ctx.close(mg.get_co2(), co2, 'get_co2')
    done = ref.t == ref.length() - ref.h or ref.t == ref.length() - 1
    ctx.expect(bool(mg.done) == done, 'done is {} after step {} of {} with horizon {}', mg.done, ref.t, ref.length(), ref.h)
    state(mg, out, ref, ref.t + 1, ctx, False)
    got = mg.get_updated_values()
    ctx.expect({k: repr(v) for k, v in got.items()} == {k: repr(v) for k, v in out.items()}, 'run returned other values than get_updated_values')
    if not done:
        ref.t += 1
        view(mg, ref, ctx, False)
    return done


def check(case, ctx):
    mg, ref = legacy(case)
    acts = menu(case['spec'])
    ctx.trace = [case['mode']]
    ctx.expect(not mg.done, 'done before the first step')
    view(mg, ref, ctx, True if case['mode'] in ('all', 'price') else 'reset')
    ctx.state((0, ref.soc))

    def go(mg, ref, d, prefix):
        idx = [prefix] if prefix is not None else range(len(acts))
        for i in idx:
            m, r = copy.deepcopy(mg), copy.deepcopy(ref)
            ctx.trace.append(acts[i])
            done = one_step(m, r, acts[i], ctx)
            ctx.state((r.t, r.soc, done, case['mode'], case['horizon']))
            if done or d == 1:
                ctx.traces += 1
                # on to the end of the episode with this action, then from the start once more
                while not done:
                    done = one_step(m, r, acts[i], ctx)
                ctx.trace.append('reset')
                if case['mode'] == 'testing':
                    m.reset(testing=True)
                else:
                    m.reset()
                r.reset()
                ctx.expect(not m.done, 'done after reset')
                view(m, r, ctx, 'reset')
                one_step(m, r, acts[i], ctx)
                ctx.trace.pop()
            else:
                go(m, r, d - 1, None)
            ctx.trace.pop()

    go(mg, ref, case['depth'], case['prefix'])
