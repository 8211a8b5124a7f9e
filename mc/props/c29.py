"""Benchmarks on the legacy microgrid: what they report is what the microgrid does under the recorded controls, dispatch and optimality."""
import contextlib
import copy
import io
import itertools
import re

import numpy as np

from mc import build
from mc.props import c26, c27
from mc.ref import Ref

from pymgrid.algos import ModelPredictiveControl
from pymgrid.algos.Control import Benchmarks

PID = 'C29'
RULE = ('every load pattern over {0, 2, 6} combined with renewable, price and outage patterns, battery, genset and grid kinds and horizons: rule-based control against a reference dispatch, '
        'model predictive control against the minimum over all plans, both replayed through the reference model of the legacy microgrid')
BOUNDS = dict(quick='4 rows: all 81 load patterns x 2-3 renewable patterns x 3 price/outage patterns x 6 microgrids x horizons 1-3',
              thorough='5 rows: all 243 load patterns x 4 x 4 patterns x 8 microgrids x horizons 1-4')
ASSUMPTIONS = ['microgrids with a battery, as the legacy controllers require; fresh microgrids and whole data', 'optimality is claimed where the controller\'s model is exact, as in C26']

LOSSY = dict(k='battery', min=1.0, max=6.0, mc=2.0, md=2.5, eff=0.8, cost=0.125, charge=4.0, soc=None)
EMPTY = dict(k='battery', min=1.0, max=6.0, mc=2.0, md=2.5, eff=1.0, cost=0.25, charge=1.0, soc=None)
BATS = dict(c26.BATS, lossy=LOSSY, empty=EMPTY)
GENS = dict(c26.GENSETS, high=dict(c26.GENSETS['cheap'], min=3.0, max=9.0))
PRICES = c26.GRIDS + [[[0.5, 0.25, 0.2, 1], [1.0, 1.5, 0.1, 1], [0.25, 0.125, 0.3, 0], [0.3, 0.2, 0.0, 1], [0.75, 1.5, 0.0, 1]],
                       [[0.3, 0.2, 0.0, 1], [0.5, 0.5, 0.1, 1], [0.3, 0.19, 0.3, 0], [0.5, 0.25, 0.2, 1], [1.0, 0.9, 0.2, 1]],
                       [[0.5, 0.5, 0.2, 0], [0.3, 0.19, 0.1, 1], [1.0, 0.7, 0.0, 1], [0.3, 0.2, 0.0, 0], [0.3, 0.3, 0.0, 1]]]
RBC = [('lossy', None, True), ('empty', None, True), ('lossy', 'high', False), ('empty', 'dear', False), ('small', 'high', True), ('lossy', 'dear', True), ('empty', 'high', False)]


def cases(tier):
    T, npv, ngrid, hs = (4, 2, 3, (0, 1, 2)) if tier == 'quick' else (5, 4, 4, (0, 1, 2, 3))
    out = []
    for n, k in enumerate(c26.KINDS[:5] if tier == 'quick' else c26.KINDS):
        for p in range(npv):
            for g in range(ngrid if k[2] else 1):
                for h in hs:
                    out.append(dict(id=f'mpc/{n}/{p}/{g}/{h}', algo='mpc', kind=list(k), T=T, pv=p, grid=g, h=h, cost=10 * (T - h)))
    for n, k in enumerate(RBC):
        for p in (*range(npv), 4):
            for g in (range(len(PRICES)) if k[2] else (0,)):
                for h in hs[:2]:
                    out.append(dict(id=f'rbc/{n}/{p}/{g}/{h}', algo='rbc', kind=[*k, 3.0 if g % 2 else 9.0], T=T, pv=p, grid=g, h=h, cost=1))
    for h in (0, 1):
        out.append(dict(id=f'both/{h}', algo='both', kind=['small', 'cheap', True, 9.0], T=T, pv=0, grid=0, h=h, cost=20))
    return out


def spec_for(case, loads):
    bat, gen, grid, imp = case['kind']
    T = case['T']
    mods = [dict(c26.LOAD, ts=[float(x) for x in loads]), dict(c26.PV, ts=[float(x) for x in (c26.PVS + [[4, 3, 0.5, 4, 2]])[case['pv']][:T]]), dict(BATS[bat])]
    if gen:
        mods.append(dict(GENS[gen]))
    if grid:
        mods.append(dict(c26.GRID, ts=PRICES[case['grid']][:T], imp=imp, exp=2.0, cco2=0.25))
    return dict(m=mods, llc=10.0, ogc=2.0)


def legacy(case, spec):
    mg = build.microgrid(spec).to_nonmodular()
    mg.set_horizon(case['h'] + 1)
    return mg


def model(case, spec):
    ref = c27.Model(spec)
    ref.h = case['h'] + 1
    return ref


def dispatch(ref):
    """The controls of the rule: renewable, then battery and grid in the order of the prices, then the genset."""
    one, t = ref.one, ref.t
    load, pv = ref.load[t], ref.pv[t]
    b, g, gen = one['battery'], one.get('grid'), one.get('genset')
    up = bool(g) and ref.grid[t][3] == 1
    out = dict(battery_charge=0.0, battery_discharge=0.0)
    out.update(dict(grid_import=0.0, grid_export=0.0) if g else {})
    out.update(dict(genset=0.0) if gen else {})
    can = max(0.0, min((ref.soc * b['max'] - b['min']) * b['eff'], b['md']))
    reserve = 0.0
    if gen and not up and load > pv + can:
        if gen['min'] > load:
            out['genset'] = gen['min']
            return out
        reserve = gen['min']
    need = load - reserve
    excess = max(0.0, pv - need)
    need = max(0.0, need - pv)
    first = bool(g) and ref.grid[t][1] / b['eff'] ** 2 >= ref.grid[t][0]
    for who in (['grid', 'battery'] if first else ['battery', 'grid']):
        if who == 'battery':
            if need > 0:
                out['battery_discharge'] = min(can, need)
                need -= out['battery_discharge']
            elif excess > 0:
                out['battery_charge'] = min((1 - ref.soc) * b['max'] / b['eff'], b['mc'], excess)
                excess -= out['battery_charge']
        elif up:
            if need > 0:
                out['grid_import'], need = need, 0.0
            elif excess > 0:
                out['grid_export'], excess = excess, 0.0
    if gen and need + reserve > 0:
        out['genset'] = need + reserve
    return out


def replay(case, spec, out, steps, ctx):
    """The output of a benchmark against the reference model, driven by the controls it recorded."""
    ref = model(case, spec)
    for part in ('action', 'production', 'cost', 'co2'):
        for k, v in out[part].items():
            ctx.expect(len(v) == steps, '{} {} has {} entries for {} steps', part, k, len(v), steps)
    for k, v in out['status'].items():
        ctx.expect(len(v) == steps + 1, 'status {} has {} entries for {} steps', k, len(v), steps)
    for t in range(steps):
        ref.t = t
        ctx.trace = ctx.trace[:1] + [f'step {t}']
        c27.state(None, {k: v[t] for k, v in out['status'].items()}, ref, t, ctx, t == 0)
        control = {k: v[t] for k, v in out['action'].items()}
        ctx.close(control['load'], ref.load[t], 'recorded load')
        ctx.close(control['pv'], ref.pv[t], 'recorded renewable production')
        yield t, ref, control
        total, co2 = c27.judge(ref, control, {k: v[t] for k, v in out['production'].items()}, {k: v[t] for k, v in out['cost'].items()}, ctx)
        ctx.close(out['co2']['co2'][t], co2, 'emissions')
        ctx.step()
        ctx.state((case['id'], t, ref.soc, ref.load, total))
    if steps:
        c27.state(None, {k: v[steps] for k, v in out['status'].items()}, ref, steps, ctx, False)


def snapshot(mg):
    return repr((mg._df_record_state, mg._df_record_cost, mg._df_record_control_dict, mg._df_record_actual_production, mg._tracking_timestep, mg.done))


def check(case, ctx):
    for n, loads in enumerate(itertools.product((0, 2, 6), repeat=case['T'])):
        ctx.trace = [dict(loads=list(loads))]
        spec = spec_for(case, loads)
        ctx.traces += 1
        {'rbc': rule_based, 'mpc': predictive, 'both': both}[case['algo']](case, spec, ctx, n)
    ctx.sample(dict(case=case['id'], patterns=n + 1))


def rule_based(case, spec, ctx, n):
    mg = legacy(case, spec)
    before = snapshot(mg)
    bench = Benchmarks(mg)
    bench.run_benchmarks(algo='rbc')
    out = bench.outputs_dict['rbc']
    ctx.expect(out is bench.rule_based_output and bench.has_rule_based_benchmark, 'the output is not kept')
    ctx.expect(snapshot(mg) == before, 'rule-based control changed the microgrid')
    steps = case['T'] - case['h'] - 1
    for t, ref, control in replay(case, spec, out, steps, ctx):
        for k, v in dispatch(ref).items():
            ctx.close(control[k], v, 'rule-based {}', k)


def predictive(case, spec, ctx, n):
    mg = legacy(case, spec)
    steps = case['T'] - case['h'] - 1
    one = {s['k']: s for s in spec['m']}
    mpc = ModelPredictiveControl(mg)
    for most in ([None] if n % 9 else [1, None]):
        if most and most > steps:
            continue
        out = mpc.run(max_steps=most)
        charge = one['battery']['charge']
        ref26 = Ref(dict(spec, m=[dict(s, fc='oracle', h=case['h']) if case['h'] and s['k'] in ('load', 'pv', 'grid') else s for s in spec['m']]))
        for t, ref, control in replay(case, spec, out, most or steps, ctx):
            ref26.t = t
            value = c26.plans(c26.window(ref26, case['h']), one['battery'], one.get('genset'), one.get('grid'))
            moved = out['production']['battery_discharge'][t] - out['production']['battery_charge'][t]
            after = min(max(charge - moved, one['battery']['min']), one['battery']['max'])
            got = out['cost']['total_cost'][t] + c26.at(value[1], after)
            best = c26.at(value[0], charge)
            ctx.expect(abs(got - best) <= 3e-3 * (1 + abs(best)), 'step {} with {} stored: the control leads to a cost of {}, the best plan costs {}', t, charge, got, best)
            charge = after


def both(case, spec, ctx, n):
    if n % 5:
        return
    mg = legacy(case, spec)
    bench = Benchmarks(mg)
    bench.run_benchmarks(algo='mpc')
    bench.run_benchmarks(algo='rbc')
    sums = {}
    cost = {k: list(bench.outputs_dict[k]['cost']['total_cost']) for k in ('mpc', 'rbc')}
    ctx.expect(set(bench.outputs_dict) == {'mpc', 'rbc'}, 'benchmarks kept: {}', sorted(bench.outputs_dict))
    a, b = bench.mpc_output, bench.rule_based_output
    s, r = sum(cost['mpc']), sum(cost['rbc'])
    if abs(s - r) > 1e-6:
        ctx.expect((a < b) == (s < r) and (a > b) == (s > r) and not a == b, 'outputs with costs {} and {} are compared wrongly', s, r)
    frame = a.to_frame()
    ctx.close_arr(frame[('cost', 'total_cost')].values[:len(cost['mpc'])], cost['mpc'], 'table of the output')
    ctx.expect(len(frame) == len(a['status']['load']), 'table has {} rows', len(frame))
    T = len(cost['mpc'])
    keys = {'using MPC': 'mpc', 'using rule-based control': 'rbc', 'using RBC': 'rbc'}
    for kw, parts in [({}, [('', 0, T)])] + [(dict(test_split=True, test_ratio=q), [('', int(np.ceil(T * (1 - q))), T)]) for q in (0.0, 0.5, 1.0)] + \
            [(dict(test_split=True, test_index=i), [('Test', i, T), ('Train', 0, i)]) for i in range(T + 1)]:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            bench.describe_benchmarks(**kw)
        lines = [x for x in buf.getvalue().splitlines() if ' using ' in x]
        ctx.expect(len(lines) == 2 * len(parts), 'description of two benchmarks with {}: {}', kw, lines)
        for line in lines:
            algo = next(v for k, v in keys.items() if k in line)
            lo, hi = next((lo, hi) for tag, lo, hi in parts if line.startswith(tag))
            ctx.expect(abs(float(line.rsplit(':', 1)[1]) - sum(cost[algo][lo:hi])) <= 0.0051, 'described as "{}", costs were {}', line, cost[algo])
    for only in (['mpc'], ['rbc'], ['saa'], []):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            bench.describe_benchmarks(algorithms=only)
        ctx.expect(len([x for x in buf.getvalue().splitlines() if ' using ' in x]) == len(set(only) & {'mpc', 'rbc'}), 'description of {}: {}', only, buf.getvalue())
    for bad in (dict(test_split=True), dict(test_split=True, test_ratio=0.5, test_index=1), dict(test_split=True, test_ratio=1.5), dict(test_split=True, test_ratio=-0.1),
                dict(test_split=True, test_index=T + 1), dict(algorithms=['mpc', 'other'])):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                bench.describe_benchmarks(**bad)
        except ValueError:
            continue
        ctx.expect(False, 'described with {}', bad)
    ctx.step()
    ctx.state((case['id'], n, s, r))
    ctx.outcome((round(s, 3), round(r, 3)))
