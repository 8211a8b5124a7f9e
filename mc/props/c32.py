"""Stochastic control of the legacy microgrid: every group of samples, every percentile; the applied controls and what is reported about them."""
import contextlib
import io
import itertools

import numpy as np
import pandas as pd

from mc import build
from mc.props import c26, c27, c29

from pymgrid.algos.Control import Benchmarks, HorizonOutput
from pymgrid.algos.saa import SampleAverageApproximation

PID = 'C32'
RULE = ('every group of up to three samples from all combinations of load, renewable and grid-status values for the coming steps, every percentile: the applied control against the plans of '
        'least cost for the samples (exhaustive search over all plans), the report against the reference model of the legacy microgrid; all orders of plan costs for the choice by percentile')
BOUNDS = dict(quick='groups of 1-2 samples over 12 values and of 3 over 6, horizons 1-3, runs of 1-3 steps, 4 microgrids; 1-5 plans in every order with ties', thorough='groups of 3 samples over 12 values, 6 microgrids, runs of 1-5 steps')
ASSUMPTIONS = ['microgrids with a battery; three days of data; a fresh microgrid', 'optimality is claimed where the controller\'s model is exact, as in C26, and with neither battery nor emission costs, which the choice between plans ignores']

BAT = dict(c26.BATS['small'], cost=0.0)
KINDS = dict(grid=(None, True, 4.0), gen=('cheap', False, 0.0), both=('dear', True, 2.0), cheap=('cheap', True, 2.0), low=(None, True, 1.0), dear=('dear', False, 0.0))
LOADS = [2, 6, 0, 4, 6, 2, 0, 2]
PVS = [0, 2, 6, 2, 0, 4, 2, 2]
PRICES = [1.0, 3.0, 0.5, 2.0, 4.0, 0.25, 1.0, 20.0]
STATUS = [1, 1, 0, 1, 1, 0, 1, 1]
CASTS = [1.0, 0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 0.99]


def series(n=72):
    return dict(load=[float(LOADS[t % 8]) for t in range(n)], pv=[0.0 if t % 24 in (0, 22, 23) else float(max(PVS[t % 8], 1)) for t in range(n)],
                grid=[float(STATUS[t % 8]) for t in range(n)], price=[PRICES[t % 8] for t in range(n)])


def values(kind, full):
    grids = (0.0, 1.0) if KINDS[kind][1] else (0.0,)
    return list(itertools.product((0.0, 2.0, 6.0), (0.0, 4.0), grids)) if full else list(itertools.product((0.0, 6.0), (0.0, 4.0), grids))[:6]


def cases(tier):
    q = tier == 'quick'
    out = [dict(id='rank', what='rank', most=5 if q else 6, cost=50), dict(id='plans', what='plans', cost=20)]
    for kind in ('grid', 'gen', 'both', 'cheap') if q else KINDS:
        out.append(dict(id=f'one/{kind}', what='groups', kind=kind, h=1, size=1, steps=1, full=True, first=None, cost=20))
        for first in range(len(values(kind, True))):
            out.append(dict(id=f'two/{kind}/{first}', what='groups', kind=kind, h=1, size=2, steps=1, full=True, first=first, cost=40))
        for first in range(len(values(kind, not q))):
            out.append(dict(id=f'three/{kind}/{first}', what='groups', kind=kind, h=1, size=3, steps=1, full=not q, first=first, cost=100))
        for h in (0, 1, 2):
            for steps in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                out.append(dict(id=f'run/{kind}/{h}/{steps}', what='runs', kind=kind, h=h, steps=steps, cost=60 * steps))
        out.append(dict(id=f'own/{kind}', what='own', kind=kind, h=1, rich=True, cost=100))
    for kind in ('grid', 'gen'):
        out.append(dict(id=f'benchmark/{kind}', what='benchmark', kind=kind, h=1, rich=True, days=2 if q else 3, cost=400))
    return out


def check(case, ctx):
    globals()[case['what']](case, ctx)
    ctx.sample(dict(case=case['id']))


def spec_for(case, n=72):
    gen, grid, imp = KINDS[case['kind']]
    d = series(n)
    mods = [dict(c26.LOAD, ts=d['load']), dict(c26.PV, ts=d['pv']), dict(BAT)]
    if gen:
        mods.append(dict(c26.GENSETS[gen], cco2=0.0))
    if grid:
        mods.append(dict(c26.GRID, ts=[[p, 0.0, 0.25 * (t % 3), s] for t, (p, s) in enumerate(zip(d['price'], d['grid']))], imp=imp, exp=2.0, cco2=0.0))
    if case.get('rich'):        # reports only: losses, emission and battery costs, export revenue
        mods[2] = dict(c29.LOSSY)
        for m in mods[3:]:
            m['cco2'] = 0.25
        if grid:
            mods[-1]['ts'] = [[p, p * 0.5, 0.25 * (t % 3), s] for t, (p, s) in enumerate(zip(d['price'], d['grid']))]
    return dict(m=mods, llc=10.0, ogc=2.0)


def make(case, n=72):
    spec = spec_for(case, n)
    mg = c29.legacy(case, spec)
    state = np.random.get_state()
    np.random.seed(3)
    with contextlib.redirect_stdout(io.StringIO()):
        saa = SampleAverageApproximation(mg)
    np.random.set_state(state)
    return spec, mg, saa


def frame(case, rows):
    """The actual data with other values in some rows: {row: (load, pv, grid)}."""
    d = series()
    grid = d['grid'] if KINDS[case['kind']][1] else [0.0] * 72
    df = pd.DataFrame(dict(pv=d['pv'], load=d['load'], grid=grid))
    for t, (a, b, c) in rows.items():
        df.loc[t] = dict(load=a, pv=b, grid=c)
    return df


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def judge(case, spec, out, steps, rows, cast, ctx):
    """rows: one dict {row: values} per sample."""
    one = {s['k']: s for s in spec['m']}
    d = series()
    charge = BAT['charge']
    prod = out['production']
    for t, ref, control in c29.replay(case, spec, out, steps, ctx):
        plans = []
        for sample in rows:
            win = []
            for j in range(t, t + case['h'] + 1):
                a, b, c = sample.get(j, (d['load'][j], d['pv'][j], d['grid'][j])) if j > t else (d['load'][j], d['pv'][j], d['grid'][j])
                win.append(dict(load=a, pv=b, **(dict(price=d['price'][j], up=c) if 'grid' in one else {})))
            plans.append(c26.plans(win, BAT, one.get('genset'), one.get('grid')))
        costs = sorted(c26.at(v[0], charge) for v in plans)
        rank = costs[min(int(len(costs) * cast), len(costs) - 1)]
        moved = prod['battery_discharge'][t] - prod['battery_charge'][t]
        after = min(max(charge - moved, BAT['min']), BAT['max'])
        stage = out['cost']['total_cost'][t]
        gaps = []
        for v in plans:
            best = c26.at(v[0], charge)
            if abs(best - rank) <= 1e-3 * (1 + abs(rank)):
                gaps.append((stage + c26.at(v[1], after)) - best)
        ctx.expect(min(gaps) <= 3e-3 * (1 + abs(rank)), 'step {} with {} stored: the plans for the samples cost {}, the control applied at percentile {} starts none that costs {} (off by {})',
                   t, charge, costs, cast, rank, gaps)
        charge = after


def groups(case, ctx):
    spec, mg, saa = make(case)
    vals = values(case['kind'], case['full'])
    firsts = vals if case['first'] is None else [vals[case['first']]]
    for n, group in enumerate(itertools.product(firsts, *[vals] * (case['size'] - 1))):
        rows = [{1: g, 0: group[0]} if n % 2 else {1: g} for g in group]      # row 0 is known: the actual data must be used
        for cast in ([1.0, 0.5, 0.0] if case['size'] < 3 else [CASTS[n % len(CASTS)], 0.5]):
            ctx.trace = [dict(samples=group, percentile=cast)]
            ctx.traces += 1
            saa.samples = [frame(case, r) for r in rows]
            keep = [s.copy() for s in saa.samples]
            out = saa.run(forecast_steps=case['steps'], optimal_percentile=cast)
            ctx.expect(out.alg_name == 'saa', 'output of {}', out.alg_name)
            judge(case, spec, out, case['steps'], rows, cast, ctx)
            ctx.expect(all(a.equals(b) for a, b in zip(keep, saa.samples)), 'the run changed the samples')


def runs(case, ctx):
    spec, mg, saa = make(case)
    before = c29.snapshot(mg)
    steps, h = case['steps'], case['h']
    far = steps + h
    on = KINDS[case['kind']][1]
    up = 1.0 if on else 0.0
    pats = [{}, {t: (6.0, 0.0, up) for t in range(far)}, {t: (0.0, 4.0, 0.0) for t in range(far)}, {t: (6.0, 2.0, float(on and t % 2)) for t in range(1, far)},
            {t: (2.0 * (t % 3), 4.0 * (t % 2), up) for t in range(1, far)}]
    for n, group in enumerate(itertools.product(range(len(pats)), repeat=2)):
        rows = [pats[i] for i in group] + ([pats[(group[0] + 2) % 5]] if n % 3 else [])
        cast = CASTS[n % len(CASTS)]
        ctx.trace = [dict(samples=rows, percentile=cast)]
        saa.samples = [frame(case, r) for r in rows]
        keep = [s.copy() for s in saa.samples]
        for again in range(2):
            ctx.traces += 1
            out = saa.run(forecast_steps=steps, optimal_percentile=cast)
            judge(case, spec, out, steps, rows, cast, ctx)
            ctx.expect(all(a.equals(b) for a, b in zip(keep, saa.samples)), 'the run changed the samples')
    for pat in pats:
        ctx.trace = [dict(forecast=pat)]
        ctx.traces += 1
        saa.forecasts = frame(case, pat)
        keep = saa.forecasts.copy()
        out = quiet(lambda: saa.run_deterministic_on_forecast(forecast_steps=steps, verbose=steps % 2 == 0))
        judge(case, spec, out, steps, [pat], 0.0, ctx)
        ctx.expect(keep.equals(saa.forecasts), 'the run changed the forecast')
    ctx.expect(c29.snapshot(mg) == before, 'stochastic control changed the microgrid')
    for bad in (72 - h, 100):
        for fn in (lambda: saa.run(forecast_steps=bad), lambda: saa.run_deterministic_on_forecast(forecast_steps=bad)):
            try:
                quiet(fn)
            except ValueError:
                continue
            ctx.expect(False, 'a run of {} steps with a horizon of {} was accepted', bad, h + 1)
    for bad in (-0.1, 1.01):
        try:
            saa.run(forecast_steps=1, optimal_percentile=bad)
        except ValueError:
            continue
        ctx.expect(False, 'percentile {} was accepted', bad)


def own(case, ctx):
    """Samples that the control draws itself."""
    spec, mg, saa = make(case)
    ctx.expect(saa.samples is None, 'samples before the first run')
    for n in (1, 2, 4):
        saa.samples = None
        quiet(lambda: saa.run(n_samples=n, forecast_steps=1))
        ctx.expect(len(saa.samples) == n, '{} samples drawn for {}', len(saa.samples), n)
        kept = saa.samples
        out = quiet(lambda: saa.run(n_samples=n + 1, forecast_steps=1))
        ctx.expect(saa.samples is kept or len(saa.samples) == n, 'earlier samples were not used')
        out = quiet(lambda: saa.run(n_samples=n + 1, forecast_steps=1, use_previous_samples=False))
        ctx.expect(len(saa.samples) == n + 1, '{} new samples drawn for {}', len(saa.samples), n + 1)
        for t, ref, control in c29.replay(case, spec, out, 1, ctx):
            ctx.traces += 1
    out = quiet(lambda: saa.run())
    ctx.trace = [dict(run='whole data')]
    for t, ref, control in c29.replay(case, spec, out, 72 - case['h'] - 1, ctx):
        pass
    try:
        quiet(lambda: SampleAverageApproximation(mg, control_duration=8761))
    except ValueError:
        return
    ctx.expect(False, 'a control of more than a year was accepted')


def rank(case, ctx):
    spec, mg, saa = make(dict(kind='grid', h=0))

    def plan(loss):
        return HorizonOutput([dict(loss_load=loss, grid_import=0.0, grid_export=0.0)], mg, 0)
    for n in range(1, case['most'] + 1):
        for costs in itertools.product(range(n), repeat=n) if n < 5 else itertools.permutations([0, 1, 1, 3, 7, 9][:n]):
            outs = [plan(float(c)) for c in costs]
            for cast in CASTS:
                ctx.trace = [dict(costs=list(costs), percentile=cast)]
                got = saa.determine_optimal_actions(outs, percentile=cast)
                want = sorted(costs)[min(int(n * cast), n - 1)]
                ctx.expect(any(got is o for o in outs), 'the choice is none of the plans')
                ctx.close(got.cost, want * 10.0, 'cost of the plan at percentile {}', cast)
                verbose = n % 2
                ctx.step()
                ctx.state((costs, cast))
            ctx.traces += 1
        a = plan(1.0)
        for x in (0.0, 1.0, 2.0):
            b = plan(x)
            ctx.expect((a < b) == (1 < x) and (a > b) == (1 > x) and (a == b) == (1 == x), 'comparison of plans')
    ctx.expect(quiet(lambda: saa.determine_optimal_actions([a], percentile=0.0)) is a, 'only plan')


def plans(case, ctx):
    for kind in KINDS:
        for h in (0, 1, 2, 8, 23):
            spec, mg, saa = make(dict(kind=kind, h=h))
            one = {s['k']: s for s in spec['m']}
            for n, vals in enumerate(itertools.product((0.0, 1.0, 2.5), repeat=4)):
                for t in (0, 1, 5):
                    dicts = [dict(loss_load=vals[0] * (j + 1), genset=vals[1] + j, grid_import=vals[2] * (1 + j % 2), grid_export=vals[3]) for j in range(h + 1)]
                    want = 0.0
                    for j, c in enumerate(dicts):
                        want += c['loss_load'] * 10.0
                        if 'genset' in one:
                            want += c['genset'] * one['genset']['cost']
                        if 'grid' in one:
                            want += c['grid_import'] * one['grid']['ts'][t + j][0] - c['grid_export'] * one['grid']['ts'][t + j][1]
                    ctx.trace = [dict(kind=kind, step=t, controls=dicts)]
                    out = HorizonOutput(dicts, mg, t)
                    ctx.close(out.cost, want, 'cost of a plan')
                    ctx.expect(out.first_dict == dicts[0], 'first control of a plan')
                    ctx.step()
            ctx.traces += 1


def benchmark(case, ctx):
    n = 24 * case['days']
    spec = spec_for(case, n)
    for algo in ('saa', None):
        mg = c29.legacy(case, spec)
        bench = Benchmarks(mg)
        ctx.expect(not bench.has_saa_benchmark and bench.saa_output is None and not bench.outputs_dict, 'benchmarks before any was run')
        ctx.trace = [dict(algo=algo)]
        ctx.traces += 1
        if algo:
            quiet(lambda: bench.run_benchmarks(algo='saa', n_samples=2))
        else:
            quiet(lambda: bench.run_benchmarks())
            ctx.expect(bench.has_mpc_benchmark and bench.has_rule_based_benchmark and bench.outputs_dict['mpc'] is bench.mpc_output
                       and bench.outputs_dict['rbc'] is bench.rule_based_output, 'benchmarks run by default: {}', sorted(bench.outputs_dict))
        ctx.expect(set(bench.outputs_dict) == ({'saa'} if algo else {'saa', 'mpc', 'rbc'}), 'benchmarks kept: {}', sorted(bench.outputs_dict))
        ctx.expect(bench.has_saa_benchmark and bench.outputs_dict['saa'] is bench.saa_output, 'the output of stochastic control is not kept')
        for name, out in bench.outputs_dict.items():
            for _ in c29.replay(case, spec, out, n - case['h'] - 1, ctx):
                pass
        if not algo:        # perfect foresight is a lower bound over the whole data only when the horizon covers it; the order of costs must still be the reported one
            total = {k: sum(o['cost']['total_cost']) for k, o in bench.outputs_dict.items()}
            for a, b in itertools.permutations(total, 2):
                x, y = bench.outputs_dict[a], bench.outputs_dict[b]
                if abs(total[a] - total[b]) > 1e-6:
                    ctx.expect((x < y) == (total[a] < total[b]), 'outputs with costs {} are compared wrongly', total)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                bench.describe_benchmarks()
            lines = [x for x in buf.getvalue().splitlines() if ' using ' in x]
            got = sorted(float(x.rsplit(':', 1)[1]) for x in lines)
            ctx.expect(len(got) == 3 and all(abs(a - b) <= 0.0051 for a, b in zip(got, sorted(total.values()))), 'costs {} described as {}', total, lines)
