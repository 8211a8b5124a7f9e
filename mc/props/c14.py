"""The log: one row per step run, in order, with what really happened, and never rewritten."""
import itertools

import numpy as np
import pandas as pd

from mc import build, explore
from mc.ref import Ref
from mc.specs import BAT, GRID, LOAD, PV, pick, specs
from pymgrid.envs import DiscreteMicrogridEnv
from pymgrid.microgrid.trajectory import DeterministicTrajectory

PID = 'C14'
RULE = ('every sequence of joint actions on small microgrids; after every step, every cell of the whole log against the '
        'reference history, through the frame, the dict and the per-module views')


def all_specs():
    S = specs()
    S['fc'] = dict(m=[dict(LOAD, fc='oracle', h=2), dict(PV, fc='oracle', h=2), pick(BAT, [2, 4]), dict(GRID, fc='oracle', h=2, acts=[0.0, -2.0])])
    return S


SPECS = all_specs()
BUDGET = dict(quick=400, thorough=8000)
BOUNDS = explore.bounds(SPECS, BUDGET)
ENERGY = dict(load=(None, 'load_met'), pv=('renewable_used', None), battery=('discharge_amount', 'charge_amount'),
              genset=('genset_production', None), grid=('grid_import', 'grid_export'), unb=('loss_load', 'overgeneration'))


def cases(tier):
    out = explore.tree_cases(SPECS, tier, budget=BUDGET[tier])
    out += [dict(id=f'reset/{k}', reset=k) for k in ('bat_grid_pv', 'gens_pv', 'window', 'two')]
    out += [dict(id='horizons', horizons=5 if tier == 'quick' else 7), dict(id='logger', logger=4 if tier == 'quick' else 5), dict(id='reading', reading=True), dict(id='discrete', discrete=True)]
    return out


def expected_row(before, after, rout, tot):
    """Everything the log must say about one step: the state in which it was taken (for a genset: the status that the
    step's request led to, under which it produced), energies, rewards, balance."""
    row = {}
    for k, r in rout.items():
        m = before.mods[k]
        src, snk = ENERGY[m.s['k']]
        if src:
            row[k + (src,)] = r.get('provided', 0.0)
        if snk:
            row[k + (snk,)] = r.get('absorbed', 0.0)
        row[k + ('reward',)] = r['reward']
        for f in ('co2_production', 'curtailment'):
            if f in r:
                row[k + (f,)] = r[f]
        for f, v in (after.mods[k] if m.s['k'] == 'genset' else m).state(before.t).items():
            row[k + (f,)] = v
    b = ('balance', 0)
    row[b + ('reward',)] = row[b + ('shaped_reward',)] = tot['reward']
    for part in ('fixed', 'controllable', 'overall'):
        row[b + (f'{part}_provided_to_microgrid',)], row[b + (f'{part}_absorbed_from_microgrid',)] = tot[part]
    return row


def compare(ctx, real, rows, t_end):
    log = real.get_log()
    n = len(rows)
    ctx.expect(list(log.index) == list(range(t_end - n, t_end)), 'log index {} after {} steps to {}', list(log.index), n, t_end)
    if n == 0:
        ctx.expect(len(log) == 0, 'a log without steps')
        return
    ctx.expect(set(log.columns) == set(rows[-1]), 'log columns differ: {}', sorted(map(str, set(log.columns) ^ set(rows[-1]))))
    arr = {c: log[c].to_numpy(dtype=float) for c in log.columns}
    for i, row in enumerate(rows):
        for c, v in row.items():
            ctx.close(arr[c][i], v, 'log row {} column {}', i, c)
    d = real.get_log(as_frame=False)
    ctx.expect(set(d) == set(rows[-1]), 'log dict keys')
    for c in d:
        ctx.close_arr(list(d[c].values()), arr[c], 'log dict column {}', c)
        ctx.expect(list(d[c]) == list(log.index), 'log dict steps')
    for name, L in real.modules.to_dict().items():
        for j, m in enumerate(L):
            ld = m.log_dict()
            want = {c[2]: arr[c] for c in arr if c[:2] == (name, j)}
            ctx.expect(set(ld) == set(want), 'log of {} has {}', name, sorted(ld))
            last = m.logger_last
            ctx.expect(set(last) == set(want), 'last log entry of {} has {}', name, sorted(last))
            for f in want:
                ctx.close(last[f], want[f][-1], 'last log entry {} of {}', f, name)
            for f in want:
                ctx.close_arr(ld[f], want[f], 'module log {} of {}', f, name)
            fr = m.log_frame()
            for f in want:
                ctx.close_arr(fr[f], want[f], 'module log frame {} of {}', f, name)
    pd.testing.assert_frame_equal(real.log, log)
    short = real.get_log(drop_singleton_key=True)
    single = all(c[1] == 0 for c in log.columns)
    for c in log.columns:
        ctx.close_arr(short[(c[0], c[2]) if single else c], arr[c], 'log without the module number: {}', c)
    ctx.expect(short.shape == log.shape, 'log without the module number has shape {}', short.shape)


def check(case, ctx):
    if case.get('reset'):
        return check_reset(case, ctx)
    if case.get('horizons'):
        return check_horizons(ctx, case['horizons'])
    if case.get('logger'):
        return check_logger(ctx, case['logger'])
    if case.get('reading'):
        return check_reading(ctx)
    if case.get('discrete'):
        return check_discrete(ctx)
    spec = SPECS[case['spec']]
    rows = {}

    def on_step(real, ref, before, joint, out, rout, tot):
        rows[before.t] = expected_row(before, ref, rout, tot)
        compare(ctx, real, [rows[t] for t in range(ref.t0, ref.t)], ref.t)
        ctx.outcome(sorted((str(k), v) for k, v in rows[before.t].items()))

    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step,
                 on_root=lambda real, ref: compare(ctx, real, [], ref.t))


def check_reset(case, ctx):
    """The log covers the steps since the last reset, wherever the episode was interrupted, also under a trajectory."""
    spec = SPECS[case['reset']]
    acts = explore.alphabet(Ref(spec))
    T0, T1 = Ref(spec).t0, Ref(spec).final
    for a in range(0, T1 - T0 + 1):
        for b in range(0, T1 - T0 + 1):
            real, ref = build.microgrid(spec), Ref(spec)
            for n in (a, b):
                rows = []
                for i in range(n):
                    joint = acts[(3 * i + n) % len(acts)]
                    before = ref.clone()
                    rout, tot = ref.step(joint)
                    real.run(explore.to_control(joint), normalized=False)
                    ctx.step()
                    rows.append(expected_row(before, ref, rout, tot))
                ctx.trace = [a, b, n]
                compare(ctx, real, rows, ref.t)
                ctx.state((a, b, n))
                real.reset()
                ref.reset()
            compare(ctx, real, [], ref.t)
            ctx.traces += 1
    for a in range(T0, T1):
        for b in range(a + 1, T1 + 1):
            real = build.microgrid(spec, trajectory_func=DeterministicTrajectory(a, b))
            ref = Ref(spec)
            for _ in range(2):
                real.reset()
                ref.reset()
                ref.t = a
                rows = []
                for i in range(a, b):
                    joint = acts[(5 * i) % len(acts)]
                    before = ref.clone()
                    rout, tot = ref.step(joint)
                    real.run(explore.to_control(joint), normalized=False)
                    ctx.step()
                    rows.append(expected_row(before, ref, rout, tot))
                ctx.trace = ['trajectory', a, b]
                compare(ctx, real, rows, b)
                ctx.state((a, b))
                ctx.traces += 1


def check_horizons(ctx, n):
    """Whenever and however the horizon changes, every forecast is logged at the step at which it was shown."""
    load, pv = [5.0, 3.0, 4.0, 2.0, 6.0, 1.0, 7.0, 2.5], [1.0, 6.0, 0.5, 3.0, 2.0, 4.0, 0.0, 1.5]
    for word in itertools.product((0, 1, 3), repeat=n):
        m = build.microgrid(dict(m=[dict(LOAD, ts=load), dict(PV, ts=pv), BAT]))
        ctx.trace = list(word)
        rows = []
        for t, h in enumerate(word):
            if t == 0 or h != word[t - 1]:
                m.set_forecaster('oracle' if h else None, forecast_horizon=h)
            at = lambda ts, i: ts[i] if i < len(ts) else 0.0
            rows.append({('load', 0, 'load_current'): -load[t], ('renewable', 0, 'renewable_current'): pv[t],
                         **{('load', 0, f'load_forecast_{i}'): -at(load, t + 1 + i) for i in range(h)},
                         **{('renewable', 0, f'renewable_forecast_{i}'): at(pv, t + 1 + i) for i in range(h)}})
            m.run({'battery': [0.0]}, normalized=False)
            ctx.step()
            log = m.get_log()
            ctx.expect(list(log.index) == list(range(t + 1)), 'log index {}', list(log.index))
            seen = {c for c in log.columns if 'current' in c[2] or 'forecast' in c[2] and c[0] != 'battery'}
            ctx.expect({c for r in rows for c in r} <= seen, 'log columns {}', seen)
            for c in seen - {('battery', 0, 'current_charge')}:
                for i, r in enumerate(rows):
                    v = float(log[c].iloc[i])
                    ctx.expect(np.isclose(v, r[c]) if c in r else np.isnan(v), 'log row {} column {} is {} instead of {}', i, c, v, r.get(c))
        ctx.state(word)
        ctx.traces += 1


def check_logger(ctx, n):
    """The logger itself: every sequence of entries with any of three keys; one row per entry, in all views."""
    from pymgrid.utils.logger import ModularLogger
    keys = 'abc'
    subsets = [s for r in (1, 2, 3) for s in itertools.combinations(keys, r)]
    kinds = (float, int, np.float64, lambda v: np.array([v], dtype=float)[0])
    for word in itertools.product(subsets, repeat=n):
        L, rows = ModularLogger(), []
        ctx.trace = list(word)
        for t, s in enumerate(word):
            rows.append({k: 10.0 * t + keys.index(k) for k in s})
            L.log(**{k: kinds[(t + i) % 4](rows[-1][k]) for i, k in enumerate(s)})
            ctx.step()
        want = {k: [r.get(k, np.nan) for r in rows] for k in keys if any(k in r for r in rows)}
        for what, d in (('dict', L.to_dict()), ('raw', L.raw()), ('frame', L.to_frame().to_dict(orient='list')),
                        ('reloaded', ModularLogger.from_raw(L.to_frame()).to_dict())):
            ctx.expect(set(d) == set(want), 'keys {} of the {}', sorted(d), what)
            for k in want:
                ctx.close_arr(np.nan_to_num(np.array(d[k], dtype=float), nan=-7.0), np.nan_to_num(want[k], nan=-7.0), 'column {} of the {}', k, what)
        ctx.expect(len(L) == n and len(L.flush()) == len(want) and len(L) == 0 and L.to_dict() == {}, 'length or flush')
        ctx.state(word)
        ctx.traces += 1


def check_reading(ctx):
    """Reading the log, and changing what was read, has no effect on the microgrid or later readings."""
    for name in ('bat_grid_pv', 'gens_pv', 'two'):
        spec = SPECS[name]
        acts = explore.alphabet(Ref(spec))
        a, b = build.microgrid(spec), build.microgrid(spec)
        for t in range(4):
            joint = acts[(7 * t) % len(acts)]
            x, y = a.run(explore.to_control(joint), normalized=False), b.run(explore.to_control(joint), normalized=False)
            ctx.step(2)
            ctx.close(x[1], y[1], 'reward')
            log = a.get_log()
            log.iloc[:, :] = -1.0
            d = a.get_log(as_frame=False)
            for v in d.values():
                v.clear()
            a.get_log(drop_singleton_key=True)
            a.state_dict()['load'][0].clear()
            a.state_series()
            fr = a.modules['load'][0].log_frame()
            fr.iloc[:, :] = 7.0
            pd.testing.assert_frame_equal(a.get_log(), b.get_log())
            ctx.state((name, t))
        ctx.traces += 1


def check_discrete(ctx):
    """A discrete environment logs the actions it was given, one per step, and not the ones it refused."""
    for name in ('bat_grid_pv', 'bat_gen_pv'):
        env = build.microgrid(SPECS[name], cls=DiscreteMicrogridEnv)
        n = env.action_space.n
        for seq in [(i, j) for i in range(n) for j in range(n)]:
            env.reset()
            given = []
            for i in seq:
                for bad in (-1, n, n + 3):
                    try:
                        env.step(bad)
                    except Exception:
                        pass
                    else:
                        ctx.fail(f'action {bad} accepted')
                env.step(i)
                given.append(i)
                ctx.step()
                log = env.get_log()
                col = [c for c in log.columns if c[0] == 'action']
                ctx.expect(len(log) == len(given), 'log has {} rows after {} steps', len(log), len(given))
                if col:
                    ctx.close_arr(log[col[0]].to_numpy(dtype=float), given, 'logged actions')
            ctx.state((name, seq))
            ctx.traces += 1
