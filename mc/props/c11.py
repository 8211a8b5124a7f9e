"""Observations: normalised state, of the advertised shape, inside [0, 1], for every reachable state."""
import copy

import numpy as np

from mc import build, explore
from mc.ref import Ref
from mc.specs import BAT, BAT9, GEN, GENS, GRID, LOAD, PV, pick, specs

PID = 'C11'
RULE = ('every sequence of joint actions to the end of the episode and beyond the data, on 28 small microgrids with and '
        'without forecasts: the observation after every step against the state, the bounds and the advertised spaces')


def all_specs():
    S = specs()
    for h in (1, 2, 6):
        S[f'fc{h}'] = dict(m=[dict(LOAD, fc='oracle', h=h), dict(PV, fc='oracle', h=h), pick(BAT9, [0, 2, 4]), dict(GRID, fc='oracle', h=h, acts=[0.0, 50.0])])
    S['fc_mixed'] = dict(m=[dict(LOAD, fc='oracle', h=3), PV, pick(BAT, [0, 2, 4]), dict(GRID, fc='oracle', h=1, acts=[0.0, -50.0])])
    S['fc_window'] = dict(m=[dict(LOAD, fc='oracle', h=2), dict(PV, fc='oracle', h=2), pick(BAT, [2, 4])], i=2, f=4)
    S['constant'] = dict(m=[dict(LOAD, ts=[0.0] * 5), dict(PV, ts=[3.0] * 5, fc='oracle', h=2), dict(GRID, ts=[[0.5, 0.5, 0.5, 1]] * 5, fc='oracle', h=2)])
    S['gen_delays'] = dict(m=[LOAD, pick(GENS, [0, 1, 2], su=3, wd=3)])
    S['large'] = dict(m=[dict(LOAD, ts=[1e5, 3e5, 0.0, 2e5, 4e5]), dict(PV, ts=[1e4, 2e5, 0.0, 1e5, 5e5]),
                         dict(BAT9, max=1e6, min=2e5, mc=5e5, md=2.5e5, soc=0.3, acts=[-1e7, 1e7, 1e5, -1e5])])
    return S


SPECS = all_specs()
BOUNDS = explore.bounds(SPECS)


def cases(tier):
    out = explore.tree_cases(SPECS, tier)
    out += [dict(id=f'change/{k}', change=k) for k in ('bat_grid_pv', 'fc2', 'window', 'two')]
    return out


def agree(ctx, real, ref, obs, what):
    bounds, state = ref.bounds(), ref.state()
    sd, nsd = real.state_dict(), real.state_dict(normalized=True)
    series, nseries = real.state_series(), real.state_series(normalized=True)
    space = real.microgrid_observation_space
    ctx.expect(set(sd) == {k[0] for k in state}, '{}: state of {}', what, sorted(sd))
    n = 0
    for k, st in state.items():
        m = real.modules[k[0]][k[1]]
        vals = list(st.values())
        n += len(vals)
        want = [(x - lo) / ((hi - lo) or 1) for x, (lo, hi) in zip(vals, bounds[k])]
        got_sd = sd[k[0]][k[1]]
        ctx.expect(list(got_sd) == list(st), '{}: state keys of {}: {}', what, k, list(got_sd))
        ctx.close_arr(list(got_sd.values()), vals, '{}: state of {}', what, k)
        ctx.close_arr(m.state, vals, '{}: state vector of {}', what, k)
        ctx.close_arr(list(nsd[k[0]][k[1]].values()), want, '{}: normalised state of {}', what, k)
        for f, v, w in zip(st, vals, want):
            ctx.close(series[k + (f,)], v, '{}: state series {} of {}', what, f, k)
            ctx.close(nseries[k + (f,)], w, '{}: normalised state series {} of {}', what, f, k)
        lows, highs = [b[0] for b in bounds[k]], [b[1] for b in bounds[k]]
        ctx.close_arr(m.min_obs, lows, '{}: lower bound of {}', what, k)
        ctx.close_arr(m.max_obs, highs, '{}: upper bound of {}', what, k)
        ctx.close_arr(m.observation_space.unnormalized.low, lows, '{}: observation space of {}', what, k)
        ctx.close_arr(m.observation_space.unnormalized.high, highs, '{}: observation space of {}', what, k)
        sp = space['normalized'][k[0]][k[1]]
        ctx.close_arr(space['unnormalized'][k[0]][k[1]].low, lows, '{}: microgrid observation space of {}', what, k)
        ctx.close_arr(space['unnormalized'][k[0]][k[1]].high, highs, '{}: microgrid observation space of {}', what, k)
        if obs is not None:
            o = np.asarray(obs[k[0]][k[1]], dtype=float).reshape(-1)
            ctx.close_arr(o, want, '{}: observation of {}', what, k)
            ctx.expect(o.shape == sp.shape and o.shape == m.observation_space['normalized'].shape,
                       '{}: observation of {} has shape {}', what, k, o.shape)
            ctx.expect(np.all(o >= 0) and np.all(o <= 1), '{}: observation {} of {} outside [0, 1]', what, o, k)
            ctx.expect(o in sp, '{}: observation {} of {} not in its space', what, o, k)
    ctx.expect(len(series) == n, '{}: state series has {} entries', what, len(series))


def check(case, ctx):
    if case.get('change'):
        return check_change(case, ctx)
    spec = SPECS[case['spec']]

    def on_step(real, ref, before, joint, out, rout, tot):
        agree(ctx, real, ref, out[0], 'after a step')
        ctx.outcome({str(k): np.asarray(out[0][k[0]][k[1]]).tolist() for k in rout})

    def on_root(real, ref):
        agree(ctx, real, ref, None, 'at the start')
        r = copy.deepcopy(real)
        agree(ctx, real, ref, r.reset(), 'after reset')

    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step, on_root=on_root)


def replace_series(real, spec):
    """Each module gets new data: the old in reverse, three times as large."""
    seen = {}
    for s in spec['m']:
        name = s.get('name') or build.DEFAULT_NAMES[s['k']]
        i = seen[name] = seen.get(name, -1) + 1
        if s['k'] in ('load', 'pv', 'grid'):
            s['ts'] = [[3 * x for x in r[:3]] + list(r[3:]) for r in reversed(s['ts'])] if s['k'] == 'grid' else [3 * x for x in reversed(s['ts'])]
            real.modules[name][i].time_series = np.array(s['ts'], dtype=float)


def check_change(case, ctx):
    """Changing the forecaster in the middle of an episode: observations and spaces follow at once."""
    spec = SPECS[case['change']]
    acts = explore.alphabet(Ref(spec))
    T = Ref(spec).final - Ref(spec).t0
    for when in range(T):
        for fc, h in ((None, 3), ('oracle', 1), ('oracle', 4)):
            for how in ('one', 'dict', 'attr', 'series'):
                if how == 'attr' and fc is None:
                    continue
                real, s2 = build.microgrid(spec), copy.deepcopy(spec)
                for t in range(T):
                    ctx.trace = [when, fc, h, how, t]
                    if t == when:
                        names = []
                        for s in s2['m']:
                            if s['k'] in ('load', 'pv', 'grid'):
                                s['fc'], s['h'] = fc, h
                                names.append(s.get('name') or build.DEFAULT_NAMES[s['k']])
                        if how == 'attr':
                            real.set_module_attr('forecast_horizon', h)
                        else:
                            real.set_forecaster({n: fc for n in names} if how == 'dict' else fc, forecast_horizon=h)
                        if how == 'series':
                            replace_series(real, s2)
                    ref = Ref(s2 if t >= when else spec)
                    for a in range(t):
                        ref.step(acts[a % len(acts)])
                    agree(ctx, real, ref, None, f'before step {t}')
                    joint = acts[t % len(acts)]
                    out = real.run(explore.to_control(joint), normalized=False)
                    ref.step(joint)
                    ctx.step()
                    ctx.state((when, fc, h, t))
                    agree(ctx, real, ref, out[0], f'after step {t}')
                ctx.traces += 1
