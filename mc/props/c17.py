"""Sampling: every action that can be drawn is valid, complete, and with strict bounds feasible; the extremes are reachable."""
import copy
import itertools

import numpy as np

from mc import build, chance, explore
from mc.ref import Ref
from mc.specs import BAT, BAT1, BAT9, GEN, GENS, GRID, LOAD, PV, pick, specs

PID = 'C17'
RULE = ('every outcome of the random draws behind sampled actions (over a grid of the unit interval that includes both ends), at every '
        'point of every short history of single modules and of microgrids; strict samples must be carried out unclipped')
DEPTH = dict(quick=2, thorough=3)
BOUNDS = {t: f'histories of length <= {d} (modules: {d + 1}); draws in {{0, 1/4, 1/2, 3/4, 1-eps}} for single modules, {{0, 1/2, 1-eps}} jointly' for t, d in DEPTH.items()}
MODS = dict(
    bat=BAT, bat9=BAT9, bat1=BAT1, bat_asym=dict(BAT, mc=0.5, md=7.0, eff=0.8, acts=[0.0, -50.0, 50.0, 2.0]), bat_empty=dict(BAT, charge=1.0), bat_full=dict(BAT, charge=9.0),
    bat_int=dict(BAT, min=0, max=10, mc=5, md=5, eff=0.9, charge=5),
    gen=GEN, gens=GENS, gen_flat=dict(GEN, min=3.0, max=3.0), gen_flats=dict(GENS, min=2.5, max=2.5), gen_on=dict(GENS, on=True, su=2), gen_noabort=dict(GENS, abort=False, su=2, wd=2), gen0=dict(GEN, min=0.0),
    grid=GRID, grid_in=dict(GRID, exp=0.0), grid_out=dict(GRID, imp=0.0), grid0=dict(GRID, imp=0.0, exp=0.0), grid_fc=dict(GRID, fc='oracle', h=2),
    grid_wide=dict(GRID, imp=1000.0, exp=0.5))
GRIDS = ['bat', 'bare_pair', 'gens_pv', 'bat_grid_pv', 'two', 'two_gens', 'flexgrid', 'trio', 'uneven', 'named_pair', 'order', 'window', 'ints', 'pv_only', 'fc', 'big']
JOINT = [0.0, 0.5, 1 - 2 ** -53]


def cases(tier):
    d = DEPTH[tier]
    return [dict(id=f'module/{k}', module=k, depth=d + 1) for k in MODS] + [dict(id=f'mg/{k}', mg=k, depth=d, cost=5) for k in GRIDS]


def requested(m, action, s):
    """The energy an (in range) normalised action asks for."""
    x = m.from_normalized(action, act=True)
    return float(np.asarray(x).reshape(-1)[-1])


def check_sample(ctx, m, s, action, strict):
    a = np.asarray(action, dtype=float).reshape(-1)
    ctx.expect(len(a) == (2 if s['k'] == 'genset' else 1), 'sampled {} for {}', action, s['k'])
    ctx.expect(np.isfinite(a).all() and (a >= -1e-9).all() and (a <= 1 + 1e-9).all(), 'sampled {} outside of [0, 1]', action)
    if m.action_space.shape == a.shape:
        ctx.expect(np.clip(a, 0, 1) in m.action_space.normalized, 'sampled {} outside of the action space', action)
    x = copy.deepcopy(m)
    want = requested(m, action, s)
    _, _, _, info = x.step(np.clip(a, 0, 1) if s['k'] == 'genset' else float(np.clip(a[0], 0, 1)), normalized=True)
    ctx.step()
    got = info.get('provided_energy', 0.0) - info.get('absorbed_energy', 0.0)
    if strict:
        ctx.close(got, want, 'a strictly bounded sample {} was not carried out as requested', action)
    ctx.outcome((s['k'], want, got))
    return want, got, x


def check(case, ctx):
    if 'mg' in case:
        return check_mg(case, ctx)
    s = MODS[case['module']]
    is_gen = s['k'] == 'genset'

    def node(m):
        for strict in (False, True):
            res, drawn = [], 0
            for taken, action in chance.outcomes(lambda: m.sample_action(strict_bound=strict)):
                ctx.trace[-1:] = [[strict, taken]]
                drawn += len(taken)
                res.append((taken, action) + check_sample(ctx, m, s, action, strict))
            if not drawn:
                continue
            # the ends of the draw reach the ends of what is possible
            if is_gen:
                for goal in (0, 1):
                    rs = [r for r in res if int(round(float(r[1][0]))) == goal]
                    ctx.expect(rs, 'status {} can never be sampled', goal)
                    probe = copy.deepcopy(m)
                    hi = probe.step(np.array([goal, 1e9]), normalized=False)[3]['provided_energy']
                    probe = copy.deepcopy(m)
                    lo = probe.step(np.array([goal, 0.0]), normalized=False)[3]['provided_energy']
                    ctx.close(max(r[3] for r in rs), hi, 'largest sampled production with status request {} (strict={})', goal, strict)
                    ctx.close(min(r[3] for r in rs), lo, 'smallest sampled production with status request {} (strict={})', goal, strict)
            else:
                hi = copy.deepcopy(m).step(1e9, normalized=False)[3].get('provided_energy', 0.0)
                lo = -copy.deepcopy(m).step(-1e9, normalized=False)[3].get('absorbed_energy', 0.0)
                ctx.close(max(r[3] for r in res), hi, 'largest sampled energy (strict={})', strict)
                ctx.close(min(r[3] for r in res), lo, 'smallest sampled energy (strict={})', strict)

    acts = s['acts']
    T = 4 if s['k'] == 'grid' else 9
    for n in range(case['depth'] + 1):
        for hist in itertools.product(range(len(acts)), repeat=min(n, T)):
            m = build.module(s)
            for i in hist:
                m.step(np.array(acts[i], dtype=float) if is_gen else float(acts[i]), normalized=False)
            ctx.trace = [list(hist), None]
            if ctx.state((np.array(m.state, dtype=float).tolist(), m.current_step if s['k'] == 'grid' else 0)):
                node(m)
                ctx.traces += 1
    ctx.sample(dict(module=case['module'], depth=case['depth']))


def check_mg(case, ctx):
    spec = specs()[case['mg']]
    ref0 = Ref(spec)
    acts = explore.alphabet(ref0)
    picks = [acts[0], acts[-1], acts[len(acts) // 2]][:max(1, len(acts))]
    kinds = {}
    for (name, i), mod in ref0.ctrl:
        kinds.setdefault(name, []).append(mod.s)
    for n in range(case['depth'] + 1):
        for hist in itertools.product(range(len(picks)), repeat=n):
            m = build.microgrid(spec)
            for i in hist:
                m.run(explore.to_control(picks[i]), normalized=False)
            if not ctx.state([np.array(x.state, dtype=float).tolist() for x in m.module_list]):
                continue
            ctx.traces += 1
            ctx.trace = [list(hist)]
            empty = m.get_empty_action()
            ctx.expect({k: len(v) for k, v in empty.items()} == {k: len(v) for k, v in kinds.items()}, 'the empty action is {}', empty)
            ctx.expect(all(x is None for v in empty.values() for x in v), 'the empty action is {}', empty)
            ctx.expect(set(m.get_empty_action(sample_flex_modules=True)) >= set(kinds), 'the empty action with flexible modules')
            for strict in (False, True):
                unit = JOINT if sum(2 if s['k'] == 'genset' else 1 for v in kinds.values() for s in v) <= 5 else JOINT[::2]
                for taken, action in chance.outcomes(lambda: m.sample_action(strict_bound=strict), unit=unit):
                    ctx.trace = [list(hist), strict, taken]
                    ctx.expect({k: len(v) for k, v in action.items()} == {k: len(v) for k, v in kinds.items()}, 'sampled {}', action)
                    x = copy.deepcopy(m)
                    _, _, _, info = x.run(action, normalized=True)
                    ctx.step()
                    for name, ss in kinds.items():
                        for j, s in enumerate(ss):
                            a = np.asarray(action[name][j], dtype=float).reshape(-1)
                            ctx.expect((a >= -1e-9).all() and (a <= 1 + 1e-9).all(), 'sampled {} for {}', a, name)
                            if strict:
                                got = info[name][j].get('provided_energy', 0.0) - info[name][j].get('absorbed_energy', 0.0)
                                ctx.close(got, requested(m.modules[name][j], action[name][j], s), 'strict sample {} of {} {}', a, name, j)
                for taken, action in chance.outcomes(lambda: m.sample_action(strict_bound=strict, sample_flex_modules=True), unit=[0.5]):
                    ctx.expect(set(action) >= set(kinds), 'sampled {}', sorted(action))
                    for name, v in action.items():
                        ctx.expect(len(v) == len(m.modules[name]), 'sampled {} for {}', v, name)
