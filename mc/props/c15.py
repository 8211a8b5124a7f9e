"""Serialisation: at every point of every history, what is loaded is what was dumped, and it goes on the same way."""
import copy
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from mc import build, explore
from mc.ref import Ref
from mc.specs import BAT, BAT9, GEN, GENS, GRID, LOAD, PV, few, pick, specs
from pymgrid import Microgrid
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
from pymgrid.microgrid.reward_shaping import BatteryDischargeShaper, PVCurtailmentShaper
from pymgrid.microgrid.trajectory import (DeterministicTrajectory, FixedLengthStochasticTrajectory,
                                          StochasticTrajectory)

PID = 'C15'
RULE = ('every sequence of joint actions on small microgrids; at every node, a dump to and load from a string (and, on '
        'every path end, to files on disk): equality, state, log, and identical outcomes of every next action')


def all_specs():
    S = {k: specs()[k] for k in ('bat', 'uneven', 'bat9_pv', 'gen', 'grid3_pv', 'pv_only', 'bat_grid_pv', 'bat_gen_pv', 'all', 'two', 'two_grids',
                                 'flexgrid', 'flex_and_ctrl_grid', 'own_unb', 'window', 'negload', 'trio', 'named_pair', 'bare', 'ints', 'frames', 'big', 'order', 'late', 'trio_gens', 'long', 'long_gen', 'digits')}
    S = copy.deepcopy(S)
    for spec in S.values():
        for m in spec['m']:
            if m['k'] == 'genset':
                m['cost'] = 0.5         # a cost function cannot be written to YAML
    S['gens'] = dict(m=[LOAD, pick(GENS, [0, 1, 2], cost=0.5), dict(PV, name='pv')])
    S['gens_off'] = dict(m=[LOAD, pick(GENS, [0, 2], cost=0.75, su=2, wd=1, abort=False)])
    S['fc'] = dict(m=[dict(LOAD, fc='oracle', h=2), dict(PV, fc='oracle', h=2), pick(BAT, [2, 4]), dict(GRID, fc='oracle', h=2, acts=[0.0, -2.0])])
    S['raise'] = dict(m=[dict(LOAD, err=True), dict(PV, err=True), dict(BAT, err=True, acts=[0.0, 0.5, -0.5])])
    return S


SPECS = all_specs()
BUDGET = dict(quick=45, thorough=1500)
BOUNDS = explore.bounds(SPECS, BUDGET)


def cases(tier):
    out = explore.tree_cases(SPECS, tier, budget=BUDGET[tier])
    out += [dict(id=f'files/{k}', files=k) for k in ('bat_grid_pv', 'two', 'gens', 'fc', 'flexgrid', 'window')]
    out += [dict(id=f'modules/{k}', modules=k) for k in ('bat_grid_pv', 'two', 'gens', 'fc', 'flexgrid', 'all', 'own_unb')]
    out += [dict(id=f'funcs/{i}', funcs=i) for i in range(len(FUNCS))]
    out += [dict(id=f'env/{c}', env=c) for c in ('Discrete', 'Continuous')]
    out += [dict(id=f'shared_dir/{i}', shared=f) for i, f in enumerate(SHARED)]
    out += [dict(id='noise', noise=True)]
    out += [dict(id=f'changed/{k}', changed=k) for k in ('bat_grid_pv', 'two', 'trio')]
    return out


FUNCS = [dict(trajectory_func=DeterministicTrajectory(1, 4)), dict(trajectory_func=FixedLengthStochasticTrajectory(2)),
         dict(trajectory_func=StochasticTrajectory()), dict(reward_shaping_func=PVCurtailmentShaper()),
         dict(reward_shaping_func=BatteryDischargeShaper()),
         dict(trajectory_func=DeterministicTrajectory(0, 3), reward_shaping_func=PVCurtailmentShaper())]


SHARED = [['g0.yaml', 'g1.yaml', 'g2.yaml', 'g3.yaml'],                       # names that look alike
          ['grid.1.yaml', 'grid.2.yaml', 'grid.yaml', 'grid_1.yaml'],
          ['grid.yaml', 'grid.yml', 'grid.bak', 'grid'],
          ['a grid.yaml', 'A GRID.yaml', '.grid.yaml', 'data.yaml']]


def same(ctx, a, b, what):
    """b, loaded, shows everything that a shows."""
    ctx.expect(type(a) is type(b), '{}: loaded a {}', what, type(b).__name__)
    ctx.expect(a == b and b == a, '{}: the loaded microgrid is not equal', what)
    da, db = a.modules.to_dict(), b.modules.to_dict()
    ctx.expect(list(da) == list(db), '{}: modules {} loaded as {}', what, list(da), list(db))
    for group in ('fixed', 'flex', 'controllable'):
        ga, gb = getattr(a, group).to_dict(), getattr(b, group).to_dict()
        ctx.expect({k: len(v) for k, v in ga.items()} == {k: len(v) for k, v in gb.items()}, '{}: {} modules {}', what, group, list(gb))
    for n in da:
        ctx.expect(len(da[n]) == len(db[n]), '{}: number of {}', what, n)
        for x, y in zip(da[n], db[n]):
            ctx.expect(type(x) is type(y) and x == y, '{}: module {} differs', what, n)
            ctx.expect(x.current_step == y.current_step and x.initial_step == y.initial_step, '{}: clock of {}', what, n)
            ctx.close_arr(x.state, y.state, '{}: state of {}', what, n)
            for attr in ('min_obs', 'max_obs', 'min_act', 'max_act'):
                ctx.close_arr(getattr(x, attr), getattr(y, attr), '{}: {} of {}', what, attr, n)
            ctx.expect(x.raise_errors == y.raise_errors, '{}: raise_errors of {}', what, n)
            if hasattr(x, 'time_series'):
                ctx.close_arr(x.time_series, y.time_series, '{}: series of {}', what, n, tol=1e-12)
                ctx.expect(x.final_step == y.final_step and x.forecast_horizon == y.forecast_horizon, '{}: window of {}', what, n)
            lx, ly = x.log_dict(), y.log_dict()
            ctx.expect(set(lx) == set(ly), '{}: log of {}', what, n)
            for f in lx:
                ctx.close_arr(lx[f], ly[f], '{}: log {} of {}', what, f, n)
    sa, sb = a.state_dict(), b.state_dict()
    ctx.expect(list(sa) == list(sb), '{}: state dict', what)
    ctx.expect((a.initial_step, a.final_step, a.current_step) == (b.initial_step, b.final_step, b.current_step), '{}: window', what)
    ctx.expect(repr(a.trajectory_func) == repr(b.trajectory_func), '{}: trajectory', what)
    ctx.expect(type(a.reward_shaping_func) is type(b.reward_shaping_func), '{}: reward shaping', what)
    la, lb = a.get_log(), b.get_log()
    ctx.expect(list(la.index) == list(lb.index) and set(la.columns) == set(lb.columns), '{}: log', what)
    for c in la.columns:
        ctx.close_arr(la[c], lb[c], '{}: log column {}', what, c)


def step_both(ctx, a, b, joint, what, normalized=False):
    x = a.run(explore.to_control(joint), normalized=normalized)
    y = b.run(explore.to_control(joint), normalized=normalized)
    ctx.step(2)
    ctx.close(x[1], y[1], '{}: reward of the next step', what)
    ctx.expect(bool(x[2]) == bool(y[2]), '{}: end of the episode', what)
    ctx.expect(list(x[3]) == list(y[3]), '{}: info', what)
    for n in x[3]:
        for i, j in zip(x[3][n], y[3][n]):
            ctx.expect(set(i) == set(j), '{}: info of {}', what, n)
            for k in i:
                ctx.close(i[k], j[k], '{}: {} of {} in the next step', what, k, n)
        for i, j in zip(x[0][n], y[0][n]):
            ctx.close_arr(i, j, '{}: next observation of {}', what, n)


def check(case, ctx):
    for k, f in (('files', check_files), ('modules', check_modules), ('funcs', check_funcs), ('env', check_env),
                 ('shared', check_shared), ('noise', check_noise), ('changed', check_changed)):
        if k in case:
            return f(case, ctx)
    spec = SPECS[case['spec']]
    acts = explore.alphabet(Ref(spec))

    def node(real, ref):
        text = real.dump()
        before = real.get_log()
        loaded = Microgrid.load(text)
        pd.testing.assert_frame_equal(before, real.get_log())
        same(ctx, real, loaded, 'string')
        ctx.expect(Microgrid.load(loaded.dump()) == loaded, 'a second round trip differs')
        if ref.t < ref.final:
            for joint in acts[:4]:
                a, b = copy.deepcopy(real), copy.deepcopy(loaded)
                if real.modules.to_list()[0].raise_errors:
                    joint = acts[0]
                step_both(ctx, a, b, joint, 'after loading')
            same(ctx, a, b, 'after loading and a step')
        a, b = copy.deepcopy(real), loaded
        oa, ob = a.reset(), b.reset()
        for n in oa:
            if n not in ('balance', 'other'):
                for i, j in zip(oa[n], ob[n]):
                    ctx.close_arr(i, j, 'observation of {} at reset after loading', n)
        ctx.close(a.current_step, b.current_step, 'reset after loading')
        for _ in range(2):
            if a.current_step < ref.final:
                step_both(ctx, a, b, acts[0], 'after loading and reset')

    def on_step(real, ref, before, joint, out, rout, tot):
        node(real, ref)
        ctx.outcome((ref.t, ref.state()))

    if spec['m'][0].get('err'):
        pass
    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step, on_root=lambda r, f: node(r, f))


def check_files(case, ctx):
    """Dumps to files, in a scratch directory, reloaded from another working directory."""
    spec = SPECS[case['files']]
    acts = explore.alphabet(Ref(spec))
    T = Ref(spec).final - Ref(spec).t0
    for n in range(T + 1):
        real = build.microgrid(spec)
        for t in range(n):
            real.run(explore.to_control(acts[(3 * t) % len(acts)]), normalized=False)
        d = tempfile.mkdtemp(prefix='mc_c15_')
        cwd = os.getcwd()
        try:
            ctx.trace = [case['files'], n]
            path = os.path.join(d, 'some dir', 'grid.yaml')
            os.makedirs(os.path.dirname(path))
            with open(path, 'w') as f:
                real.dump(f)
            moved = os.path.join(d, 'elsewhere')
            for where in (os.path.dirname(path), moved):
                if where == moved:
                    shutil.move(os.path.dirname(path), moved)
                with open(os.path.join(where, 'grid.yaml')) as f:
                    loaded = Microgrid.load(f)
                same(ctx, real, loaded, 'file')
            # relative path, and a second dump over the first one
            os.chdir(moved)
            with open('grid.yaml', 'w') as f:
                loaded.dump(f)
            with open('grid.yaml') as f:
                again = Microgrid.load(f)
            os.chdir(cwd)
            same(ctx, real, again, 'file, second dump')
            if n < T:
                step_both(ctx, real, again, acts[-1], 'after loading from a file')
            ctx.step()
            ctx.state(n)
            ctx.traces += 1
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)


def check_modules(case, ctx):
    """Single modules: string and file, at every step of a history."""
    spec = SPECS[case['modules']]
    acts = explore.alphabet(Ref(spec))
    T = Ref(spec).final - Ref(spec).t0
    for n in range(T + 1):
        real = build.microgrid(spec)
        for t in range(n):
            real.run(explore.to_control(acts[(2 * t + n) % len(acts)]), normalized=False)
        d = tempfile.mkdtemp(prefix='mc_c15_')
        try:
            for i, m in enumerate(real.module_list):
                ctx.trace = [n, repr(m)]
                cls = type(m)
                loads = [cls.load(m.dump())]
                p = os.path.join(d, f'm{i}.yaml')
                with open(p, 'w') as f:
                    m.dump(f)
                with open(p) as f:
                    loads.append(cls.load(f))
                for x in loads:
                    ctx.expect(type(x) is cls and x == m, 'loaded module {} differs', m)
                    ctx.expect(x.current_step == m.current_step, 'clock of {}', m)
                    ctx.expect(tuple(x.module_type) == tuple(m.module_type), 'type of {}', m)
                    ctx.close_arr(x.state, m.state, 'state of {}', m)
                    for f in m.log_dict():
                        ctx.close_arr(x.log_dict()[f], m.log_dict()[f], 'log {} of {}', f, m)
                    ctx.step()
            ctx.state(n)
            ctx.traces += 1
        finally:
            shutil.rmtree(d)


def check_funcs(case, ctx):
    """Trajectory and reward functions survive, and go on to be used."""
    spec = dict(m=[LOAD, dict(PV, name='pv'), pick(BAT, [0, 2, 4])])
    acts = explore.alphabet(Ref(spec))
    kw = FUNCS[case['funcs']]
    for n in range(4):
        real = build.microgrid(spec, **copy.deepcopy(kw))
        np.random.seed(n)
        real.reset()
        for t in range(n):
            _, _, done, _ = real.run(explore.to_control(acts[t % len(acts)]), normalized=False)
            if done:
                break
        ctx.trace = [case['funcs'], n]
        loaded = Microgrid.load(real.dump())
        same(ctx, real, loaded, 'functions')
        for ep in range(2):
            np.random.seed(100 + ep)
            real.reset()
            np.random.seed(100 + ep)
            loaded.reset()
            ctx.close(real.current_step, loaded.current_step, 'start of the next episode')
            for t in range(6):
                d0 = real.current_step
                x = copy.deepcopy(real).run(explore.to_control(acts[t % len(acts)]), normalized=False)
                step_both(ctx, real, loaded, acts[t % len(acts)], 'functions')
                if x[2]:
                    break
        ctx.state((case['funcs'], n))
        ctx.traces += 1


def check_env(case, ctx):
    cls = dict(Discrete=DiscreteMicrogridEnv, Continuous=ContinuousMicrogridEnv)[case['env']]
    for name in ('bat_grid_pv', 'bat_gen_pv', 'flexgrid'):
        spec = SPECS[name]
        for n in range(4):
            env = build.microgrid(spec, cls=cls)
            env.reset()
            act = (lambda t: t % env.action_space.n) if case['env'] == 'Discrete' else (lambda t: np.full(env.action_space.shape, 0.25 * (t % 4)))
            for t in range(n):
                env.step(act(t))
            ctx.trace = [case['env'], name, n]
            loaded = cls.load(env.dump())
            ctx.expect(type(loaded) is cls, 'loaded a {}', type(loaded).__name__)
            ctx.expect(loaded.action_space == env.action_space, 'action space')
            ctx.expect(loaded.observation_space == env.observation_space, 'observation space')
            ctx.expect(loaded.current_step == env.current_step, 'clock')
            for c in ('balance', 'battery', 'load'):
                a, b = env.get_log(), loaded.get_log()
                ctx.expect(len(a) == len(b), 'log length')
                for col in [x for x in a.columns if x[0] == c]:
                    ctx.close_arr(a[col], b[col], 'log {}', col)
            for t in range(2):
                x, y = env.step(act(t + 1)), loaded.step(act(t + 1))
                ctx.step(2)
                ctx.close_arr(x[0], y[0], 'observation after loading')
                ctx.close(x[1], y[1], 'reward after loading')
                if x[2]:
                    break
            ctx.state((name, n))
            ctx.traces += 1


def check_shared(case, ctx):
    """Several microgrids and modules dumped to one directory do not disturb each other."""
    names = ['bat_grid_pv', 'two', 'gens', 'bat_grid_pv']
    FILES = case['shared']
    d = tempfile.mkdtemp(prefix='mc_c15_')
    try:
        reals = []
        for i, name in enumerate(names):
            spec = copy.deepcopy(SPECS[name])
            for s in spec['m']:
                if s['k'] in ('load', 'pv'):
                    s['ts'] = [x + i for x in s['ts']]
            r = build.microgrid(spec)
            acts = explore.alphabet(Ref(spec))
            for t in range(i):
                r.run(explore.to_control(acts[t % len(acts)]), normalized=False)
            reals.append(r)
        for i, r in enumerate(reals):
            with open(os.path.join(d, FILES[i]), 'w') as f:
                r.dump(f)
            for j, m in enumerate(r.module_list):
                with open(os.path.join(d, f'm{j}_{FILES[i]}'), 'w') as f:
                    m.dump(f)
        for i, r in enumerate(reals):
            ctx.trace = [i]
            with open(os.path.join(d, FILES[i])) as f:
                same(ctx, r, Microgrid.load(f), 'shared directory')
            for j, m in enumerate(r.module_list):
                with open(os.path.join(d, f'm{j}_{FILES[i]}')) as f:
                    x = type(m).load(f)
                ctx.expect(x == m, 'module {} of a shared directory differs', m)
                if hasattr(m, 'time_series'):
                    ctx.close_arr(x.time_series, m.time_series, 'series of {}', m)
                ctx.step()
            ctx.state(i)
            ctx.traces += 1
    finally:
        shutil.rmtree(d)


def check_noise(case, ctx):
    """The parameters of a noisy forecaster survive."""
    for fc, inc, rel in [(0.5, False, False), (0.5, True, False), (0.25, False, True), (1, True, True)]:
        spec = dict(m=[dict(LOAD, fc=fc, h=2, inc=inc, rel=rel), pick(BAT, [0, 2])])
        real = build.microgrid(spec)
        for n in range(3):
            ctx.trace = [fc, inc, rel, n]
            loaded = Microgrid.load(real.dump())
            a, b = real.modules.load[0], loaded.modules.load[0]
            ctx.expect(b.forecast_horizon == 2, 'horizon')
            ctx.expect((a.forecaster_increase_uncertainty, a.forecaster_relative_noise) == (b.forecaster_increase_uncertainty, b.forecaster_relative_noise), 'noise options')
            ctx.close_arr(a.forecaster.noise_std, b.forecaster.noise_std, 'noise')
            real.run({'battery': [0.0]}, normalized=False)
            ctx.step()
            ctx.state((fc, inc, rel, n))
        ctx.traces += 1


def check_changed(case, ctx):
    """The forecasters change during the episode: later steps have fields in the log that the earlier ones lack."""
    spec = SPECS[case['changed']]
    acts = explore.alphabet(Ref(spec))
    T = Ref(spec).final - Ref(spec).t0
    for first, then in ((0, 1), (2, 0), (1, 2)):
        for whole in (True, False):
            for at in range(T):
                real = build.microgrid(spec)
                set_horizon(real, first, True)
                for t in range(T):
                    if t == at:
                        set_horizon(real, then, whole)
                    real.run(explore.to_control(acts[(t + at) % len(acts)]), normalized=False)
                    ctx.trace = [case['changed'], first, then, whole, at, t]
                    loaded = Microgrid.load(real.dump())
                    same(ctx, real, loaded, 'changed forecasters')
                    if t == T - 1:
                        d = tempfile.mkdtemp(prefix='mc_c15_')
                        try:
                            with open(os.path.join(d, 'g.yaml'), 'w') as f:
                                real.dump(f)
                            with open(os.path.join(d, 'g.yaml')) as f:
                                same(ctx, real, Microgrid.load(f), 'changed forecasters, file')
                        finally:
                            shutil.rmtree(d)
                    if t + 1 < T:
                        step_both(ctx, copy.deepcopy(real), loaded, acts[0], 'after loading')
                    ctx.step()
                    ctx.state((first, then, whole, at, t))
                ctx.traces += 1


def set_horizon(mg, h, whole):
    fc = 'oracle' if h else None
    mg.set_forecaster(fc if whole else {'load': fc}, forecast_horizon=h)
