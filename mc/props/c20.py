"""Gym contract of the environments: spaces, observations, steps, resets and rejected actions, however they are built."""
import copy
import itertools
import warnings

import gym
import numpy as np
from gym.spaces import flatten

from mc import build
from mc.core import close
from mc.props.c12 import act_range
from mc.props.c19 import dispatch, plain
from mc.ref import Ref
from mc.specs import BAT, BAT9, GEN, GRID, LOAD, PV, pick, specs

from pymgrid import Microgrid
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv

PID = 'C20'
RULE = ('both environment classes x flat and nested spaces x sets of observation keys x ways of construction (modules, microgrid, microgrid that has run, legacy microgrid, '
        'one under a trajectory, a forecaster changed later): every action sequence up to the depth, every rejected action at every point, and resets, against the reference')
DEPTH = dict(quick=2, thorough=3)
BOUNDS = {t: f'action sequences of length <= {d} (quick: 1 with more than ten actions), continuous actions over the corners and centre of the action space' for t, d in DEPTH.items()}
SPECS = ['bat', 'bare_pair', 'gens_pv', 'bat_grid_pv', 'all', 'two', 'fc', 'trio', 'named_pair', 'window', 'late', 'flexgrid', 'own_unb', 'grid', 'fc_flex', 'order', 'uneven']
KEYS = [None, ['soc'], ['current_charge', 'soc'], ['load_current', 'renewable_current', 'soc'], ['grid_status_current', 'soc', 'import_price_current'], 'load_current',
        ['load_forecast_0', 'load_current'], ['steps_until_up', 'current_status', 'load_current'],
        ['load_forecast_1', 'soc'], ['renewable_forecast_0', 'load_forecast_0', 'load_current'], ['grid_status_forecast_1'], ['export_price_current', 'export_price_forecast_0', 'renewable_current']]
ROUTES = ['modules', 'microgrid', 'from_microgrid', 'advanced', 'trajectory', 'shaped']
GIVEN = ['given', 'given_from', 'given_microgrid', 'other_from']       # trajectory and reward shaping given to the constructor, or another one to a conversion
LATER = ['forecast', 'forecast_dict', 'forecast_off', 'horizon']       # the forecaster is changed after construction
LEGACY = ['legacy', 'legacy_new', 'legacy_from']                  # from a legacy microgrid
UNB = dict(k='unb', name='unbalanced_energy', llc=7.0, ogc=1.5)
LEG = dict(legacy_bat=dict(m=[dict(LOAD, fc='oracle', h=2), dict(PV, fc='oracle', h=2, name='PV'), pick(BAT, [0, 2, 4]), UNB], unb=False),
           legacy_all=dict(m=[dict(LOAD, fc='oracle', h=1), dict(PV, fc='oracle', h=1, name='PV'), pick(BAT9, [0, 2]), pick(GEN, [0, 1]), dict(GRID, fc='oracle', h=1, cco2=0.125), UNB], unb=False))
CLS = dict(d=DiscreteMicrogridEnv, c=ContinuousMicrogridEnv)


def cases(tier):
    out = []
    S = specs()
    for name in SPECS:
        names = {c for r in Ref(S[name]).state().values() for c in r}
        for cls in 'dc':
            for flat in (True, False):
                for n, keys in enumerate(KEYS):
                    if keys is not None and not all(k in names for k in ([keys] if isinstance(keys, str) else keys)):
                        continue
                    for route in ROUTES if n == 0 else ['modules']:
                        out.append(dict(id=f'{name}/{cls}/{"flat" if flat else "nested"}/{n}/{route}', spec=name, cls=cls, flat=flat, keys=keys, route=route, deep=tier == 'thorough',
                                        depth=DEPTH[tier] if n == 0 else 1 if tier == 'quick' else 2, cost=1 + (n == 0)))
    for cls in 'dc':
        for flat in (True, False):
            lay = f'{cls}/{"flat" if flat else "nested"}'
            for name in ('bat_grid_pv', 'fc', 'flexgrid', 'pair_load', 'fc_flex'):
                for route in LATER:
                    out.append(dict(id=f'{name}/{lay}/0/{route}', spec=name, cls=cls, flat=flat, keys=None, route=route, deep=tier == 'thorough', depth=DEPTH[tier] if tier == 'thorough' else 1))
            for name in ('bat_grid_pv', 'window'):
                for route in GIVEN + ['none_from']:
                    out.append(dict(id=f'{name}/{lay}/0/{route}', spec=name, cls=cls, flat=flat, keys=None, route=route, deep=tier == 'thorough', depth=DEPTH[tier] if tier == 'thorough' else 1))
            for name in LEG:
                for route in LEGACY:
                    out.append(dict(id=f'{name}/{lay}/0/{route}', spec=name, cls=cls, flat=flat, keys=None, route=route, deep=tier == 'thorough', depth=DEPTH[tier] if tier == 'thorough' else 1))
    return out


def spec_of(name):
    if name == 'pair_load':
        return dict(m=[LOAD, pick(BAT, [0, 4]), PV, dict(LOAD, ts=[1.0, 1.5, 0.0, 2.0, 0.5])])
    return LEG.get(name) or specs()[name]


def later(case, spec):
    """The specification after the forecaster has been changed."""
    if case['route'] not in LATER:
        return spec
    fc = dict(forecast=dict(fc='oracle', h=2), forecast_dict=dict(fc='oracle', h=3), forecast_off=dict(fc=None), horizon=dict(fc='oracle', h=4))[case['route']]
    only = ('load',) if case['route'] == 'forecast_dict' else ('load', 'pv', 'grid')
    return dict(spec, m=[dict(s, **fc) if s['k'] in only else s for s in spec['m']])


def construct(case, spec):
    cls, kw = CLS[case['cls']], dict(flat_spaces=case['flat'])
    if case['keys'] is not None:
        kw['observation_keys'] = case['keys']
    r = case['route']
    if r in LATER:
        env = build.microgrid(spec, cls, **kw)
        if r == 'forecast':
            env.set_forecaster('oracle', forecast_horizon=2)
        elif r == 'forecast_dict':
            env.set_forecaster(dict(load='oracle'), forecast_horizon=3)
        elif r == 'horizon':
            env.set_module_attr('forecast_horizon', 4)
        else:
            env.set_forecaster(None)
        return env, 0
    if r in LEGACY:
        old = build.microgrid(spec).to_nonmodular()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return (cls.from_nonmodular if r == 'legacy' else cls.from_microgrid if r == 'legacy_from' else cls)(old, **kw), 0
    if r == 'modules':
        return build.microgrid(spec, cls, **kw), 0
    if r in GIVEN:
        both = dict(trajectory_func=lambda i, f: (i + 1, f), reward_shaping_func=shaper)
        if r == 'given':
            return build.microgrid(spec, cls, **kw, **both), 0
        mg = build.microgrid(spec, Microgrid, **(dict(trajectory_func=lambda i, f: (i, f - 1), reward_shaping_func=lambda s, c: 1e9) if r == 'other_from' else {}))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return (cls if r == 'given_microgrid' else cls.from_microgrid)(mg, **kw, **both), 0
    if r == 'none_from':          # given as None: none, whatever the microgrid has
        mg = build.microgrid(spec, Microgrid, trajectory_func=lambda i, f: (i + 1, f), reward_shaping_func=shaper)
        if case['flat']:
            mg.reset()
        return cls.from_microgrid(mg, trajectory_func=None, reward_shaping_func=None, **kw), int(case['flat'])
    if r == 'shaped':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return (cls if case['flat'] else cls.from_microgrid)(build.microgrid(spec, Microgrid, reward_shaping_func=shaper), **kw), 0
    traj = (lambda i, f: (i + 1, f)) if r == 'trajectory' else None
    mg = build.microgrid(spec, Microgrid, trajectory_func=traj)
    ref = Ref(spec)
    n = 0
    if r == 'advanced':
        mg.run(zero(ref), normalized=False)
        n = 1
    if r == 'trajectory':
        mg.reset()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        env = cls(mg, **kw) if r == 'microgrid' else cls.from_microgrid(mg, **kw)
    return env, n


def shaper(step_info, cost_info):
    return -2.0 * sum(i.get('provided_energy', 0.0) for infos in step_info.values() for i in infos) - 0.5


def reward_of(case, rout, tot):
    if case['route'] in GIVEN + ['shaped']:
        return -2.0 * sum(x.get('provided', 0.0) for x in rout.values()) - 0.5
    return tot['reward']


def zero(ref):
    d = {}
    for key, m in ref.ctrl:
        d.setdefault(key[0], []).append(np.array([0.0, 0.0]) if m.s['k'] == 'genset' else 0.0)
    return d


def wanted(ref, keys):
    """{(name, i): [(component, normalised value)]} of the observation."""
    keys = [keys] if isinstance(keys, str) else keys
    out = {}
    for k, m in ref.mods.items():
        st = m.state(ref.t)
        b = dict(zip(st, m.bounds()))
        norm = {c: (v - b[c][0]) / (b[c][1] - b[c][0]) if b[c][1] > b[c][0] else None for c, v in st.items()}
        out[k] = [(c, norm[c]) for c in (keys or norm) if c in norm]
    return out


def matching(may, comps):
    """Can every component be given a position of its own?"""
    owner = {}

    def place(i, seen):
        for kc in may[i]:
            if kc not in seen:
                seen.add(kc)
                if kc not in owner or place(owner[kc], seen):
                    owner[kc] = i
                    return True
        return False

    return all(place(i, set()) for i in may)


def check(case, ctx):
    spec = spec_of(case['spec'])
    env, advanced = construct(case, spec)
    spec = later(case, spec)
    ref = Ref(spec)
    keys, flat = case['keys'], case['flat']
    if case['route'] in GIVEN:
        env.reset()
    if case['route'] in GIVEN + ['trajectory']:
        ref.t0, ref.t = ref.t0 + 1, ref.t0 + 1
    for _ in range(advanced):
        ref.step({k: [0.0, 0.0] if m.s['k'] == 'genset' else 0.0 for k, m in ref.ctrl})
    ctx.expect(isinstance(env, gym.Env) and isinstance(env, Microgrid) and env.unwrapped is env, 'the environment is not a gym environment and a microgrid')
    ctx.expect(env.flat_spaces == flat, 'flat_spaces is {}', env.flat_spaces)
    ctx.expect(env.current_step == ref.t and len(env.get_log()) == 0, 'a new environment is at step {} with {} logged steps', env.current_step, len(env.get_log()))
    comps = [(k, c) for k, cs in wanted(ref, keys).items() for c, _ in cs]
    may = {}                     # position in a flat observation -> components it may stand for

    def check_obs(obs, ref, what):
        want = wanted(ref, keys)
        ctx.expect(obs in env.observation_space, '{}: observation {} is not in the observation space {}', what, obs, env.observation_space)
        if flat:
            ctx.expect(isinstance(obs, np.ndarray) and obs.shape == env.observation_space.shape == (len(comps),), '{}: observation {} instead of {} numbers', what, obs, len(comps))
            vals = {(k, c): v for k, cs in want.items() for c, v in cs}
            for i, x in enumerate(obs):
                may[i] = {kc for kc in may.get(i, set(comps)) if vals[kc] is None or close(vals[kc], x, 1e-6)}
                ctx.expect(may[i], '{}: entry {} of the observation is {} and follows none of {}', what, i, x, comps)
            cover = set().union(*may.values()) if may else set()
            ctx.expect(cover == set(comps), '{}: {} not in the observation', what, sorted(set(comps) - cover))
            ctx.expect(matching(may, comps), '{}: the observation {} does not hold each of {} once', what, obs, comps)
        else:
            names = {k[0] for k, cs in want.items() if cs or keys is None}
            ctx.expect(set(obs) == names, '{}: observation of {} instead of {}', what, sorted(obs), sorted(names))
            for n in names:
                ks = sorted(k for k in want if k[0] == n and (want[k] or keys is None))
                ctx.expect(len(obs[n]) == len(ks), '{}: {} observations of {}', what, len(obs[n]), n)
                for o, k in zip(obs[n], ks):
                    o = np.asarray(o, dtype=float).reshape(-1)
                    ctx.expect(len(o) == len(want[k]), '{}: observation {} of {}', what, o, k)
                    for (c, v), x in zip(want[k], o):
                        if v is not None:
                            ctx.close(x, v, '{}: {} of {}', what, c, k, tol=1e-6)

    # -- the action space, and what its actions mean
    def snap(e):
        log = e.get_log()
        return ([np.array(m.state, dtype=float).tolist() for m in e.module_list], [m.current_step for m in e.module_list], log.values.tolist(), len(log))

    if case['cls'] == 'd':
        ctx.expect(isinstance(env.action_space, gym.spaces.Discrete), 'action space {}', env.action_space)
        lists = [plain(pl) for pl in env.actions_list]
        acts = [(i, pl) for i, pl in enumerate(lists)]
        if len(acts) > 8:
            acts = acts[::len(acts) // 6]
        bad = [-1, env.action_space.n, env.action_space.n + 3, 0.5]
        joint_of = dispatch
    else:
        twin = build.microgrid(spec, ContinuousMicrogridEnv, flat_spaces=False)
        dims = [(k, m, act_range(m.s)) for k, m in ref.ctrl]
        n = sum(len(r) for _, _, r in dims)
        vecs = [v for v in itertools.product([0.0, 1.0], repeat=n)] + [(0.5,) * n, tuple(0.1 + 0.8 * i / n for i in range(n))]
        if len(vecs) > 20:
            vecs = vecs[::len(vecs) // 10] + vecs[-2:]
        acts = []
        for v in vecs:
            it, joint, nested = iter(v), {}, {}
            for k, m, r in dims:
                u = [next(it) for _ in r]
                nested.setdefault(k[0], []).append(np.array(u))
                den = [lo + (hi - lo) * x for x, (lo, hi) in zip(u, r)]
                joint[k] = den if len(den) == 2 else den[0]
            nested = {k: tuple(x) for k, x in nested.items()}
            ctx.expect(nested in twin.action_space, '{} is not in the nested action space', nested)
            acts.append((flatten(twin.action_space, nested) if flat else nested, joint))
        if flat:
            ctx.expect(env.action_space.shape == (n,) and np.all(env.action_space.low == 0) and np.all(env.action_space.high == 1), 'action space {}', env.action_space)
            bad = [np.full(n, 1.5), np.full(n, -0.5), np.zeros(n + 1), np.concatenate([np.zeros(n - 1), [2.0]])]
        else:
            a = acts[0][0]
            first = sorted(a)[0]
            bad = [{k: x for k, x in a.items() if k != first}, dict(a, **{first: tuple(np.asarray(x) + 1.5 for x in a[first])}), dict(a, **{first: a[first] + a[first]})]

        def joint_of(r, joint):
            return joint
    for _ in range(3):
        ctx.expect(env.action_space.sample() in env.action_space, 'sampled action')

    def rejected(e):
        before = snap(e)
        for b in bad:
            try:
                e.step(copy.deepcopy(b))
            except (ValueError, AssertionError, TypeError, KeyError):
                pass
            else:
                ctx.fail(f'the action {b} was accepted by {e.action_space}')
            ctx.step()
        ctx.expect(repr(snap(e)) == repr(before), 'a rejected action left a trace')

    def go(e, r, d):
        rejected(e)
        if d == 0 or r.t >= r.final:
            ctx.traces += 1
            x, f = copy.deepcopy(e), r.clone()
            f.reset()
            check_obs(x.reset(), f, 'reset')
            ctx.expect(x.current_step == f.t0 and len(x.get_log()) == 0, 'reset leaves step {} and {} logged steps', x.current_step, len(x.get_log()))
            rout, tot = f.step(joint_of(f, acts[0][1]))
            ctx.close(x.step(copy.deepcopy(acts[0][0]))[1], reward_of(case, rout, tot), 'reward of the first step after a reset', tol=1e-6)
            return
        for a, meaning in acts:
            x, f = copy.deepcopy(e), r.clone()
            ctx.trace.append(str(a))
            rout, tot = f.step(joint_of(r, meaning))
            arg = copy.deepcopy(a)
            res = x.step(arg)
            ctx.expect(isinstance(res, tuple) and len(res) == 4, 'a step returns {}', res)
            obs, reward, done, info = res
            ctx.step()
            ctx.state((f.t, f.state()))
            ctx.expect(repr(arg) == repr(a), 'the step changed its action')
            check_obs(obs, f, 'step')
            ctx.close(reward, reward_of(case, rout, tot), 'reward', tol=1e-6)
            ctx.expect(bool(done) == tot['done'], 'done is {}', done)
            for key, y in rout.items():
                i = info[key[0]][key[1]]
                ctx.close(i.get('provided_energy', 0.0) - i.get('absorbed_energy', 0.0), y.get('provided', 0.0) - y.get('absorbed', 0.0), 'energy of {}', key, tol=1e-6)
            ctx.expect(len(x.get_log()) == len(e.get_log()) + 1, 'the log has {} rows', len(x.get_log()))
            ctx.outcome((reward, done))
            go(x, f, d - 1)
            ctx.trace.pop()

    go(env, ref, case['depth'] if len(acts) <= 10 or case['deep'] else 1)
    ctx.sample(dict(case=case['id'], actions=len(acts)))
