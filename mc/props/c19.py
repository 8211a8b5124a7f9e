"""Priority-list dispatch: discrete environment actions and rule-based control deploy modules in order, each as far as needed."""
import copy

import numpy as np

from mc import build
from mc.ref import Ref
from mc.specs import BAT, BAT1, BAT9, GEN, GENS, GRID, LOAD, PV, specs

from pymgrid.algos import RuleBasedControl
from pymgrid.envs import DiscreteMicrogridEnv

PID = 'C19'
RULE = ('every sequence of discrete actions (each a priority list) on small microgrids, and every priority list under rule-based control for every '
        'number of steps and a second run, in lock step with a reference dispatch of net load')
BUDGET = dict(quick=700, thorough=12000)


def all_specs():
    keep = ['bat', 'bat9_pv', 'gen', 'gens_pv', 'grid', 'grid3_pv', 'bat_grid_pv', 'bat_gen_pv', 'pv_only', 'noload', 'flexgrid', 'flex_and_ctrl_grid',
            'own_unb', 'bare', 'window', 'two_grids', 'two_gens', 'full_bat', 'negload', 'equal', 'fc', 'near', 'uneven', 'named_pair', 'big', 'ints', 'frames', 'late', 'all', 'two', 'trio', 'digits', 'tiny']
    S = {k: v for k, v in specs().items() if k in keep}
    S['sellbuy'] = dict(m=[PV, dict(BAT, charge=2.0), LOAD, dict(GRID, imp=1.0, exp=0.5)])
    S['gen0_bat'] = dict(m=[LOAD, PV, dict(GEN, min=0.0), dict(BAT, charge=1.0)])
    S['gens_bat'] = dict(m=[dict(LOAD, ts=[3.0, 8.0, 5.0, 2.0, 4.0, 9.0, 1.0]), dict(GENS, su=1, wd=1), BAT9])
    S['gens_slow'] = dict(m=[dict(LOAD, ts=[3.0, 8.0, 5.0, 2.0, 4.0, 9.0, 1.0]), dict(GENS, su=2, wd=2, on=True)])
    S['over'] = dict(m=[LOAD, dict(PV, ts=[30.0, 6.0, 20.0, 2.5, 9.0]), dict(BAT, charge=2.0, eff=0.9), dict(BAT9), dict(GRID, exp=2.0)])
    S['under'] = dict(m=[dict(LOAD, ts=[30.0, 12.0, 20.0, 22.5, 19.0]), PV, BAT, GEN, GRID])
    S['multi_load'] = dict(m=[LOAD, dict(LOAD, ts=[1.0, 1.5, 0.0, 2.0, 0.5]), dict(PV, name='pv'), dict(PV, name='wind', ts=[0.5, 0.0, 4.0, 1.0, 1.0]), BAT, GEN])
    S['exact'] = dict(m=[dict(LOAD, ts=[2.0, 5.0, 1.0, 4.0, 3.0]), dict(GEN, min=1.0, max=2.0), dict(BAT1, md=3.0, charge=3.0, soc=None)])
    S['slight'] = dict(m=[dict(LOAD, ts=[3.0, 2.005, 1.0, 1.0, 0.002]), dict(PV, ts=[2.992, 2.0, 1.0003, 1.006, 0.01]), dict(BAT, charge=5.0, eff=0.9), dict(GEN, min=0.0), GRID])
    for k in list(S):            # modules that refuse what they cannot do: a priority list never asks for it
        S[f'{k}!'] = dict(S[k], m=[dict(s, err=True) if s['k'] in ('battery', 'genset', 'grid') else s for s in S[k]['m']])
    return S


SPECS = all_specs()


def depth_for(n, T, budget):
    d = 1
    while d < T and sum(n ** i for i in range(1, d + 2)) <= budget:
        d += 1
    return d


BOUNDS = {t: f'the whole episode or <= {b} steps per microgrid; all lists under rule-based control' for t, b in BUDGET.items()}


def cases(tier):
    out = [dict(id=f'env/{k}', kind='env', spec=k, budget=BUDGET[tier], cost=5) for k in SPECS]
    return out + [dict(id=f'rbc/{k}', kind='rbc', spec=k, most=24 if tier == 'quick' else 400, cost=3) for k in SPECS]


def dispatch(ref, order):
    """The energies that the priority list asks for at the current step of the reference."""
    t, mods = ref.t, dict(ref.ctrl)
    need = sum(abs(m.s['ts'][t]) for _, m in ref.loads) - sum(m.limits_at(t)[0] for _, m in ref.flex if m.s['k'] == 'pv')
    joint = {}
    for key, act in order:
        m, k = mods[key], mods[key].s['k']
        if k == 'genset':
            on = m.next_cur(act)
            lo, hi, take = on * m.s['min'], on * m.s['max'], 0.0
        else:
            lo, (hi, take) = 0.0, (m.limits() if k == 'battery' else m.limits_at(t))
        if abs(need) <= 1e-4:
            e = 0.0
        elif need > 0:
            e = min(max(need, lo), hi)
        else:
            e = -min(-need, take)
        need -= e
        joint[key] = [act, e] if k == 'genset' else e
    return joint


def plain(pl):
    return [(tuple(e.module), int(e.action)) for e in pl]


def check(case, ctx):
    (check_env if case['kind'] == 'env' else check_rbc)(case, ctx)


def check_env(case, ctx):
    spec = SPECS[case['spec']]
    env = build.microgrid(spec, DiscreteMicrogridEnv)
    ref = Ref(spec)
    lists = [plain(pl) for pl in env.actions_list]
    T = ref.final - ref.t0
    depth = depth_for(len(lists), T, case['budget'])

    def go(env, ref, d):
        if d == 0:
            ctx.traces += 1
            return
        for a, pl in enumerate(lists):
            e, r = copy.deepcopy(env), ref.clone()
            ctx.trace.append(a)
            rout, tot = r.step(dispatch(ref, pl))
            obs, reward, done, info = e.step(a)
            ctx.step()
            new = ctx.state((r.t, r.state()))
            for key, x in rout.items():
                i = info[key[0]][key[1]]
                ctx.close(i.get('provided_energy', 0.0) - i.get('absorbed_energy', 0.0), x.get('provided', 0.0) - x.get('absorbed', 0.0), 'list {}: energy of {}', pl, key, tol=2e-6)
            ctx.close(reward, tot['reward'], 'list {}: reward', pl, tol=1e-5)
            ctx.expect(bool(done) == tot['done'], 'done is {}', done)
            ctx.outcome([(k, x.get('provided', 0.0), x.get('absorbed', 0.0)) for k, x in rout.items()])
            if new or len(lists) == 1:
                go(e, r, d - 1)
            ctx.trace.pop()

    go(env, ref, depth)
    # beyond that depth: every action repeated over the whole episode, twice, with a reset in between
    for a, pl in enumerate(lists[:60]):
        e, r = build.microgrid(spec, DiscreteMicrogridEnv), Ref(spec)
        for n in range(2 * T):
            ctx.trace = [a, n]
            rout, tot = r.step(dispatch(r, pl))
            obs, reward, done, info = e.step(a)
            ctx.step()
            ctx.close(reward, tot['reward'], 'list {}: reward at repetition {}', pl, n, tol=1e-5)
            ctx.expect(bool(done) == tot['done'], 'done is {} at repetition {}', done, n)
            if done:
                e.reset()
                r.reset()
        ctx.traces += 1
    # with an action removed, the ones left still stand for their lists
    for gone in sorted({0, len(lists) // 2, len(lists) - 1}) if len(lists) > 1 else []:
        e0 = build.microgrid(spec, DiscreteMicrogridEnv)
        e0.remove_action(gone)
        for a, pl in list(enumerate(lists[:gone] + lists[gone + 1:]))[:30]:
            e, r = copy.deepcopy(e0), Ref(spec)
            ctx.trace = [f'without {gone}', a]
            rout, tot = r.step(dispatch(r, pl))
            ctx.close(e.step(a)[1], tot['reward'], 'list {}, as action {} without {}: reward', pl, a, gone, tol=1e-5)
            ctx.step()
    ctx.sample(dict(spec=case['spec'], lists=len(lists), depth=depth))


def check_rbc(case, ctx):
    spec = SPECS[case['spec']]
    mg = build.microgrid(spec)
    before = [np.array(m.state, dtype=float).tolist() for m in mg.module_list]
    lists = RuleBasedControl(mg).get_priority_lists(True)
    step = max(1, len(lists) // case['most'])
    ref0 = Ref(spec)
    T = ref0.final - ref0.t0
    for n, pl in enumerate([None] + list(lists)[::step]):
        for steps in ((None, 0, 1, T - 1, T, T + 5) if n < 2 else (None,)):
            rbc = RuleBasedControl(mg, priority_list=pl)
            order = plain(rbc.priority_list)
            ref = Ref(spec)
            for again in range(2):
                ref.reset()
                log = rbc.run() if steps is None else rbc.run(max_steps=steps)
                ctx.trace = [order, steps, again]
                want = T if steps is None else min(T, steps)
                ctx.expect(len(log) == want, 'rule-based control for {} steps of {} has run {}', steps, T, len(log))
                for row in range(want):
                    rout, tot = ref.step(dispatch(ref, order))
                    ctx.step()
                    ctx.state((order, ref.t, ref.state()))
                    for key, x in rout.items():
                        k = ref.mods[key].s['k']
                        cols = dict(load=(None, 'load_met'), pv=('renewable_used', None), battery=('discharge_amount', 'charge_amount'),
                                    genset=('genset_production', None), grid=('grid_import', 'grid_export'), unb=('loss_load', 'overgeneration'))[k]
                        for col, what in zip(cols, ('provided', 'absorbed')):
                            if col:
                                ctx.close(log[key + (col,)].iloc[row], x.get(what, 0.0), 'list {}, step {}: {} of {}', order, row, col, key, tol=2e-6)
                    ctx.close(log[('balance', 0, 'reward')].iloc[row], tot['reward'], 'reward in step {}', row, tol=1e-5)
                ctx.traces += 1
    ctx.expect([np.array(m.state, dtype=float).tolist() for m in mg.module_list] == before, 'the microgrid handed to rule-based control has changed')
    ctx.expect(mg.current_step == ref0.t0 and len(mg.get_log()) == 0, 'the microgrid handed to rule-based control has run')
    ctx.sample(dict(spec=case['spec'], lists=len(lists), episode=T))
