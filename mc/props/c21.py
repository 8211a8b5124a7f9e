"""Equality of modules, microgrids and environments: every pair of a family of configurations and histories."""
import copy
import itertools

import numpy as np

from mc import build
from mc.explore import alphabet, to_control
from mc.ref import Ref
from mc.specs import BAT, BAT1, BAT9, GEN, GENS, G3, GRID, LOAD, PV, specs

from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
from pymgrid import Microgrid
from pymgrid.microgrid.trajectory import DeterministicTrajectory, FixedLengthStochasticTrajectory

PID = 'C21'
RULE = ('every ordered pair of (module configuration, history of up to N requests) within and across classes, and every ordered pair of '
        '(microgrid configuration, history), compared with == and != against equality of configuration and history')
BOUNDS = dict(quick='modules: 4-9 variants per class, histories up to 2 requests; microgrids: 14 variants, histories up to 2 steps',
              thorough='modules: histories up to 3 requests; microgrids: histories up to 3 steps')


def variants(kind):
    if kind == 'load' or kind == 'pv':
        b = dict(LOAD if kind == 'load' else PV)
        return [b, dict(b, ts=b['ts'] + [7.0]), dict(b, ts=[9.0] + b['ts'][1:]), dict(b, ts=b['ts'][:-1] + [1.0]), dict(b, fc='oracle'), dict(b, fc='oracle', h=2),
                dict(b, fc=0.5), dict(b, fc=0.25), dict(b, fc=0.5, inc=True), dict(b, fc=0.5, rel=True), dict(b, i=1), dict(b, f=3), dict(b, err=True)]
    if kind == 'battery':
        b = dict(BAT)
        return [b] + [dict(b, **{k: v}) for k, v in (('min', 2.0), ('max', 12.0), ('mc', 3.5), ('md', 3.5), ('eff', 0.6), ('cost', 1.0), ('charge', 6.0), ('i', 1), ('err', True))]
    if kind == 'genset':
        b = dict(GEN, su=1, wd=1)
        return [b] + [dict(b, **{k: v}) for k, v in (('min', 2.0), ('max', 6.0), ('cost', 0.75), ('co2', 1.0), ('cco2', 1.0), ('su', 2), ('wd', 0), ('on', False), ('abort', False), ('i', 2), ('err', True))]
    if kind == 'grid':
        b = dict(GRID)
        ts = [r[:] for r in GRID['ts']]
        ts[4][3] = 1 - ts[4][3]
        return [b, dict(b, flex=True), dict(b, imp=5.0), dict(b, exp=4.0), dict(b, ts=ts), dict(b, ts=G3), dict(b, ts=b['ts'][:4]), dict(b, cco2=1.0), dict(b, fc='oracle'),
                dict(b, fc='oracle', h=2), dict(b, i=1), dict(b, f=3), dict(b, err=True)]
    b = dict(k='unb', llc=10.0, ogc=2.0)
    return [b, dict(b, llc=9.0), dict(b, ogc=1.0), dict(b, i=1)]


MENU = dict(load=[None], pv=[1.0, 0.5], battery=[0.0, -2.0, 2.0], genset=[[0, 0.0], [1, 2.0]], grid=[0.0, 1.0, -1.0], unb=[0.0, 1.0, -1.0])


def module_objects(kind, depth):
    out = []
    for n, v in enumerate(variants(kind)):
        if v.get('err'):
            words = [()]
        else:
            words = [w for d in range(depth + 1) for w in itertools.product(range(len(MENU[kind])), repeat=d)] if n < 2 else [(), (0,), (len(MENU[kind]) - 1,)]
        for w in words:
            h = made(v, w)[1]  # requests beyond the limits have the same effect as the limit
            out.append(((kind, n, h), lambda v=v, w=w: made(v, w)[0]))
    return out


def made(v, word):
    np.random.seed(0)
    m = build.module(v)
    m_hist = []
    for i in word:
        a = MENU[v['k']][i]
        if v['k'] == 'load':
            out = m.step(np.array([]), normalized=False)
        elif v['k'] == 'genset':
            out = m.step(np.array(a, dtype=float), normalized=False)
        else:
            if v['k'] == 'grid' and m.current_status == 0 or (v['k'] == 'pv' and m.max_production < a):
                a = 0.0
            out = m.step(float(a), normalized=False)
        m_hist.append((a[0] if v['k'] == 'genset' else 0, out[3].get('provided_energy', 0.0), out[3].get('absorbed_energy', 0.0)))
    return m, tuple(m_hist)


def mg_variants():
    S = specs()
    out = [('plain', S['bat_grid_pv'], {})]
    out += [('llc', S['bat_grid_pv'], dict(loss_load_cost=3.0)), ('ogc', S['bat_grid_pv'], dict(overgeneration_cost=3.0)),
            ('traj', S['bat_grid_pv'], dict(trajectory_func=DeterministicTrajectory(0, 4))), ('traj2', S['bat_grid_pv'], dict(trajectory_func=DeterministicTrajectory(0, 3))),
            ('traj3', S['bat_grid_pv'], dict(trajectory_func=FixedLengthStochasticTrajectory(4)))]
    b = S['bat_grid_pv']
    out += [('noload', dict(m=b['m'][1:]), {}), ('more', dict(m=b['m'] + [dict(LOAD)]), {}), ('pv2', dict(m=b['m'] + [dict(PV, name='pv2')]), {}),
            ('battery', dict(m=[m if m['k'] != 'battery' else dict(m, max=12.0) for m in b['m']]), {}),
            ('named', dict(m=[m if m['k'] != 'battery' else dict(m, name='store') for m in b['m']]), {}),
            ('window', dict(b, i=1, f=4), {}),
            # the same episode, chosen by the trajectory from different windows
            ('episode', b, dict(trajectory_func=DeterministicTrajectory(2, 4), reset=True)), ('episode_i', dict(b, i=1), dict(trajectory_func=DeterministicTrajectory(2, 4), reset=True)),
            ('episode_f', dict(b, f=4), dict(trajectory_func=DeterministicTrajectory(2, 4), reset=True)),
            ('longer', dict(m=[m if 'ts' not in m else dict(m, ts=m['ts'] + [m['ts'][0]]) for m in b['m']]), {}),
            ('oracle', dict(m=[m if m['k'] != 'load' else dict(m, fc='oracle') for m in b['m']]), {}), ('gen', S['gen'], {}), ('bat', S['bat'], {}), ('two', S['two'], {})]
    return out


def mg_objects(depth, clss=(Microgrid,)):
    out = []
    for cls in clss:
        for n, (name, spec, kw) in enumerate(mg_variants()):
            acts = alphabet(Ref(spec))
            menu = [0, len(acts) - 1]
            for w in [w for d in range((depth if n < 1 else 1) + 1) for w in itertools.product(menu, repeat=d)]:
                out.append(((cls.__name__, name, w), lambda cls=cls, spec=spec, kw=kw, w=w: mg_made(cls, spec, kw, w)))
    return out


def mg_made(cls, spec, kw, word):
    np.random.seed(0)
    kw = dict(kw)
    reset = kw.pop('reset', False)
    m = build.microgrid(spec, cls, **copy.deepcopy(kw))
    if reset:
        m.reset()
    acts = alphabet(Ref(spec))
    for i in word:
        Microgrid.run(m, to_control(acts[i]), normalized=False)
    return m


def cases(tier):
    d = 2 if tier == 'quick' else 3
    return [dict(id=f'module/{k}', kind=k, depth=d, cost=3) for k in MENU] + [dict(id='across', depth=1, cost=1)] + \
        [dict(id='microgrid', depth=d, cost=9), dict(id='env', depth=1, cost=9)]


def check(case, ctx):
    if case['id'] == 'microgrid':
        objs = mg_objects(case['depth'])
    elif case['id'] == 'env':
        objs = [o for o in mg_objects(case['depth'], (Microgrid, DiscreteMicrogridEnv, ContinuousMicrogridEnv)) if o[0][1] in ('plain', 'traj', 'gen', 'battery', 'longer')]
    elif case['id'] == 'across':
        objs = [o for k in MENU for o in module_objects(k, 1)[:2]]
        objs += mg_objects(0)[:2]
        objs += [(('other', x), lambda x=x: x) for x in (None, 1, 'load', ())]
    else:
        objs = module_objects(case['kind'], case['depth'])
    left = [(k, f()) for k, f in objs]
    right = [(k, f()) for k, f in objs]
    for (ka, a), (kb, b) in itertools.product(left, right):
        if ka[0] == 'other' and kb[0] == 'other':
            continue
        ctx.trace = [ka, kb]
        want = ka == kb
        eq, ne = a == b, a != b
        ctx.step()
        ctx.expect(isinstance(bool(eq), bool) and bool(eq) == want, '{} == {} is {}', ka, kb, eq)
        ctx.expect(bool(ne) == (not want), '{} != {} is {}', ka, kb, ne)
    for ka, a in left:
        if ka[0] == 'other':
            continue
        ctx.state(ka)
        ctx.trace = [ka, 'copy']
        b = copy.deepcopy(a)
        ctx.expect(a == b and b == a and a == a, '{} is not equal to its copy', ka)
        ctx.traces += 1
    ctx.sample(dict(objects=len(left), pairs=len(left) ** 2))
