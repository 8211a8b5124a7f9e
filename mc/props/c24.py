"""The pymgrid25 benchmark microgrids: each runs as its files say, over the whole year."""
import copy
import csv
import gzip
import itertools
import os

import numpy as np
import yaml

from mc import explore
from mc.ref import Ref

import pymgrid
from pymgrid import Microgrid, MicrogridGenerator
from pymgrid.microgrid.trajectory import DeterministicTrajectory
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv

PID = 'C24'
RULE = ('every one of the 25 benchmark microgrids, loaded by number as a microgrid and as an environment: every action sequence of a small depth from the first step, from the '
        'middle and up to the end of the year, and periodic action sequences over the whole year, in lock step with a reference model read independently from the scenario files')
BOUNDS = dict(quick='all sequences over 3-27 joint actions: depth 2 at steps 0, 4000 and the last two; one periodic sequence over the whole year',
              thorough='all sequences over 3-27 joint actions: depth 3 at steps 0, 2000, 4000, 6000 and the last three; all sequences of period one and 12 of period two over the whole year')
ROOT = os.path.join(os.path.dirname(pymgrid.__file__), 'data', 'scenario', 'pymgrid25')


class Raw(yaml.SafeLoader):
    """Plain data, no pymgrid classes."""
    yaml_constructors = {k: v for k, v in yaml.SafeLoader.yaml_constructors.items() if k is None or not k.startswith('!')}
    yaml_multi_constructors = {}


Raw.add_multi_constructor('!', lambda loader, tag, node: dict(_tag=tag, **loader.construct_mapping(node, deep=True)) if isinstance(node, yaml.MappingNode)
                          else dict(_tag=tag, _file=node.value))


def read_series(n, ref):
    with gzip.open(os.path.join(ROOT, f'microgrid_{n}', ref['_file']), 'rt') as f:
        rows = list(csv.reader(f))[1:]
    return [[float(x) for x in r[1:]] for r in rows]


def spec_of(n):
    with open(os.path.join(ROOT, f'microgrid_{n}', f'microgrid_{n}.yaml')) as f:
        raw = yaml.load(f, Raw)
    mods = []
    for name, m in raw['modules']:
        p, st = m['cls_params'], m['state']
        k = dict(LoadModule='load', RenewableModule='pv', UnbalancedEnergyModule='unb', Genset='genset', BatteryModule='battery', GridModule='grid')[m['_tag']]
        s = dict(k=k, name=name)
        if k in ('load', 'pv'):
            s.update(ts=[r[0] for r in read_series(n, p['time_series'])], h=p['forecast_horizon'], fc=p['forecaster'])
        elif k == 'unb':
            s.update(llc=p['loss_load_cost'], ogc=p['overgeneration_cost'])
        elif k == 'genset':
            s.update(min=p['running_min_production'], max=p['running_max_production'], cost=p['genset_cost'], co2=p['co2_per_unit'], cco2=p['cost_per_unit_co2'],
                     su=p['start_up_time'], wd=p['wind_down_time'], on=p['init_start_up'])
            s['acts'] = [[0, 0.0], [1, 0.4 * s['max']], [1, 2 * s['max']]]
        elif k == 'battery':
            s.update(min=p['min_capacity'], max=p['max_capacity'], mc=p['max_charge'], md=p['max_discharge'], eff=p['efficiency'], cost=p['battery_cost_cycle'],
                     charge=st['current_charge'])
            s['acts'] = [-3 * s['mc'], 0.3 * s['md'], 3 * s['md']]
        else:
            s.update(imp=p['max_import'], exp=p['max_export'], ts=read_series(n, p['time_series']), cco2=p['cost_per_unit_co2'], h=p['forecast_horizon'], fc=p['forecaster'])
            s['acts'] = [-2 * s['exp'], 0.2 * s['imp'], 2 * s['imp']]
        mods.append(s)
    return dict(m=mods, unb=False, i=raw['initial_step'], f=raw['final_step'])


def cases(tier):
    out = [dict(id='numbers', kind='numbers', cost=1), dict(id='generator', kind='generator', cost=40)]
    for n in range(25):
        out.append(dict(id=f'{n}/tree', kind='tree', n=n, depth=2 if tier == 'quick' else 3,
                        at=[0, 4000, -2] if tier == 'quick' else [0, 2000, 4000, 6000, -3], cost=10))
        out.append(dict(id=f'{n}/year', kind='year', n=n, words=1 if tier == 'quick' else 39, cost=20))
    return out


def check(case, ctx):
    if case['kind'] == 'numbers':
        for bad in (-1, 25, 100, 'a', None, 0.5):
            try:
                Microgrid.from_scenario(bad)
            except (TypeError, ValueError):
                ctx.traces += 1
                continue
            ctx.expect(False, 'scenario {!r} was loaded', bad)
        return
    if case['kind'] == 'generator':
        got = MicrogridGenerator.load('pymgrid25').microgrids
        ctx.expect(len(got) == 25, '{} benchmark microgrids', len(got))
        for n, mg in enumerate(got):
            ctx.expect(mg == Microgrid.from_scenario(n), 'microgrid {} of the generator is not benchmark microgrid {}', n, n)
            ctx.traces += 1
        return
    n = case['n']
    spec = spec_of(n)
    (tree if case['kind'] == 'tree' else year)(case, ctx, n, spec)


def same_state(ctx, real, ref):
    for k, want in ref.state().items():
        got = real.modules[k[0]][k[1]].state_dict()
        for c, v in want.items():
            if c in got:
                ctx.close(float(got[c]), v, '{} of {} at step {}', c, k, ref.t, tol=1e-6)


def compare(ctx, out, rout, tot):
    obs, reward, done, info = out
    for key, r in rout.items():
        i = info[key[0]][key[1]]
        ctx.close(i.get('provided_energy', 0.0), r.get('provided', 0.0), 'energy provided by {}', key, tol=1e-6)
        ctx.close(i.get('absorbed_energy', 0.0), r.get('absorbed', 0.0), 'energy absorbed by {}', key, tol=1e-6)
    ctx.close(reward, tot['reward'], 'reward', tol=1e-6)
    ctx.expect(bool(done) == tot['done'], 'done is {}', done)


def tree(case, ctx, n, spec):
    acts = explore.alphabet(Ref(spec))
    ways = [(cls, cls.from_scenario) for cls in (Microgrid, DiscreteMicrogridEnv, ContinuousMicrogridEnv)]
    ways += [(cls, cls) for cls in (DiscreteMicrogridEnv, ContinuousMicrogridEnv)]
    ways += [(cls, lambda n, cls=cls: cls.from_scenario(n, flat_spaces=False)) for cls in (DiscreteMicrogridEnv, ContinuousMicrogridEnv)]
    ways += [(Microgrid, lambda n: Microgrid.load(f'!Microgrid\nscenario: {n}\n')), (DiscreteMicrogridEnv, lambda n: DiscreteMicrogridEnv.load(f'!Microgrid\nscenario: {n}\n'))]
    # options given along with the number
    for cls in (DiscreteMicrogridEnv, ContinuousMicrogridEnv):
        for make in (cls.from_scenario, cls):
            for flat in (True, False):
                ctx.trace = [dict(options=cls.__name__, flat=flat)]
                env = make(n, trajectory_func=DeterministicTrajectory(5, 8), **({} if flat else dict(flat_spaces=False, reward_shaping_func=lambda i, c: 42.0)))
                ctx.expect(type(env) is cls and env.flat_spaces == flat, 'options of benchmark {}: {}', n, type(env))
                env.reset()
                r = Ref(spec)
                r.t = 5
                for t in (5, 6, 7):
                    ctx.expect(env.current_step == t, 'the episode of benchmark {} is at step {} instead of {}', n, env.current_step, t)
                    rout, tot = r.step(acts[0])
                    out = Microgrid.run(env, explore.to_control(acts[0]), normalized=False)
                    ctx.close(out[1], tot['reward'] if flat else 42.0, 'reward in an episode of benchmark {}', n, tol=1e-6)
                    ctx.expect(bool(out[2]) == (t == 7), 'done is {} at step {} of [5, 8)', out[2], t)
                    ctx.step()
    for way, (cls, load) in enumerate(ways):
        ctx.trace = [dict(way=way)]
        real = load(n)
        ref = Ref(spec)
        ctx.expect(type(real) is cls, 'from_scenario of {} gave {}', cls, type(real))
        ctx.expect({(a, i) for a, l in real.modules.iterdict() for i in range(len(l))} == set(ref.mods), 'modules are {}', real.modules.names())
        ctx.expect(real.initial_step == ref.t0 and real.final_step == ref.final and real.current_step == ref.t0 and len(real.get_log()) == 0, 'scenario {} does not start afresh', n)
        same_state(ctx, real, ref)
        if way:
            # the first step does what it does in the microgrid
            for joint in acts[:3]:
                m, r = copy.deepcopy(real), ref.clone()
                rout, tot = r.step(joint)
                compare(ctx, Microgrid.run(m, explore.to_control(joint), normalized=False), rout, tot)
                ctx.step()
            continue
        for at in case['at']:
            t = at if at >= 0 else ref.final + at
            start = copy.deepcopy(real)
            r0 = ref.clone()
            r0.t = t
            start.initial_step = t
            start.reset()

            def go(real, ref, d):
                if d == 0 or ref.t >= ref.final:
                    ctx.traces += 1
                    return
                for joint in acts:
                    m, r = copy.deepcopy(real), ref.clone()
                    ctx.trace.append({f'{k[0]}.{k[1]}': v for k, v in joint.items()})
                    rout, tot = r.step(joint)
                    out = m.run(explore.to_control(joint), normalized=False)
                    ctx.step()
                    ctx.state((n, r.t, r.state()))
                    compare(ctx, out, rout, tot)
                    go(m, r, d - 1)
                    ctx.trace.pop()
            ctx.trace = [dict(step=t)]
            go(start, r0, case['depth'])


def year(case, ctx, n, spec):
    acts = explore.alphabet(Ref(spec))
    words = [(i,) for i in range(len(acts))] + [(i, (i * 5 + 7) % len(acts)) for i in range(12)]
    if case['words'] == 1:
        words = [tuple(range(n, n + len(acts)))]     # the long word through all joint actions
    for w in words[:case['words']]:
        real, ref = Microgrid.from_scenario(n), Ref(spec)
        for t in range(ref.final - ref.t0):
            joint = acts[w[t % len(w)] % len(acts)]
            rout, tot = ref.step(joint)
            out = real.run(explore.to_control(joint), normalized=False)
            ctx.step()
            ctx.trace = [dict(word=list(w), step=t)]
            compare(ctx, out, rout, tot)
            # keep the reference on the floating-point trajectory of the real battery
            for k, m in ref.mods.items():
                if m.s['k'] == 'battery':
                    b = real.modules[k[0]][k[1]]
                    ctx.close(b.current_charge, m.charge, 'charge of {}', k, tol=1e-6)
                    m.charge = b.current_charge
        ctx.expect(len(real.get_log()) == ref.final - ref.t0, 'the log has {} rows', len(real.get_log()))
        ctx.state((n, w))
        ctx.traces += 1
        ctx.sample(dict(scenario=n, word=list(w), steps=ref.final - ref.t0))
