"""Conversion to the legacy format and back: the converted microgrid behaves as the original in every run."""
import copy

import numpy as np

from mc import build, explore
from mc.ref import Ref
from mc.specs import BAT, BAT1, BAT9, GEN, G3, G4, GRID, LOAD, PV, pick, specs

from pymgrid import Microgrid

PID = 'C22'
RULE = ('every sequence of joint actions on the microgrid that comes back from the legacy format, in lock step with the reference model of the original; '
        'the series and parameters of the legacy object against the specification')
NAMES = dict(load='load', pv='PV', battery='battery', genset='genset', grid='grid', unb='unbalanced_energy')


def all_specs():
    S = {k: v for k, v in specs().items() if k in ('bat9_pv', 'grid3_pv', 'pv_only', 'bat_grid_pv', 'bat_gen_pv', 'own_unb', 'full_bat', 'equal', 'fc', 'big', 'tiny', 'ints',
                                                   'frames', 'long', 'negload', 'digits')}
    S['digits'] = dict(m=[dict(m, cco2=1 / 7) if m['k'] in ('genset', 'grid') else m for m in S['digits']['m']])      # the legacy format has one price
    S['frames'] = dict(m=[m for m in S['frames']['m'] if m.get('name') != 'wind'])
    S['gen_pv'] = dict(m=[LOAD, GEN, PV], llc=7.0, ogc=0.5)
    S['gen_max'] = dict(m=[LOAD, pick(GEN, [0, 2, 4], max=3.7, min=0.0), PV], llc=7.0, ogc=0.5)
    S['all'] = dict(m=[PV, pick(BAT9, [1, 4]), pick(GEN, [0, 2], co2=1.5, cco2=0.5), pick(GRID, [1, 4], cco2=0.5), LOAD])
    S['grid_pv'] = dict(m=[PV, dict(GRID, ts=[r[:3] + [0] for r in G3]), LOAD])
    S['seller'] = dict(m=[LOAD, PV, pick(BAT, [0, 4]), dict(GRID, imp=1.0, exp=6.0)])
    S['buyer'] = dict(m=[LOAD, PV, dict(GRID, imp=6.0, exp=0.0)])
    S['fc3'] = dict(m=[dict(LOAD, fc='oracle', h=3), dict(PV, fc='oracle', h=3), dict(pick(GEN, [0, 1])), pick(BAT, [0, 4])])
    S['high_min'] = dict(m=[LOAD, PV, dict(pick(BAT, [0, 2, 4]), min=5.0, max=8.0, charge=6.5)])
    S['names'] = dict(m=[dict(PV, name='sun'), dict(pick(BAT, [0, 2, 4]), name='cell'), dict(LOAD, name='house')])
    S['steps'] = dict(m=[LOAD, PV, BAT], after=2)
    S['steps_grid'] = dict(m=[LOAD, PV, pick(BAT9, [0, 2, 4]), pick(GRID, [0, 2, 3])], after=3)
    S['late'] = dict(m=[LOAD, PV, pick(BAT9, [0, 2, 4])], after=1)
    return S


SPECS = all_specs()
BUDGET = dict(quick=500, thorough=20000)
BOUNDS = explore.bounds(SPECS, BUDGET)
ASSUMPTIONS = ['microgrids with one load, one renewable module and at most one module of every other kind; equal co2 prices of grid and genset; gensets without start-up or wind-down time']


def cases(tier):
    return explore.tree_cases(SPECS, tier, BUDGET[tier]) + [dict(id='rejected', cost=1)]


def original(spec):
    """The microgrid, after `after` steps of an earlier episode (which leave their mark on the battery only)."""
    m = build.microgrid(spec)
    ref = Ref(spec)
    acts = explore.alphabet(ref)
    for n in range(spec.get('after', 0)):
        m.run(explore.to_control(acts[(2 * n + 1) % len(acts)]), normalized=False)
        ref.step(acts[(2 * n + 1) % len(acts)])
    if spec.get('after'):
        m.reset()
        ref.reset()
    return m, ref


def check(case, ctx):
    if case['id'] == 'rejected':
        return rejected(ctx)
    spec = SPECS[case['spec']]
    m, ref0 = original(spec)
    keep = copy.deepcopy(m)
    legacy = m.to_nonmodular()
    ctx.expect(m == keep, 'the conversion changed the microgrid')
    one = {s['k']: s for s in spec['m']}
    ctx.close_arr(np.asarray(legacy._load_ts, dtype=float), np.abs(one['load']['ts']), 'load series of the legacy microgrid')
    ctx.close_arr(np.asarray(legacy._pv_ts, dtype=float), np.abs(one['pv']['ts']), 'renewable series of the legacy microgrid')
    for k, a in (('battery', 'battery'), ('genset', 'genset'), ('grid', 'grid')):
        ctx.expect(bool(legacy.architecture[a]) == (k in one), 'architecture has {} = {}', a, legacy.architecture[a])
    ctx.expect(bool(legacy.architecture['PV']), 'architecture has no PV')
    par = legacy.parameters
    unb = one.get('unb', dict(llc=spec.get('llc', 10.0), ogc=spec.get('ogc', 2.0)))
    ctx.close(par['cost_loss_load'].item(), unb['llc'], 'cost of loss load')
    ctx.close(par['cost_overgeneration'].item(), unb['ogc'], 'cost of overgeneration')
    if 'battery' in one:
        b, s = legacy.battery, one['battery']
        rb = [r for r in ref0.mods.values() if r.s['k'] == 'battery'][0]
        for attr, want in (('capacity', s['max']), ('soc_min', s['min'] / s['max']), ('soc_max', 1.0), ('p_charge_max', s['mc']), ('p_discharge_max', s['md']),
                           ('efficiency', s['eff']), ('cost_cycle', s.get('cost', 0.0)), ('soc', rb.charge / s['max'])):
            ctx.close(getattr(b, attr), want, 'battery {} of the legacy microgrid', attr)
    if 'genset' in one:
        g, s = legacy.genset, one['genset']
        ctx.close(g.p_max * g.rated_power, s['max'], 'largest genset production')
        ctx.close(g.p_min * g.rated_power, s['min'], 'smallest genset production')
        ctx.close(g.fuel_cost, s['cost'], 'genset cost')
        ctx.close(g.co2, s['co2'], 'genset co2')
        ctx.close(par['cost_co2'].item(), s['cco2'], 'co2 cost')
    if 'grid' in one:
        g, s = legacy.grid, one['grid']
        ctx.close(g.power_import, s['imp'], 'grid import limit')
        ctx.close(g.power_export, s['exp'], 'grid export limit')
        ctx.close(par['cost_co2'].item(), s.get('cco2', 0.0), 'co2 cost')
        rows = [list(r) + [1.0] * (4 - len(r)) for r in s['ts']]
        for n, attr in enumerate(('_grid_price_import', '_grid_price_export', '_grid_co2', '_grid_status_ts')):
            ctx.close_arr(np.asarray(getattr(legacy, attr), dtype=float), [r[n] for r in rows], '{} of the legacy microgrid', attr)
    horizon = max(s.get('h', 0) if s.get('fc') else 0 for s in spec['m'])
    ctx.expect(legacy.horizon == horizon + 1, 'horizon of the legacy microgrid is {}, forecasts reach {} steps ahead', legacy.horizon, horizon)
    names = {k: (NAMES[r.s['k']], 0) for k, r in ref0.mods.items()}

    def make():
        return Microgrid.from_nonmodular(legacy)

    def step(real, joint):
        return real.run(explore.to_control({names[k]: v for k, v in joint.items()}), normalized=False)

    def on_root(real, ref):
        for k, r in ref0.mods.items():
            if r.s['k'] == 'battery':
                ref.mods[k].charge = r.charge
        ctx.expect({(n, i) for n, l in real.modules.iterdict() for i in range(len(l))} == set(names.values()), 'modules after the conversion: {}', real.modules.names())

    def on_step(real, ref, before, joint, out, rout, tot):
        obs, reward, done, info = out
        for key, r in rout.items():
            i = info[names[key][0]][names[key][1]]
            ctx.close(i.get('provided_energy', 0.0), r.get('provided', 0.0), 'energy provided by {}', key)
            ctx.close(i.get('absorbed_energy', 0.0), r.get('absorbed', 0.0), 'energy absorbed by {}', key)
        ctx.close(reward, tot['reward'], 'reward', tol=1e-6)
        ctx.expect(bool(done) == tot['done'], 'done is {}', done)
        for key, r in ref.mods.items():
            if r.s['k'] == 'battery':
                ctx.close(real.modules[names[key][0]][0].current_charge, r.charge, 'charge of {}', key)
            st = r.state(ref.t)
            got = real.modules[names[key][0]][0].state_dict()
            ctx.expect(list(got) == list(st), 'state of {}: {}', key, list(got))
            ctx.close_arr(list(got.values()), list(st.values()), 'state of {}', key)
        ctx.outcome((reward, tot['controllable']))

    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step, make=make, step=step, on_root=on_root)


def rejected(ctx):
    S = specs()
    base = dict(l=LOAD, p=dict(PV, name='pv'), b=pick(BAT, [0]), g=pick(GEN, [0]), r=pick(GRID, [0]))
    pairs = {}
    for a in 'pbgr':            # two of one kind, with one name or two, beside every set of other modules
        for others in range(8):
            rest = [base[c] for n, c in enumerate([c for c in 'pbgr' if c != a]) if others >> n & 1]
            for nm in (None, 'first', 'zz'):
                pairs[f'{a}{a}/{others}/{nm}'] = dict(m=[LOAD, base[a]] + rest + [dict(base[a], name=nm) if nm else base[a]])
    pairs['loads'] = dict(m=[LOAD, dict(LOAD, name='factory'), PV, base['b']])
    pairs['loads3'] = dict(m=[LOAD, dict(LOAD, name='factory'), PV, base['b'], dict(LOAD, name='a')])
    for name, spec in dict(pairs, two=S['two'], two_gens=S['two_gens'], trio=S['trio'], noload=S['noload'], flex_and_ctrl_grid=S['flex_and_ctrl_grid'], named_pair=S['named_pair']).items():
        m = build.microgrid(spec)
        ctx.trace = [name]
        try:
            m.to_nonmodular()
        except Exception:
            ctx.traces += 1
            ctx.state(name)
            continue
        ctx.expect(False, 'a microgrid that the legacy format cannot hold was converted')
