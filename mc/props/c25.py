"""The built-in reward shapers, on every run of small microgrids."""
from mc import build, explore
from mc.specs import BAT, BAT1, BAT9, GEN, GRID, LOAD, PV, pick

from pymgrid.microgrid.reward_shaping import BatteryDischargeShaper, PVCurtailmentShaper

PID = 'C25'
RULE = 'every sequence of joint actions on small microgrids with each built-in reward shaper; the returned and logged reward against its formula over the reference model'


def all_specs():
    pv = dict(PV, name='pv')
    zero = dict(LOAD, ts=[0.0, 0.0, 3.0, 0.0, 2.0])
    S = {}
    S['bat_pv'] = dict(m=[LOAD, pv, BAT])
    S['bat_only'] = dict(m=[dict(LOAD, ts=[2.0, 9.0, 0.5, 2.0, 4.0]), BAT9])
    S['exact'] = dict(m=[dict(LOAD, ts=[2.5, 1.0, 2.5, 0.5, 2.5]), dict(BAT1, acts=[0.0, -1.0, 2.5, 1.0])])
    S['two_bats'] = dict(m=[LOAD, pv, pick(BAT, [0, 1, 4]), pick(BAT9, [0, 2, 3, 4])])
    S['grid'] = dict(m=[LOAD, pv, pick(BAT, [0, 2, 3, 4]), pick(GRID, [0, 2, 4])])
    S['gen'] = dict(m=[LOAD, pv, pick(BAT9, [0, 2, 4]), pick(GEN, [0, 1, 2])])
    S['two_pv'] = dict(m=[LOAD, pv, dict(PV, name='pv', ts=[0.5, 0.0, 4.0, 1.0, 1.0]), dict(PV, name='wind', ts=[2.0, 0.0, 4.0, 1.0, 1.0]), pick(BAT, [0, 2, 4])])
    S['three'] = dict(m=[LOAD, dict(LOAD, ts=[1.0, 0.5, 0.0, 2.0, 0.0]), dict(LOAD, ts=[0.5, 0.0, 0.0, 2.5, 1.0]), pv, dict(PV, name='pv', ts=[0.5, 0.0, 4.0, 1.0, 1.0]), dict(PV, name='pv', ts=[2.0, 0.25, 4.0, 1.0, 3.0]),
                         pick(BAT, [0, 4]), pick(BAT9, [0, 4]), dict(BAT1, acts=[0.0, 2.5])])
    S['zero_load'] = dict(m=[zero, pv, pick(BAT, [0, 2, 4]), pick(GRID, [0, 2, 4])])
    S['two_loads'] = dict(m=[LOAD, dict(zero, ts=[0.0, 0.0, 1.5, 2.0, 0.0]), pv, pick(BAT, [0, 3, 4])])
    S['own_unb'] = dict(m=[LOAD, pv, dict(k='unb', name='unbalanced_energy', llc=5.0, ogc=1.0), BAT1], unb=False)
    S['no_pv'] = dict(m=[LOAD, dict(GRID)])
    S['flexgrid'] = dict(m=[LOAD, pv, dict(GRID, flex=True), pick(BAT, [0, 2, 4])])
    return S


SPECS = all_specs()
BUDGET = dict(quick=700, thorough=20000)
BOUNDS = explore.bounds(SPECS, BUDGET)
SHAPERS = dict(pv=PVCurtailmentShaper, battery=BatteryDischargeShaper)


def cases(tier):
    return [dict(c, id=f'{k}/{c["id"]}', shaper=k) for k in SHAPERS for c in explore.tree_cases(SPECS, tier, BUDGET[tier])]


def expected(shaper, ref, before, rout):
    def total(kind, what, name=None):
        return sum(r.get(what, 0.0) for k, r in rout.items() if ref.mods[k].s['k'] == kind and (name is None or k[0] == name))
    if shaper == 'pv':
        return -sum(abs(m.s['ts'][before.t]) - rout[k].get('provided', 0.0) for k, m in ref.mods.items() if m.s['k'] == 'pv' and k[0] == 'pv')
    load = total('load', 'absorbed')
    if load == 0:
        return 0.0
    lost = min(total('unb', 'provided'), load)
    return (min(total('battery', 'provided'), load - lost) - lost) / load


def check(case, ctx):
    spec = SPECS[case['spec']]

    def on_step(real, ref, before, joint, out, rout, tot):
        want = expected(case['shaper'], ref, before, rout)
        ctx.close(out[1], want, 'returned reward of the {} shaper', case['shaper'])
        if case['shaper'] == 'battery':
            ctx.expect(-1 - 1e-9 <= out[1] <= 1 + 1e-9, 'the battery shaper gave {}', out[1])
        row = real.get_log().iloc[-1]
        ctx.close(row[('balance', 0, 'shaped_reward')], want, 'logged shaped reward')
        ctx.close(row[('balance', 0, 'reward')], tot['reward'], 'logged reward')
        ctx.expect(bool(out[2]) == tot['done'], 'done is {}', out[2])
        ctx.outcome(want)

    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step, make=lambda: build.microgrid(spec, reward_shaping_func=SHAPERS[case['shaper']]()))
