"""Residual dispatch: flexible modules cover exactly what is left, in order, and only the rest is unserved or dumped."""
from mc import explore
from mc.specs import BAT, GEN, GRID, LOAD, PV, few, pick, specs

PID = 'C05'
RULE = ('every sequence of joint actions on small microgrids with one to four flexible modules (renewables, flexible '
        'grids, default or user-supplied balancing), compared module by module with the reference dispatch')


def all_specs():
    S = {k: v for k, v in specs().items() if k not in ('grid3_pv', 'two_gens', 'gen')}
    S['three_pv'] = dict(m=[dict(PV, name='a'), dict(PV, name='b', ts=[2.0, 0.0, 1.0, 1.0, 0.5]), LOAD,
                            dict(PV, name='c', ts=[0.25, 4.0, 4.0, 0.0, 3.0]), BAT])
    S['same_name_pv'] = dict(m=[PV, dict(PV, ts=[2.0, 0.0, 1.0, 1.0, 0.5]), LOAD, few(GEN, 3)])
    S['two_flexgrids'] = dict(m=[LOAD, dict(GRID, flex=True, name='f1', imp=1.0, exp=0.5),
                                 dict(GRID, flex=True, name='f2', imp=0.5, exp=1.0, ts=[r[:3] for r in GRID['ts']]), PV, BAT])
    S['twin_flexgrids'] = dict(m=[LOAD, dict(GRID, flex=True, imp=1.0, exp=0.5), PV, dict(GRID, flex=True, imp=0.5, exp=1.0),
                                  dict(GRID, flex=True, imp=0.25, exp=2.0), few(GEN, 3)])
    S['twin_mixed'] = dict(m=[dict(PV, name='a'), dict(PV, name='b', ts=[2.0, 0.0, 1.0, 1.0, 0.5]), dict(PV, name='b', ts=[0.25, 4.0, 4.0, 0.0, 3.0]),
                              dict(GRID, flex=True, name='g', imp=1.0, exp=0.5), LOAD, dict(PV, name='a', ts=[0.5, 0.0, 0.5, 2.0, 0.0]), BAT])
    S['big_load'] = dict(m=[dict(LOAD, ts=[40.0, 30.0, 1e6, 12.0, 100.0]), PV, pick(BAT, [0, 2, 4]), pick(GEN, [0, 2])])
    S['big_pv'] = dict(m=[LOAD, dict(PV, ts=[40.0, 30.0, 1e6, 12.0, 100.0]), pick(BAT, [0, 2, 4]), pick(GEN, [0, 2])])
    S['zeros'] = dict(m=[dict(LOAD, ts=[0.0] * 5), dict(PV, ts=[0.0] * 5), pick(BAT, [0, 1, 4]), pick(GRID, [0, 2, 4])])
    return S


SPECS = all_specs()
BOUNDS = explore.bounds(SPECS)


def cases(tier):
    return explore.tree_cases(SPECS, tier)


def check(case, ctx):
    spec = SPECS[case['spec']]

    def on_step(real, ref, before, joint, out, rout, tot):
        info = out[3]
        t = before.t
        net = {k: info[k[0]][k[1]].get('provided_energy', 0.0) - info[k[0]][k[1]].get('absorbed_energy', 0.0) for k in rout}
        for k, r in rout.items():
            ctx.close(net[k], r.get('provided', 0.0) - r.get('absorbed', 0.0), 'energy of {} at step {}', k, t)
            if 'curtailment' in r:
                ctx.close(info[k[0]][k[1]]['curtailment'], r['curtailment'], 'curtailment of {}', k)
        flex = [k for k, _ in ref.flex]
        # Without consulting the reference dispatch: what is left over by the others is what the flexible ones move,
        unb = [k for k, m in ref.flex if m.s['k'] == 'unb']
        residual = -sum(net[k] for k in net if k not in flex)
        ctx.close(sum(net[k] for k in flex), residual, 'the flexible modules do not cover the residual')
        if residual >= 0:
            ctx.expect(all(net[k] >= -1e-9 for k in flex), 'a flexible module absorbs during a shortage: {}', net)
        else:
            ctx.expect(all(net[k] <= 1e-9 for k in flex), 'a flexible module produces during an excess: {}', net)
        # ... and energy is unserved (dumped) only when every flexible module before the balancing one is exhausted
        for u in unb:
            prior = [(k, m) for k, m in ref.flex[:flex.index(u)]]
            if net[u] > 1e-9:
                for k, m in prior:
                    ctx.close(net[k], m.limits_at(t)[0], 'loss load of {} although {} is not exhausted', net[u], k)
            elif net[u] < -1e-9:
                for k, m in prior:
                    ctx.close(-net[k], m.limits_at(t)[1], 'overgeneration of {} although {} is not exhausted', -net[u], k)
        for k, m in ref.flex:
            if m.s['k'] == 'pv':
                avail = m.limits_at(t)[0]
                i = info[k[0]][k[1]]
                ctx.close(i.get('provided_energy', 0.0) + i['curtailment'], avail, 'used and curtailed renewable of {}', k)
                ctx.expect(i['curtailment'] >= -1e-9, 'negative curtailment')
        row = real.get_log().iloc[-1]
        for k, m in ref.flex:
            names = dict(pv=('renewable_used', None), unb=('loss_load', 'overgeneration'), grid=('grid_import', 'grid_export'))[m.s['k']]
            if names[0]:
                ctx.close(row[k + (names[0],)], max(net[k], 0.0), 'logged {} of {}', names[0], k)
            if names[1]:
                ctx.close(row[k + (names[1],)], max(-net[k], 0.0), 'logged {} of {}', names[1], k)
        ctx.outcome(sorted((str(k), v) for k, v in net.items()))

    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step)
