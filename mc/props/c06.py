"""Reward accounting: the step reward is the sum of the module rewards, each as documented; shaping sees the truth."""
import copy

from mc import build, explore
from mc.specs import specs

PID = 'C06'
RULE = ('every sequence of joint actions on 21 small microgrids without reward shaping, and with a recording reward '
        'shaping function; every module cost against the reference')
SPECS = specs()
SHAPED = ['bat_grid_pv', 'bat_gen_pv', 'two', 'own_unb', 'flexgrid', 'gens_pv', 'pv_only']
BOUNDS = explore.bounds(SPECS)


def cases(tier):
    out = explore.tree_cases(SPECS, tier)
    for c in explore.tree_cases({k: SPECS[k] for k in SHAPED}, tier, budget=300 if tier == 'quick' else 5000):
        out.append(dict(c, id='shaped/' + c['id'], shaped=True))
    return out


class Recorder:
    """A user-supplied reward function that depends on everything it is given."""
    def __init__(self):
        self.calls = []

    def __call__(self, step_info, cost_info):
        r = 0.0
        for n, (name, infos) in enumerate(sorted(step_info.items())):
            for j, i in enumerate(infos):
                for m, (k, v) in enumerate(sorted(i.items())):
                    r += (1 + n + 3 * j + 7 * m) * float(v)
        self.calls.append((copy.deepcopy(step_info), copy.deepcopy(cost_info), r))
        return r

    def __deepcopy__(self, memo):
        return Recorder()


def check(case, ctx):
    spec = SPECS[case['spec']]
    shaped = case.get('shaped', False)

    def marginal(key, m):
        s = m.s
        if s['k'] == 'unb':
            return s['llc'], s['ogc']
        return None

    def on_step(real, ref, before, joint, out, rout, tot):
        obs, reward, done, info = out
        log = real.get_log()
        row = log.iloc[-1]
        total = 0.0
        for k, r in rout.items():
            got = row[k + ('reward',)]
            ctx.close(got, r['reward'], 'reward of {} at step {}', k, before.t)
            total += got
            if 'co2_production' in r:
                ctx.close(info[k[0]][k[1]]['co2_production'], r['co2_production'], 'co2 of {}', k)
                ctx.close(row[k + ('co2_production',)], r['co2_production'], 'logged co2 of {}', k)
        ctx.close(row[('balance', 0, 'reward')], total, 'the step reward is not the sum of the module rewards')
        ctx.close(tot['reward'], total, 'step reward')
        if not shaped:
            ctx.close(reward, total, 'returned reward')
            ctx.close(row[('balance', 0, 'shaped_reward')], total, 'logged shaped reward without a shaping function')
        else:
            f = real.reward_shaping_func
            ctx.expect(f.calls, 'the shaping function was not used')
            si, ci, r = f.calls[-1]
            ctx.close(reward, r, 'returned reward is not the shaped reward')
            ctx.close(row[('balance', 0, 'shaped_reward')], r, 'logged shaped reward')
            ctx.expect(set(si) == {k[0] for k in rout}, 'shaping function got modules {}', sorted(si))
            for k in rout:
                want, got = info[k[0]][k[1]], si[k[0]][k[1]]
                ctx.expect(set(want) == set(got) and all(float(want[x]) == float(got[x]) for x in want),
                           'shaping function got {} instead of {}', got, want)
            ctx.expect(set(ci) == {k[0] for k in rout}, 'shaping function got costs of {}', sorted(ci))
            for k, m in ref.mods.items():
                c = ci[k[0]][k[1]]
                ctx.expect(set(c) == {'production_marginal_cost', 'absorption_marginal_cost'}, 'cost info keys {}', sorted(c))
                if m.s['k'] == 'unb':
                    ctx.close(c['production_marginal_cost'], m.s['llc'], 'marginal cost of loss load')
                    ctx.close(c['absorption_marginal_cost'], m.s['ogc'], 'marginal cost of overgeneration')
        ctx.outcome([r['reward'] for r in rout.values()])

    def make():
        return build.microgrid(spec, reward_shaping_func=Recorder() if shaped else None)

    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step, make=make)
