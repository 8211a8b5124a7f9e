"""Energy conservation and demand coverage on every step."""
from mc import explore
from mc.specs import specs

PID = 'C01'
RULE = ('every sequence of joint actions (alphabets in mc/specs.py: zero, partial and over-limit requests in both '
        'directions) on 21 small microgrids; a state is the full module state and clock')
BOUNDS = explore.bounds(specs())


def cases(tier):
    return explore.tree_cases(specs(), tier)


def check(case, ctx):
    spec = specs()[case['spec']]

    def on_step(real, ref, before, joint, out, rout, tot):
        obs, reward, done, info = out
        prov = absb = 0.0
        ctx.expect(set(info) == {k[0] for k in rout}, 'step info names {} instead of {}', sorted(info), sorted(rout))
        for key, r in rout.items():
            i = info[key[0]][key[1]]
            p, a = i.get('provided_energy', 0.0), i.get('absorbed_energy', 0.0)
            ctx.expect(p >= 0 and a >= 0, 'negative energy {} reported by {}', i, key)
            ctx.expect(p == 0 or a == 0, '{} both provides and absorbs: {}', key, i)
            prov += p
            absb += a
        ctx.close(prov, absb, 'provided and absorbed energy differ')
        for name in info:
            ctx.expect(len(info[name]) == len([k for k in rout if k[0] == name]), 'wrong number of infos for {}', name)
        for key, m in ref.loads:
            ctx.close(info[key[0]][key[1]].get('absorbed_energy', 0.0), rout[key]['absorbed'], 'load {} not served in full', key)
        log = real.get_log()
        row = log.iloc[-1]
        ctx.close(row[('balance', 0, 'overall_provided_to_microgrid')], prov, 'log: overall provided')
        ctx.close(row[('balance', 0, 'overall_absorbed_from_microgrid')], absb, 'log: overall absorbed')
        for part in ('fixed', 'controllable'):
            ctx.close(row[('balance', 0, f'{part}_provided_to_microgrid')], tot[part][0], f'log: {part} provided')
            ctx.close(row[('balance', 0, f'{part}_absorbed_from_microgrid')], tot[part][1], f'log: {part} absorbed')
        ctx.outcome((prov, absb, tot['controllable']))

    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step)
