"""Reset: from any point of any history, the microgrid is as documented and behaves so from then on."""
from mc import build, explore
from mc.core import close
from mc.ref import Ref
from mc.specs import BAT, GENS, GRID, LOAD, PV, pick, specs

import copy

PID = 'C09'
RULE = ('every sequence over joint actions and reset on small microgrids: clock, state, log and rewards against a '
        'reference in which reset rewinds the clock and the gensets, empties the logs, and keeps the stored energy')


def all_specs():
    S = {k: specs()[k] for k in ('bat', 'uneven', 'bare', 'bat9_pv', 'gens_pv', 'two_gens', 'bat_grid_pv', 'bat_gen_pv', 'window', 'flexgrid', 'own_unb', 'fc', 'trio', 'named_pair', 'order', 'late', 'ints', 'digits')}
    for su, wd, on in ((1, 0, True), (0, 2, True), (2, 1, False), (2, 2, True)):
        S[f'gen{su}{wd}{int(on)}'] = dict(m=[LOAD, pick(GENS, [0, 2], su=su, wd=wd, on=on)])
    S['forecast'] = dict(m=[dict(LOAD, fc='oracle', h=2), dict(PV, fc='oracle', h=2), pick(BAT, [2, 4]), dict(GRID, fc='oracle', h=2, acts=[0.0, 2.0])])
    return S


SPECS = all_specs()
BUDGET = dict(quick=700, thorough=20000)


def depth(spec, tier):
    n = len(explore.alphabet(Ref(spec))) + 1
    d = 2
    while d < 6 and sum(n ** i for i in range(1, d + 2)) <= BUDGET[tier]:
        d += 1
    return d


BOUNDS = {t: 'all sequences of actions and resets, of length ' + ', '.join(f'{k}={depth(s, t)}' for k, s in SPECS.items()) for t in BUDGET}


def cases(tier):
    out = []
    for name, s in SPECS.items():
        n = len(explore.alphabet(Ref(s)))
        for i in list(range(n)) + ['reset']:
            out.append(dict(id=f'{name}/{i}', spec=name, first=i, depth=depth(s, tier)))
    return out


def agree(ctx, real, ref, what):
    sd = real.state_dict()
    for k, want in ref.state().items():
        got = sd[k[0]][k[1]]
        ctx.expect(set(got) == set(want), '{}: state of {} has {}', what, k, sorted(got))
        for f, v in want.items():
            ctx.close(got[f], v, '{}: {} of {}', what, f, k)
    ctx.expect(real.current_step == ref.t, '{}: clock {} instead of {}', what, real.current_step, ref.t)
    for m in real.module_list:
        ctx.expect(m.current_step == ref.t, '{}: clock of {}', what, m)


def check(case, ctx):
    spec = SPECS[case['spec']]
    real, ref = build.microgrid(spec), Ref(spec)
    acts = explore.alphabet(ref)

    def go(real, ref, n, d, since):
        if d == case['depth']:
            ctx.traces += 1
            return
        ops = [case['first']] if d == 0 else list(range(len(acts))) + ['reset']
        for op in ops:
            if op != 'reset' and ref.t >= ref.final:
                continue
            r, f = copy.deepcopy(real), ref.clone()
            ctx.trace.append(op if op == 'reset' else {str(k): v for k, v in acts[op].items()})
            ctx.step()
            if op == 'reset':
                obs = r.reset()
                f.reset()
                m = 0
                agree(ctx, r, f, 'after reset')
                log = r.get_log()
                ctx.expect(len(log) == 0, 'log has {} rows after reset', len(log))
                for mod in r.module_list:
                    ctx.expect(all(len(v) == 0 for v in mod.log_dict().values()), 'log of {} not empty after reset', mod)
                for k, b in f.bounds().items():
                    st = list(f.state()[k].values())
                    want = [(x - lo) / ((hi - lo) or 1) for x, (lo, hi) in zip(st, b)]
                    ctx.close_arr(obs[k[0]][k[1]], want, 'observation of {} returned by reset', k)
            else:
                _, reward, done, info = r.run(explore.to_control(acts[op]), normalized=False)
                rout, tot = f.step(acts[op])
                m = n + 1
                ctx.close(reward, tot['reward'], 'reward')
                ctx.expect(bool(done) == tot['done'], 'done={} at step {}', done, f.t - 1)
                for k, x in rout.items():
                    i = info[k[0]][k[1]]
                    ctx.close(i.get('provided_energy', 0.0) - i.get('absorbed_energy', 0.0),
                              x.get('provided', 0.0) - x.get('absorbed', 0.0), 'energy of {}', k)
                agree(ctx, r, f, 'after a step')
                log = r.get_log()
                ctx.expect(list(log.index) == list(range(f.t - m, f.t)), 'log covers {}', list(log.index))
                ctx.close(log.iloc[-1][('balance', 0, 'reward')], tot['reward'], 'logged reward')
            ctx.state((f.t, f.state()))
            ctx.outcome((op == 'reset', f.t, f.state()))
            go(r, f, m, d + 1, 0)
            ctx.trace.pop()

    go(real, ref, 0, 0, 0)
    ctx.sample(dict(spec=case['spec'], first=case['first'], depth=case['depth']))
