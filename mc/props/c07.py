"""Infeasible requests: clipped to the limit when errors are off, refused without any effect when they are on."""
import copy
import itertools

import numpy as np

from mc import build, explore
from mc.ref import RBattery, RGenset, RGrid, Ref
from mc.specs import BAT, BAT9, GEN, GENS, GRID, LOAD, PV, pick, specs

PID = 'C07'
RULE = ('for batteries, gensets and grids: every sequence of feasible and infeasible requests, run in parallel on a '
        'module that clips and on one that raises; the raising one must accept exactly the feasible requests, and be '
        'unchanged by the others. For microgrids: every joint action with erroring modules')
DEPTH = dict(quick=3, thorough=4)
BOUNDS = {t: f'request sequences of length {d}; microgrids: two-step sequences' for t, d in DEPTH.items()}
ASSUMPTIONS = ['a microgrid step that a module refuses is not rolled back in the other modules (not claimed here)']

BATS = [dict(BAT), dict(BAT9), dict(k='battery', min=0.0, max=4.0, mc=1.0, md=9.0, eff=1.0, charge=4.0)]
GENSETS = [dict(GEN), dict(GENS), dict(GENS, on=True, wd=1, su=0), dict(GEN, min=0.0, abort=False, su=2, wd=2)]
GRIDS = [dict(GRID), dict(GRID, imp=0.0), dict(GRID, exp=0.0), dict(GRID, imp=1.0, exp=50.0)]
MG = ['bat', 'bat9_pv', 'gen', 'gens_pv', 'grid', 'bat_grid_pv', 'bat_gen_pv', 'flex_and_ctrl_grid', 'window', 'two']


def cases(tier):
    d = DEPTH[tier]
    out = []
    for kind, L in (('battery', BATS), ('genset', GENSETS), ('grid', GRIDS)):
        for n, s in enumerate(L):
            out.append(dict(id=f'{kind}{n}', kind=kind, n=n, depth=d if kind != 'grid' else min(d + 1, 4)))
    for name in MG:
        out.append(dict(id=f'mg/{name}', mg=name))
    out.append(dict(id='fixed', fixed=True))
    return out


def feasible(ref, a, t):
    """Does the request lie within what the module can do now?"""
    if isinstance(ref, RBattery):
        out, inn = ref.limits()
        return -inn - 1e-12 <= a <= out + 1e-12
    if isinstance(ref, RGrid):
        give, take = ref.limits_at(t)
        return -take <= a <= give
    cur = ref.next_cur(round(a[0]))
    return cur * ref.s['min'] <= a[1] <= cur * ref.s['max']


def menu(ref, t):
    if isinstance(ref, RBattery):
        out, inn = ref.limits()
        return [0.0, out / 2, -inn / 2, out + 0.01, -inn - 0.01, 99.0, -99.0, 0.5]
    if isinstance(ref, RGrid):
        i, e = ref.s['imp'], ref.s['exp']
        return [0.0, i, -e, i / 2, i + 0.01, -e - 0.01, 99.0]
    mn, mx = ref.s['min'], ref.s['max']
    return [[g, e] for g in (0, 1) for e in (0.0, mn, mn - 0.01 if mn > 0 else 0.0, (mn + mx) / 2, mx, mx + 0.01)]


def snapshot(m):
    return (m.current_step, m.state_dict(), {k: list(v) for k, v in m.log_dict().items()},
            float(m.max_production), float(m.max_consumption) if m.is_sink else 0.0)


def check(case, ctx):
    if case.get('mg'):
        return check_mg(case, ctx)
    if case.get('fixed'):
        return check_fixed(ctx)
    s = dict(battery=BATS, genset=GENSETS, grid=GRIDS)[case['kind']][case['n']]
    cls = dict(battery=RBattery, genset=RGenset, grid=RGrid)[case['kind']]
    soft, hard, ref = build.module(dict(s, err=False)), build.module(dict(s, err=True)), cls(s)

    def go(soft, hard, ref, t, hist):
        if t == case['depth']:
            ctx.traces += 1
            return
        ctx.state((t, snapshot(soft)[1]))
        for a in menu(ref, t):
            ctx.trace = list(hist) + [a]
            sf, hd = copy.deepcopy(soft), copy.deepcopy(hard)
            rf = copy.copy(ref)
            ok = feasible(rf, a, t)
            before = snapshot(hd)
            want = rf.step(a, t)
            _, rew, _, info = sf.step(a, normalized=False)
            ctx.step()
            ctx.close(info.get('provided_energy', 0.0), want.get('provided', 0.0), 'provided on request {}', a)
            ctx.close(info.get('absorbed_energy', 0.0), want.get('absorbed', 0.0), 'absorbed on request {}', a)
            ctx.close(rew, want['reward'], 'reward on request {}', a)
            try:
                _, rew2, _, info2 = hd.step(a, normalized=False)
            except ValueError:
                ctx.expect(not ok, 'a feasible request {} was refused', a)
                ctx.expect(snapshot(hd) == before, 'a refused request {} had an effect: {} -> {}', a, before, snapshot(hd))
                ctx.outcome(('refused', case['kind'], a))
                # the refusing module is unaffected: it goes on from where it was
                hd.step(fallback(rf, ref, t), normalized=False)
                ctx.expect(hd.current_step == before[0] + 1, 'the clock moved with a refused request')
                continue
            ctx.expect(ok, 'an infeasible request {} was accepted and {} provided, {} absorbed', a,
                       info2.get('provided_energy'), info2.get('absorbed_energy'))
            ctx.close(rew2, rew, 'reward with errors on')
            ctx.expect(info2 == info, 'with errors on, {} instead of {}', info2, info)
            ctx.expect(hd.state_dict() == sf.state_dict(), 'state differs with errors on')
            ctx.outcome(('done', case['kind'], info))
            go(sf, hd, rf, t + 1, hist + (a,))

    go(soft, hard, ref, 0, ())
    if case['kind'] == 'genset':
        improper(s, case['depth'], ctx)
    ctx.sample(dict(module=s, menu=menu(ref, 0)))


def improper(s, depth, ctx):
    """What no genset can do (absorb energy, a status that is none, a request without an energy) is always refused,
    and then without any effect."""
    bad = [[g, e] for g in (0, 1) for e in (-1.0, -0.01, float('nan'))] + [[-0.1, 1.0], [1.1, 1.0], [1], [0]]
    words = [(g, e) for g in (0, 1) for e in (0.0, s['max'])]
    for err in (False, True):
        for n in range(depth):
            for word in itertools.product(words, repeat=n):
                m, ref = build.module(dict(s, err=err)), RGenset(s)
                for t, (g, e) in enumerate(word):
                    cur = ref.next_cur(g)
                    a = [g, min(max(e, cur * s['min']), cur * s['max'])]
                    m.step(np.array(a), normalized=False)
                    ref.step(a, t)
                before = snapshot(m)
                for a in bad:
                    ctx.trace = [*word, a]
                    ctx.step()
                    try:
                        m.step(np.array(a, dtype=float), normalized=False)
                    except Exception:
                        ctx.outcome(('improper', a))
                    else:
                        ctx.fail(f'the request {a} was accepted')
                    ctx.expect(snapshot(m) == before, 'a refused request {} had an effect: {} -> {}', a, before, snapshot(m))
                ctx.traces += 1


def fallback(rf, ref, t):
    """A request that is feasible in the state before the refused one."""
    if isinstance(ref, (RBattery, RGrid)):
        return 0.0
    cur = ref.next_cur(1)
    return [1, ref.s['max'] if cur else 0.0]


def check_mg(case, ctx):
    spec = copy.deepcopy(specs()[case['mg']])
    for s in spec['m']:
        s['err'] = True
    ref0 = Ref(spec)
    acts = explore.alphabet(ref0)
    for seq in itertools.product(acts, repeat=2):
        real, ref = build.microgrid(spec), Ref(spec)
        ctx.trace = []
        for joint in seq:
            ctx.trace.append({str(k): v for k, v in joint.items()})
            bad = [k for k, m in ref.ctrl if not feasible(m, joint[k], ref.t)]
            try:
                out = real.run(explore.to_control(joint), normalized=False)
            except ValueError:
                ctx.step()
                ctx.expect(bad, 'a feasible joint request was refused')
                ctx.outcome(('refused', bad))
                break
            ctx.step()
            ctx.expect(not bad, 'infeasible requests of {} were silently accepted', bad)
            rout, tot = ref.step(joint)
            for k, r in rout.items():
                i = out[3][k[0]][k[1]]
                ctx.close(i.get('provided_energy', 0.0), r.get('provided', 0.0), 'provided by {}', k)
                ctx.close(i.get('absorbed_energy', 0.0), r.get('absorbed', 0.0), 'absorbed by {}', k)
            ctx.close(out[1], tot['reward'], 'reward')
            ctx.state((ref.t, ref.state()))
        ctx.traces += 1


def check_fixed(ctx):
    """Loads take what the series says whatever is asked; a renewable is held to what is available."""
    for err in (False, True):
        m = build.module(dict(LOAD, err=err))
        for t, x in enumerate(LOAD['ts']):
            _, r, _, info = m.step(0.0, normalized=False)
            ctx.step()
            ctx.state((err, t))
            ctx.close(info['absorbed_energy'], x, 'load at step {}', t)
            ctx.expect(r == 0, 'a load has no reward')
    for t, x in enumerate(PV['ts']):
        for a in (0.0, x / 2, x, x + 0.01, 99.0):
            for err in (False, True):
                m = build.module(dict(PV, err=err))
                for _ in range(t):
                    m.step(0.0, normalized=False)
                before = snapshot(m)
                try:
                    _, r, _, info = m.step(a, normalized=False)
                except ValueError:
                    ctx.expect(err and a > x, 'renewable request {} of {} refused', a, x)
                    ctx.expect(snapshot(m) == before, 'a refused renewable request had an effect')
                else:
                    ctx.expect(not (err and a > x), 'renewable request {} of {} accepted', a, x)
                    ctx.close(info['provided_energy'], min(a, x), 'renewable used')
                    ctx.close(info['curtailment'], x - min(a, x), 'renewable curtailed')
                    ctx.close(m.log_dict()['renewable_used'][-1], min(a, x), 'logged renewable used')
                    ctx.close(m.log_dict()['curtailment'][-1], x - min(a, x), 'logged curtailment')
                ctx.step()
                ctx.state((err, t, a))
                ctx.traces += 1
