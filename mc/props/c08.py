"""One clock: all modules move together, an episode lasts exactly as configured, bad controls change nothing."""
import copy
import itertools

import numpy as np

from mc import build, explore
from mc.ref import Ref
from mc.specs import BAT, GEN, GRID, LOAD, PV, pick, specs
from pymgrid import Microgrid

PID = 'C08'
RULE = ('every start/end window of a five-step series, set in each way the API allows; every action sequence on small '
        'microgrids; and at every point of every two-step history, every malformed control in a catalogue')
N = dict(quick=5, thorough=8)
BOUNDS = {t: f'all windows of a series of {n}; ' + explore.bounds(specs())[t] for t, n in N.items()}
BAD_SPECS = ['bat', 'gens_pv', 'bat_grid_pv', 'two', 'two_gens', 'two_grids', 'all', 'flexgrid']


def cases(tier):
    out = [dict(id=f'window/{i}-{f}', window=(i, f), n=N[tier]) for i in range(N[tier]) for f in range(i + 1, N[tier] + 1)]
    out += [dict(id=f'badwindow/{i}', bad=i, n=N[tier]) for i in range(N[tier])]
    out += [dict(c, tree=True) for c in explore.tree_cases(specs(), tier, budget=500 if tier == 'quick' else 8000)]
    out += [dict(id=f'badcontrol/{s}', badcontrol=s) for s in BAD_SPECS]
    out += [dict(id='mismatch', mismatch=True), dict(id='refused', refused=True)]
    return out


def clocks(real):
    return {(n, j): m.current_step for n, L in real.modules.to_dict().items() for j, m in enumerate(L)}


def snapshot(real):
    return (clocks(real), real.state_dict(), {k: {n: list(v) for n, v in m.log_dict().items()}
            for k, m in ((str(i), m) for i, m in enumerate(real.module_list))},
            real.get_log().to_dict())


def base(n):
    series = [float(1 + (3 * t) % 5) for t in range(n)]
    return dict(m=[dict(LOAD, ts=series), dict(PV, ts=[float((2 * t) % 7) for t in range(n)]), pick(BAT, [0, 2, 4]),
                   dict(GRID, ts=[[0.5, 0.25, 0.1, t % 2] for t in range(n)]), GEN])


IDLE = {'battery': [0.0], 'grid': [0.0], 'genset': [np.array([0.0, 0.0])]}


def episode(ctx, real, i, f, what):
    """Run from the start to done; the number of steps and the clock must be exactly those of the window."""
    for t in range(i, f):
        ctx.expect(real.current_step == t, '{}: clock {} instead of {}', what, real.current_step, t)
        ctx.expect(set(clocks(real).values()) == {t}, '{}: module clocks {}', what, clocks(real))
        _, _, done, info = real.run({k: list(v) for k, v in IDLE.items()}, normalized=False)
        ctx.step()
        ctx.state((what, i, f, t))
        ctx.expect(bool(done) == (t == f - 1), '{}: done={} at step {} of [{}, {})', what, done, t, i, f)
        # the data of this step were used
        ctx.close(info['load'][0]['absorbed_energy'], abs(real.modules.load[0].time_series[t, 0]), '{}: load at {}', what, t)
    log = real.get_log()
    ctx.expect(list(log.index) == list(range(i, f)), '{}: log index {}', what, list(log.index))
    ctx.traces += 1


def check(case, ctx):
    if 'window' in case:
        i, f = case['window']
        spec = dict(base(case['n']), i=i, f=f)
        real = build.microgrid(spec)
        ctx.expect((real.initial_step, real.final_step) == (i, f), 'window {}', (real.initial_step, real.final_step))
        episode(ctx, real, i, f, 'constructor')
        real.reset()
        episode(ctx, real, i, f, 'second episode')
        if f == case['n']:
            spec = dict(base(case['n']), i=i)
            episode(ctx, build.microgrid(spec), i, f, 'default end')
        # setters, in either order, take effect with the next reset
        for order in ('if', 'fi'):
            real = build.microgrid(base(case['n']))
            real.run({k: list(v) for k, v in IDLE.items()}, normalized=False)
            for c in order:
                if c == 'i':
                    real.initial_step = i
                else:
                    real.final_step = f
            ctx.expect((real.initial_step, real.final_step) == (i, f), 'window {}', (real.initial_step, real.final_step))
            real.reset()
            episode(ctx, real, i, f, f'setters {order}')
        # ... whatever was set before; an end of -1 or 0 means the end of the data
        n = case['n']
        for word in itertools.product([('i', v) for v in range(n)] + [('f', v) for v in range(-1, n + 1)], repeat=2):
            real = build.microgrid(dict(base(n), i=i, f=f))
            a, b = i, f
            for c, v in word:
                if c == 'i' and v < b:
                    real.initial_step = a = v
                elif c == 'f' and (v <= 0 or v > a):
                    real.final_step = v
                    b = n if v <= 0 else v
            ctx.expect((real.initial_step, real.final_step) == (a, b), 'window {} after {}', (real.initial_step, real.final_step), word)
            real.reset()
            episode(ctx, real, a, b, f'setters {word}')
        ctx.expect(len(real) == case['n'], 'length of the data {}', len(real))
        return
    if 'bad' in case:
        # an end at or before the start, or beyond the data, is refused and changes nothing
        i, n = case['bad'], case['n']
        for f in list(range(1, i + 1)) + [n + 1, n + 10, 2.5]:
            real = build.microgrid(dict(base(n), i=i))
            before = snapshot(real)
            try:
                real.final_step = f
            except ValueError:
                pass
            else:
                ctx.fail(f'final step {f} accepted with initial step {i} and {n} rows')
            ctx.step()
            ctx.expect(snapshot(real) == before and real.final_step == n, 'a refused final step changed the microgrid')
            ctx.state((i, f))
            episode(ctx, real, i, n, 'after a refused final step')
        # so is a start at or after the end, or before the data
        for end in range(i + 1, n + 1):
            for v in [-1, -n, *range(end, n + 2), 2 * n, i + 0.5]:
                real = build.microgrid(dict(base(n), i=i, f=end))
                before = snapshot(real)
                ctx.trace = [i, end, v]
                try:
                    real.initial_step = v
                except ValueError:
                    pass
                else:
                    ctx.fail(f'initial step {v} accepted with final step {end} and {n} rows')
                ctx.step()
                ctx.expect(snapshot(real) == before and real.initial_step == i, 'a refused initial step changed the microgrid')
                ctx.state((i, end, v))
                episode(ctx, real, i, end, 'after a refused initial step')
        return
    if case.get('mismatch'):
        return check_mismatch(ctx)
    if case.get('badcontrol'):
        return check_bad(case, ctx)
    if case.get('refused'):
        return check_refused(ctx)
    spec = specs()[case['spec']]

    def on_step(real, ref, before, joint, out, rout, tot):
        ctx.expect(set(clocks(real).values()) == {ref.t}, 'module clocks {} instead of {}', clocks(real), ref.t)
        ctx.expect(real.current_step == ref.t, 'clock {} instead of {}', real.current_step, ref.t)
        ctx.expect(bool(out[2]) == tot['done'], 'done={} at step {}', out[2], before.t)
        ctx.expect(len(real.get_log()) == ref.t - ref.t0, 'log length')
        for m in real.module_list:
            for k, v in m.log_dict().items():
                ctx.expect(len(v) == ref.t - ref.t0, '{} has {} entries of {} after {} steps', m, len(v), k, ref.t - ref.t0)
        ctx.outcome((ref.t, out[2]))

    explore.tree(ctx, spec, case['depth'], case['prefix'], on_step)


def check_mismatch(ctx):
    """Modules that disagree on the window cannot share a clock: refused when the microgrid is built."""
    for (i1, f1), (i2, f2) in itertools.product(itertools.product((0, 1), (3, 4, 5)), repeat=2):
        if (i1, f1) == (i2, f2):
            continue
        ctx.trace = [i1, f1, i2, f2]
        mods = [build.module(dict(LOAD, i=i1, f=f1)), build.module(dict(PV, i=i2, f=f2)), build.module(dict(BAT, i=i1))]
        try:
            Microgrid(mods)
        except ValueError:
            pass
        else:
            ctx.fail('modules with different windows accepted')
        ctx.step()
        ctx.state((i1, f1, i2, f2))


def bad_controls(ref, joint):
    good = explore.to_control(joint)
    yield {}
    for name in good:
        yield {k: v for k, v in good.items() if k != name}
        yield {**good, name: []}
        yield {**good, name: good[name][:-1]}
        yield {**good, name: tuple(good[name][:-1])}
        yield {**good, name: np.array(good[name][:-1], dtype=float)}
        yield {**good, name: np.array([])}
        if len(good[name]) > 1:
            yield {**good, name: good[name][0]} if np.ndim(good[name][0]) == 0 else {**good, name: np.array(good[name][:1])}
        yield {**{k: v for k, v in good.items() if k != name}, name + '_': good[name]}


def check_bad(case, ctx):
    spec = specs()[case['badcontrol']]
    acts = explore.alphabet(Ref(spec))
    picks = [acts[0], acts[-1], acts[len(acts) // 2]]
    for hist in [()] + [(a,) for a in picks] + list(itertools.product(picks, repeat=2)):
        for joint in picks:
            real, ref = build.microgrid(spec), Ref(spec)
            for h in hist:
                real.run(explore.to_control(h), normalized=False)
                ref.step(h)
            before = snapshot(real)
            ctx.state((case['id'], ref.t, ref.state()))
            for bad in bad_controls(ref, joint):
                for normalized in (False, True):
                    ctx.trace = [str(hist), str(bad), normalized]
                    try:
                        real.run(bad, normalized=normalized)
                    except Exception:
                        pass
                    else:
                        ctx.fail('an incomplete control was accepted')
                    ctx.step()
                    ctx.expect(snapshot(real) == before, 'an incomplete control had an effect')
            # surplus entries are ignored
            rout, tot = ref.step(joint)
            out = real.run({**explore.to_control(joint), 'no_such_module': [1.0]}, normalized=False)
            ctx.step()
            ctx.close(out[1], tot['reward'], 'reward after refused controls')
            ctx.expect(set(clocks(real).values()) == {ref.t}, 'clocks after refused controls')
            ctx.expect(set(out[3]) == {k[0] for k in rout}, 'info of {}', sorted(out[3]))
            ctx.traces += 1


def check_refused(ctx):
    """A module that raises on an infeasible request refuses in the middle of a step."""
    spec = dict(m=[LOAD, dict(BAT, err=True)])
    real = build.microgrid(spec)
    try:
        real.run({'battery': [50.0]}, normalized=False)
    except ValueError:
        pass
    else:
        ctx.fail('an infeasible request of a module that raises errors was accepted')
    ctx.step()
    ctx.state('refused')
    if len(set(clocks(real).values())) > 1:
        ctx.finding('refused-step/load+battery/50', 'after a step refused by a battery with raise_errors=True the load has '
                    'moved to the next step and the battery has not')
