"""Episode windows: every outcome of every trajectory function gives a legal, complete, correctly indexed episode."""
import copy
import itertools

from mc import build, chance
from mc.specs import BAT, GEN, GRID, LOAD, PV, pick
from pymgrid import Microgrid
from pymgrid.envs import ContinuousMicrogridEnv
from pymgrid.microgrid.trajectory import (DeterministicTrajectory, FixedLengthStochasticTrajectory,
                                          StochasticTrajectory)

PID = 'C10'
RULE = ('every start/end window of the data, every trajectory class and length, every outcome of its random draws '
        '(the random functions are replaced by enumerated choices), and every ordered pair or triple of windows in '
        'consecutive episodes; each episode is run to its end')
BOUNDS = dict(quick='series of 5, pairs of consecutive episodes', thorough='series of 6, triples of consecutive episodes')


def cases(tier):
    n = 5 if tier == 'quick' else 6
    out = []
    for i in range(n):
        for f in range(i + 1, n + 1):
            out.append(dict(id=f'stochastic/{i}-{f}', kind='stochastic', i=i, f=f, n=n))
            for L in range(1, n + 2):
                out.append(dict(id=f'fixed{L}/{i}-{f}', kind='fixed', L=L, i=i, f=f, n=n))
            for a in range(n):
                out.append(dict(id=f'det/{i}-{f}/{a}', kind='det', a=a, i=i, f=f, n=n))
    wins = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    for w in wins:
        for cls in ('Microgrid', 'Env'):
            out.append(dict(id=f'seq/{cls}/{w}', kind='seq', w=w, n=n, cls=cls, depth=2 if tier == 'quick' else 3))
    out.append(dict(id='reject', kind='reject', n=n))
    for a in range(-1, n + 1):
        out.append(dict(id=f'later/{a}', kind='later', n=n, a=a))
    for i in range(n):
        for f in range(i + 1, n + 1):
            out.append(dict(id=f'narrow/{i}-{f}', kind='narrow', n=n, i=i, f=f))
    for w in wins:
        out.append(dict(id=f'removed/{w}', kind='removed', n=n, w=w))
    for i in range(3):
        out.append(dict(id=f'endless/{i}', kind='endless', n=n, i=i, steps=4 if tier == 'quick' else 6))
    return out


def spec(n, i=0, f=-1):
    return dict(m=[dict(LOAD, ts=[float(2 + t) for t in range(n)], fc='oracle', h=2), dict(PV, ts=[float((2 * t) % 7) for t in range(n)]),
                   pick(BAT, [0]), dict(GRID, ts=[[0.5 + t, 0.25, 0.1, t % 2] for t in range(n)])], i=i, f=f)


IDLE = {'battery': [0.0], 'grid': [0.0]}


def episode(ctx, g, a, b, base, reset=True):
    """Reset (which draws the window) and run: the episode is exactly [a, b)."""
    for t in range(a, b):
        ctx.expect(g.current_step == t, 'clock {} instead of {} in window [{}, {})', g.current_step, t, a, b)
        _, _, done, info = g.run({k: list(v) for k, v in IDLE.items()}, normalized=False)
        ctx.step()
        ctx.expect(bool(done) == (t == b - 1), 'done={} at step {} of window [{}, {})', done, t, a, b)
        ctx.close(info['load'][0]['absorbed_energy'], 2 + t, 'load at step {}', t)
    log = g.get_log()
    ctx.expect(list(log.index) == list(range(a, b)), 'log index {} for window [{}, {})', list(log.index), a, b)
    ctx.close_arr(log[('load', 0, 'load_met')], [2 + t for t in range(a, b)], 'logged load')
    ctx.expect((g.initial_step, g.final_step) == base, 'the data range became {}', (g.initial_step, g.final_step))
    ctx.traces += 1


def check(case, ctx):
    n, kind = case['n'], case['kind']
    if kind == 'reject':
        return reject(ctx, n)
    if kind == 'later':
        return later(ctx, n, case['a'])
    if kind == 'narrow':
        return narrow(ctx, n, case['i'], case['f'])
    if kind == 'removed':
        return removed(ctx, n, case['w'])
    if kind == 'endless':
        return endless(ctx, case)
    if kind == 'seq':
        wins = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
        cls = Microgrid if case['cls'] == 'Microgrid' else ContinuousMicrogridEnv
        for rest in itertools.product(wins, repeat=case['depth'] - 1):
            seq = [case['w']] + list(rest)
            ctx.trace = seq
            it = iter([seq[0]] + seq)

            def traj(lo, hi):
                assert (lo, hi) == (0, n), f'the trajectory function was given {(lo, hi)}'
                return next(it)

            g = build.microgrid(spec(n), cls=cls, trajectory_func=traj)
            for a, b in seq:
                g.reset()
                ctx.state((a, b))
                episode(ctx, g, a, b, (0, n))
            ctx.outcome(seq)
        return
    i, f = case['i'], case['f']
    if kind == 'det':
        a = case['a']
        for b in range(a + 1, n + 1):
            ctx.trace = [i, f, a, b]
            legal = i <= a and b <= f
            try:
                g = build.microgrid(spec(n, i, f), trajectory_func=DeterministicTrajectory(a, b))
            except ValueError:
                ctx.expect(not legal, 'window [{}, {}) of [{}, {}) refused', a, b, i, f)
                ctx.state((a, b, 'refused'))
                ctx.step()
                continue
            ctx.expect(legal, 'window [{}, {}) accepted in [{}, {})', a, b, i, f)
            for _ in range(2):
                g.reset()
                ctx.state((a, b))
                episode(ctx, g, a, b, (i, f))
        return
    if kind == 'fixed' and case['L'] > f - i:
        try:
            build.microgrid(spec(n, i, f), trajectory_func=FixedLengthStochasticTrajectory(case['L']))
        except ValueError:
            ctx.state('refused')
            ctx.step()
            return
        ctx.fail(f'a trajectory of length {case["L"]} accepted in a range of {f - i}')

    traj = StochasticTrajectory() if kind == 'stochastic' else FixedLengthStochasticTrajectory(case['L'])
    # one instance per outcome; the constructor draws too, its draws are enumerated separately
    for choices, w in chance.outcomes(lambda: build.microgrid(spec(n, i, f), trajectory_func=traj)):
        ctx.step()
        ctx.trace = ['constructor', choices]
    seen = set()
    g = build.microgrid(spec(n, i, f), trajectory_func=traj)

    def draw():
        g.reset()
        a = g.current_step
        # read the end of the window off the behaviour: run until done
        steps = 0
        while True:
            _, _, done, _ = g.run({k: list(v) for k, v in IDLE.items()}, normalized=False)
            steps += 1
            if done:
                return a, a + steps
            if steps > n:
                return a, None

    controlled = False
    for choices, (a, b) in chance.outcomes(draw):
        ctx.trace = [i, f, choices, a, b]
        controlled |= bool(choices)
        ctx.expect(b is not None, 'the episode does not end')
        ctx.expect(i <= a < b <= f, 'window [{}, {}) outside [{}, {})', a, b, i, f)
        if kind == 'fixed':
            ctx.expect(b - a == case['L'], 'window [{}, {}) is not of length {}', a, b, case['L'])
        ctx.expect(list(g.get_log().index) == list(range(a, b)), 'log index')
        ctx.expect((g.initial_step, g.final_step) == (i, f), 'the data range became {}', (g.initial_step, g.final_step))
        seen.add((a, b))
        ctx.state((a, b))
        ctx.step()
        ctx.traces += 1
    if controlled:
        want = {(a, b) for a in range(i, f) for b in range(a + 1, f + 1) if kind == 'stochastic' or b - a == case['L']}
        ctx.expect(seen == want, 'windows {} can never be drawn', sorted(want - seen))
    ctx.outcome(sorted(seen))
    ctx.sample(sorted(seen))


def reject(ctx, n):
    """Functions that do not return a legal window are refused at construction, with an error."""
    for bad in (lambda a, b: None, lambda a, b: (0,), lambda a, b: (0, 1, 2), lambda a, b: 1, lambda a, b: (0.5, 3),
                lambda a, b: ('0', '3'), lambda a, b: (0, n + 1), lambda a, b: (-1, n), lambda a, b: (2, 2),
                lambda a, b: (3, 2), 5, 'abc'):
        try:
            build.microgrid(spec(n), trajectory_func=bad)
        except (TypeError, ValueError):
            ctx.step()
            ctx.state(ctx.transitions)
            continue
        ctx.fail(f'trajectory function {bad} accepted')


def endless(ctx, case):
    """Without time series an episode starts at the initial step and never ends by itself."""
    i = case['i']
    for kinds in (('battery',), ('genset',), ('battery', 'genset'), ('battery', 'battery'), ('genset', 'battery', 'genset')):
        m = [pick(BAT, [0]) if k == 'battery' else pick(GEN, [0]) for k in kinds]
        for cls in (Microgrid, ContinuousMicrogridEnv):
            g = build.microgrid(dict(m=m, i=i), cls=cls)
            start = i
            for episode_no in range(2):
                if episode_no:
                    g.reset()
                for k in range(case['steps']):
                    ctx.trace = [kinds, cls.__name__, episode_no, k]
                    ctx.expect(g.current_step == start + k, 'clock {} instead of {}', g.current_step, start + k)
                    ctl = {n: [([1.0, 0.5] if n == 'genset' else 0.0) for q in kinds if q == n] for n in set(kinds)}
                    _, _, done, _ = g.run(ctl, normalized=False)
                    ctx.step()
                    ctx.state((kinds, cls.__name__, episode_no, k))
                    ctx.expect(not done, 'done at step {} without a time series', start + k)
                ctx.expect(list(g.get_log().index) == list(range(start, start + case['steps'])), 'log index {}', list(g.get_log().index))
                ctx.traces += 1


def later(ctx, n, a):
    """A function that returns an illegal window only in a later episode: that reset is refused and changes nothing."""
    for b in range(-1, n + 2):
        for ran in range(3):
            ctx.trace = [a, b, ran]
            legal = 0 <= a < b <= n
            it = iter([(0, 3), (0, 3), (a, b), (1, 3)])
            g = build.microgrid(spec(n), trajectory_func=lambda lo, hi: next(it))
            g.reset()
            for _ in range(ran):
                g.run({k: list(v) for k, v in IDLE.items()}, normalized=False)
                ctx.step()
            log = g.get_log()
            try:
                g.reset()
            except ValueError:
                ctx.expect(not legal, 'window [{}, {}) of [0, {}) refused', a, b, n)
                ctx.expect(g.current_step == ran, 'a refused reset moved the clock to {}', g.current_step)
                ctx.expect(g.get_log().equals(log), 'a refused reset changed the log')
                ctx.expect((g.initial_step, g.final_step) == (0, n), 'the data range became {}', (g.initial_step, g.final_step))
                for t in range(ran, 3):
                    _, _, done, _ = g.run({k: list(v) for k, v in IDLE.items()}, normalized=False)
                    ctx.step()
                    ctx.expect(bool(done) == (t == 2), 'done={} at step {} after a refused reset', done, t)
            else:
                ctx.expect(legal, 'window [{}, {}) accepted in [0, {})', a, b, n)
                episode(ctx, g, a, b, (0, n))
            g.reset()
            episode(ctx, g, 1, 3, (0, n))
            ctx.state((a, b, ran))


def narrow(ctx, n, i, f):
    """The range is narrowed after the trajectory was accepted: episodes lie in the new range or are refused."""
    for kind in ('det', 'fixed'):
        for a, b in ((a, b) for a in range(n) for b in range(a + 1, n + 1)):
            if kind == 'fixed' and a:
                continue
            ctx.trace = [i, f, kind, a, b]
            traj = DeterministicTrajectory(a, b) if kind == 'det' else FixedLengthStochasticTrajectory(b)
            g = build.microgrid(spec(n), trajectory_func=traj)
            g.initial_step, g.final_step = i, f
            legal = (i <= a and b <= f) if kind == 'det' else b <= f - i
            try:
                g.reset()
            except ValueError:
                ctx.expect(not legal, '{} of [{}, {}) refused', traj, i, f)
                ctx.step()
                ctx.state((i, f, kind, a, b))
                continue
            ctx.expect(legal, '{} accepted in [{}, {})', traj, i, f)
            a0 = g.current_step
            ctx.expect(i <= a0 and (kind == 'fixed' or a0 == a), 'episode of {} in [{}, {}) starts at {}', traj, i, f, a0)
            episode(ctx, g, a0, a0 + b - a, (i, f))
            ctx.state((i, f, kind, a, b))


def removed(ctx, n, w):
    """A trajectory that is removed, or replaced, between episodes: its windows have no effect on later episodes."""
    a, b = w
    for i, f in ((i, f) for i in range(a + 1) for f in range(b, n + 1)):
        for how in ('microgrid', 'env', 'from_microgrid', 'copy', 'file'):
            for run in (0, 1, b - a):
                ctx.trace = [w, (i, f), how, run]
                cls = Microgrid if how != 'env' else ContinuousMicrogridEnv
                g = build.microgrid(spec(n, i, f), cls=cls, trajectory_func=DeterministicTrajectory(a, b))
                g.reset()
                for _ in range(run):
                    g.run({k: list(v) for k, v in IDLE.items()}, normalized=False)
                if how == 'from_microgrid':
                    g = ContinuousMicrogridEnv.from_microgrid(g, trajectory_func=None)
                elif how == 'copy':
                    g = copy.deepcopy(g)
                elif how == 'file':
                    g = Microgrid.load(g.dump())
                g.trajectory_func = None
                ctx.expect((g.initial_step, g.final_step) == (i, f), 'window {} after an episode {} in {}', (g.initial_step, g.final_step), w, (i, f))
                for _ in range(2):
                    g.reset()
                    episode(ctx, g, i, f, (i, f))
                other = DeterministicTrajectory(i, b)
                g.trajectory_func = other
                g.reset()
                episode(ctx, g, i, b, (i, f))
                g.trajectory_func = None
                g.reset()
                episode(ctx, g, i, f, (i, f))
                ctx.state((w, i, f, how, run))
                ctx.traces += 1
