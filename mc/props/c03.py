"""Genset start-up/wind-down state machine: every reachable state, every request, against the reference machine."""
import copy
import itertools
from collections import deque

from mc import build
from mc.ref import RGenset

PID = 'C03'
RULE = ('breadth-first search over the status of a real genset (status, goal, both countdowns) for every combination '
        'of start-up time, wind-down time, abortion rule and initial status, under every pair of status request and '
        'energy request in the alphabet; the search closes, so request sequences of any length are covered')
TMAX = dict(quick=3, thorough=8)
BOUNDS = {t: f'start-up and wind-down times 0..{n}; the reachable graph is explored to closure' for t, n in TMAX.items()}
GOALS = [0, 1, 0.0, 0.49, 0.5, 0.51, 1.0]
COSTS = [0.5, ['poly', 0.3, 0.05, 0.75]]


def cases(tier):
    n = TMAX[tier]
    out = []
    for su, wd, abort, on in itertools.product(range(n + 1), range(n + 1), (True, False), (True, False)):
        for c, cost in enumerate(COSTS):
            mn, mx = [(1.0, 5.0), (0.0, 2.5)][(su + wd + c) % 2]
            out.append(dict(id=f'su{su}wd{wd}abort{int(abort)}on{int(on)}cost{c}',
                            s=dict(k='genset', min=mn, max=mx, cost=cost, co2=0.5, cco2=0.25, su=su, wd=wd, abort=abort, on=on)))
    out.append(dict(id='degenerate', s=dict(k='genset', min=3.0, max=3.0, cost=1.0, co2=0.0, cco2=1.0, su=1, wd=1)))
    return out


def observed(m):
    sd = m.state_dict()
    return {k: float(sd[k]) for k in ('current_status', 'goal_status', 'steps_until_up', 'steps_until_down')}


def check(case, ctx):
    s = case['s']
    energies = [0.0, s['min'] / 2, s['min'], (s['min'] + s['max']) / 2, s['max'], s['max'] + 0.25, 1000.0]
    energies = list(dict.fromkeys(energies))

    def same(m, ref, what):
        got, want = observed(m), ref.state(0)
        for k, v in want.items():
            ctx.close(got[k], v, '{}: {}', what, k)
        ctx.close(m.current_status, want['current_status'], '{}: current_status', what)
        ctx.close(m.goal_status, want['goal_status'], '{}: goal_status', what)
        ctx.close(m.max_production, want['current_status'] * s['max'], '{}: max_production', what)
        ctx.close(m.min_production, want['current_status'] * s['min'], '{}: min_production', what)
        ctx.close_arr(m.state, list(want.values()), '{}: state', what)

    def drive(m, ref, g, e):
        """Status prediction, then one step; returns nothing, checks everything."""
        r = round(g)
        before = observed(m)
        pred = ref.next_cur(r)
        ctx.close(m.next_status(r), pred, 'predicted status for request {} in {}', r, before)
        ctx.close(m.next_max_production(r), pred * s['max'], 'predicted max production for request {} in {}', r, before)
        ctx.close(m.next_min_production(r), pred * s['min'], 'predicted min production for request {} in {}', r, before)
        ctx.expect(observed(m) == before, 'a prediction changed the genset')
        n = len(m.log_dict().get('reward', []))
        exp = ref.step([g, e], 0)
        _, reward, done, info = m.step([g, e], normalized=False)
        ctx.step()
        ctx.expect(not done, 'a genset never ends an episode')
        p = info['provided_energy']
        ctx.close(p, exp['provided'], 'production on request {} in {}', [g, e], before)
        ctx.close(info['co2_production'], exp['co2_production'], 'co2 of {} produced', p)
        ctx.close(reward, exp['reward'], 'reward of {} produced', p)
        ctx.close(m.get_cost(p), -reward, 'get_cost')
        ctx.close(m.get_co2(p), info['co2_production'], 'get_co2')
        ctx.close(m.get_co2_cost(p), s['cco2'] * s['co2'] * p, 'get_co2_cost')
        if ref.cur:
            ctx.expect(s['min'] - 1e-9 <= p <= s['max'] + 1e-9, 'running genset produces {}', p)
        else:
            ctx.expect(p == 0, 'a genset that is off produces {}', p)
            if not callable(m.genset_cost):
                ctx.expect(reward == 0, 'a genset that is off costs {}', reward)
        same(m, ref, f'after {[g, e]} in {before}')
        log = m.log_dict()
        ctx.expect(len(log['reward']) == n + 1, 'one log entry per step')
        ctx.close(log['genset_production'][-1], p, 'logged production')
        ctx.close(log['co2_production'][-1], info['co2_production'], 'logged co2')
        ctx.outcome((p, reward, before['current_status'], ref.cur, ref.goal))

    m0, r0 = build.module(s), RGenset(s)
    same(m0, r0, 'new genset')
    seen, queue = set(), deque([(m0, r0, ())])
    while queue:
        m, ref, hist = queue.popleft()
        key = (ref.cur, ref.goal, ref.up, ref.down)
        if key in seen:
            continue
        seen.add(key)
        ctx.state(key)
        ctx.traces += 1
        for g, e in itertools.product(GOALS, energies):
            ctx.trace = [s, list(hist), [g, e]]
            m1, r1 = copy.deepcopy(m), RGenset.__new__(RGenset)
            r1.__dict__.update(ref.__dict__)
            drive(m1, r1, g, e)
            queue.append((m1, r1, hist + ([g, e],)))
        # the reset of any state is the initial state, and the delays start over
        m2, r2 = copy.deepcopy(m), RGenset(s)
        ctx.trace = [s, list(hist), 'reset']
        m2.reset()
        same(m2, r2, 'after reset')
        # a request outside [0, 1] is refused and changes nothing
        for bad in (-0.01, 1.01, 2):
            m3 = copy.deepcopy(m)
            ctx.trace = [s, list(hist), bad]
            try:
                m3.step([bad, 1.0], normalized=False)
            except (AssertionError, ValueError):
                same(m3, ref, f'after a refused request {bad}')
            else:
                ctx.fail(f'a status request of {bad} was accepted')

    # liveness: asking for the other status is granted after exactly the configured delay, and not before
    for want in (0, 1):
        m = build.module(dict(s, on=not want))
        delay = s.get('su' if want else 'wd', 0)
        for n in range(delay + 1):
            ctx.expect(m.current_status == 1 - want, 'status changed after {} of {} requests', n, delay + 1)
            m.step([want, s['min'] if want else 0.0], normalized=False)
            ctx.step()
        ctx.expect(m.current_status == want, 'status not changed after {} requests', delay + 1)
        ctx.traces += 1
    ctx.sample(dict(genset=s, reachable=sorted(seen)))
