"""Battery physics: breadth-first search over reachable charges, every step against the reference."""
import copy
import itertools
from collections import deque

import numpy as np

from mc import build
from mc.ref import RBattery
from pymgrid import Microgrid
from pymgrid.modules import BatteryModule, LoadModule

PID = 'C02'
RULE = ('breadth-first search over the stored charge of a real battery, for every configuration in a grid of '
        'capacities, rate limits, efficiencies and starting charges, and every request in an alphabet that includes '
        'the exact limits, values just inside and outside them, and far beyond; both directly and inside a microgrid')
DEPTH = dict(quick=3, thorough=4)
BOUNDS = {t: f'all request sequences to depth {d}, merged on equal charge' for t, d in DEPTH.items()}

GRID = dict(
    cap=[(0.0, 4.0), (1.0, 9.0), (0.7, 7.3)],
    rate=[(3.0, 4.0), (4.0, 1.0), (0.5, 20.0), (20.0, 0.3)],
    eff=[1.0, 0.5, 0.9, 0.33],
    init=['min', 'mid', 'max'],
    cost=[0.0, 0.25],
)


def cases(tier):
    out = []
    for i, (cap, rate, eff, cost) in enumerate(itertools.product(GRID['cap'], GRID['rate'], GRID['eff'], GRID['cost'])):
        out.append(dict(id=f'cap{cap}rate{rate}eff{eff}cost{cost}', cap=cap, rate=rate, eff=eff, cost=cost, depth=DEPTH[tier], cost_=1))
    out.append(dict(id='model', model=True, depth=DEPTH[tier]))
    out.append(dict(id='start', start=True, depth=1))
    for eff in EDGE_EFF:
        out.append(dict(id=f'edges/eff{eff}', edges=eff, fine=tier == 'thorough'))
    return out


def check_start(case, ctx):
    """The charge it starts from: the one given, even if a state of charge is given too; one of them must be given."""
    for (mn, mx), (mc, md), n in itertools.product(GRID['cap'], GRID['rate'], range(5)):
        s = dict(k='battery', min=mn, max=mx, mc=mc, md=md, eff=0.9, cost=0.25, bare=True)
        ctx.trace = [s, 'no charge']
        try:
            build.module(s)
            ctx.fail('a battery was made without an initial charge')
        except ValueError:
            ctx.step()
        charge = mn + (mx - mn) * n / 4
        for soc in (None, mn / mx, 0.5, 1.0):
            for bare in (True, False):
                explore_one(case, ctx, dict(s, charge=charge, soc=soc, bare=bare), via_microgrid=bare)
        explore_one(case, ctx, {k: v for k, v in dict(s, soc=charge / mx).items() if k != 'cost'}, via_microgrid=False)
        for to, how, first, a in itertools.product(range(5), ('current_charge', 'soc'), (None, 0.5, -0.5), (0.4, -0.4, 100.0, -100.0)):
            target = mn + (mx - mn) * to / 4
            one = dict(s, charge=charge, bare=False)
            ctx.trace = [one, first, how, target, a]
            m, ref = build.module(one), RBattery(one)
            if first is not None:
                m.step(first, normalized=False)
            setattr(m, how, target if how == 'current_charge' else target / mx)
            ref.charge = target
            got = observe(m)
            ctx.close_arr(got, [target, target / mx] * 2, 'charge and state of charge after {} was set', how)
            want = ref.step(a, 0)
            _, reward, _, info = m.step(a, normalized=False)
            ctx.step()
            ctx.close(info.get('provided_energy', info.get('absorbed_energy')), want.get('provided', want.get('absorbed')), 'energy moved on {} after {} was set', a, how)
            ctx.close_arr(observe(m), [ref.charge, ref.charge / mx] * 2, 'charge and state of charge on {} after {} was set', a, how)


EDGE_EFF = [1.0, 0.99, 0.95, 0.9, 0.85, 0.8, 0.7, 0.6, 0.33]


def check_edges(case, ctx):
    """Fill up and empty from many starting points, repeatedly: rounding must not carry the charge past a limit."""
    eff = case['edges']
    for mx in (1.0, 3.3, 7.3, 15.15, 52.01, 99.9, 290.0, 1213.7):
        for mn in (0.0, round(0.2 * mx, 3)):
            for n in range(400 if case['fine'] else 60):
                c = mn + (mx - mn) * n / (400 if case['fine'] else 60)
                s = dict(k='battery', min=mn, max=mx, mc=mx, md=mx, eff=eff, cost=0.01, charge=c)
                m = build.module(s)
                ref = RBattery(s)
                for a in (-1e6, -1.0, 1e6, 1.0, -1e6, -1e6, 0.5, -0.5):
                    ctx.trace = [s, a]
                    obs, reward, _, info = m.step(a, normalized=False)
                    want = ref.step(a, 0)
                    ctx.step()
                    ctx.expect(mn <= m.current_charge <= mx, 'charge {!r} outside [{!r}, {!r}]', m.current_charge, mn, mx)
                    ctx.close(m.current_charge, ref.charge, 'charge')
                    ctx.expect(m.max_production >= 0 and m.max_consumption >= 0, 'negative limit {} {}', m.max_production, m.max_consumption)
                    e = info.get('provided_energy', info.get('absorbed_energy'))
                    ctx.close(e, want.get('provided', want.get('absorbed')), 'energy')
                    ctx.expect(e >= 0, 'negative energy {}', e)
                    ctx.expect(all(0 <= x <= 1 for x in obs), 'observation {} outside [0, 1]', obs)
                ctx.state((mx, mn, n))
                ctx.traces += 1


def requests(r):
    """Zero, fractions of, exactly, and beyond both current limits, plus fixed amounts."""
    out, inn = r.limits()
    acts = [0.0, 0.3, -0.3, 1.0, -1.0, out, -inn, out / 2, -inn / 2, out + 0.01, -inn - 0.01, 100.0, -100.0]
    return list(dict.fromkeys(round(a, 9) for a in acts))


def observe(m):
    sd = m.state_dict()
    return float(m.current_charge), float(m.soc), float(sd['current_charge']), float(sd['soc'])


def check(case, ctx):
    if case.get('model'):
        return check_model(case, ctx)
    if case.get('start'):
        return check_start(case, ctx)
    if case.get('edges'):
        return check_edges(case, ctx)
    mn, mx = case['cap']
    mc, md = case['rate']
    for init in GRID['init']:
        charge = dict(min=mn, mid=(mn + mx) / 2, max=mx)[init]
        for how in ('charge', 'soc'):
            s = dict(k='battery', min=mn, max=mx, mc=mc, md=md, eff=case['eff'], cost=case['cost'])
            s['charge' if how == 'charge' else 'soc'] = charge if how == 'charge' else charge / mx
            explore_one(case, ctx, s, via_microgrid=(how == 'soc'))


def explore_one(case, ctx, s, via_microgrid):
    steps = case['depth'] + 1

    def fresh():
        if via_microgrid:
            m = build.microgrid(dict(m=[dict(k='load', ts=[1.0] * steps), s]))
            return m, m.modules['battery'][0]
        m = build.module(s)
        return None, m

    def drive(hist, g, m, ref, a):
        before = observe(m)
        out, inn = ref.limits()
        ctx.close(before[0], ref.charge, 'charge')
        ctx.close(m.max_production, out, 'max_production at charge {}', ref.charge)
        ctx.close(m.max_consumption, inn, 'max_consumption at charge {}', ref.charge)
        exp = ref.step(a, 0)
        if g is not None:
            _, _, _, info = g.run({'battery': [a]}, normalized=False)
            info = info['battery'][0]
            reward = m.log_dict()['reward'][-1]
        else:
            _, reward, done, info = m.step(a, normalized=False)
            ctx.expect(not done, 'a battery never ends an episode')
        ctx.step()
        got = info.get('provided_energy', 0.0) - info.get('absorbed_energy', 0.0)
        want = exp.get('provided', 0.0) - exp.get('absorbed', 0.0)
        ctx.close(got, want, 'energy exchanged on request {} at charge {}', a, before[0])
        ctx.expect(-1e-9 <= got <= a + 1e-9 if a >= 0 else a - 1e-9 <= got <= 1e-9, 'moved {} on a request of {}', got, a)
        now = observe(m)
        ctx.close(now[0], ref.charge, 'charge after request {} at charge {}', a, before[0])
        ctx.close(now[2], now[0], 'state_dict charge')
        ctx.close(now[1], ref.charge / s['max'], 'state of charge')
        ctx.close(now[3], now[1], 'state_dict soc')
        ctx.expect(s['min'] - 1e-9 <= now[0] <= s['max'] + 1e-9, 'charge {} outside [{}, {}]', now[0], s['min'], s['max'])
        delta = now[0] - before[0]
        ctx.close(delta, -got / s['eff'] if got >= 0 else -got * s['eff'], 'stored energy change for {} exchanged', got)
        ctx.expect(-s['md'] - 1e-9 <= delta <= s['mc'] + 1e-9, 'charge changed by {} in one step', delta)
        ctx.close(reward, exp['reward'], 'battery reward')
        ctx.outcome((got, delta, reward))

    seen = set()
    queue = deque([((), fresh(), RBattery(s))])
    while queue:
        hist, (g0, m0), ref = queue.popleft()
        key = round(ref.charge, 9)
        if key in seen:
            continue
        seen.add(key)
        ctx.state((s, via_microgrid, key))
        ctx.traces += 1
        for a in requests(ref):
            if g0 is None:
                g, m = None, copy.deepcopy(m0)
            else:
                g = copy.deepcopy(g0)
                m = g.modules['battery'][0]
            r = copy.copy(ref)
            ctx.trace = [s, list(hist), a]
            drive(hist, g, m, r, a)
            if len(hist) + 1 < case['depth']:
                queue.append((hist + (a,), (g, m), r))
    ctx.sample(dict(battery=s, charges=sorted(seen)[:8]))


def check_model(case, ctx):
    """A user-supplied transition model decides the stored change; it is given the documented arguments."""
    for leak in (0.0, 0.5):
        calls = []

        def model(external_energy_change, min_capacity, max_capacity, max_charge, max_discharge, efficiency,
                  battery_cost_cycle, max_production, max_consumption, state_dict):
            calls.append((external_energy_change, min_capacity, max_capacity, max_charge, max_discharge, efficiency,
                          battery_cost_cycle, max_production, max_consumption, dict(state_dict)))
            return external_energy_change * (1 - leak) if external_energy_change > 0 else external_energy_change

        for seq in itertools.product([-50.0, -1.0, 0.0, 0.5, 50.0], repeat=3):
            ctx.trace = [leak, list(seq)]
            m = BatteryModule(min_capacity=1.0, max_capacity=9.0, max_charge=3.0, max_discharge=4.0, efficiency=1.0,
                              battery_cost_cycle=0.25, battery_transition_model=model, init_charge=5.0)
            g = Microgrid([LoadModule(np.ones(4)), m])
            b = g.modules['battery'][0]
            charge = 5.0
            for a in seq:
                calls.clear()
                out, inn = min(4.0, charge - 1.0), min(3.0, 9.0 - charge)
                ext = -min(a, out) if a >= 0 else min(-a, inn)
                _, _, _, info = g.run({'battery': [a]}, normalized=False)
                ctx.step()
                ctx.expect(len(calls) >= 1, 'the transition model was not used')
                c = calls[0]
                ctx.close_arr(c[:9], [ext, 1.0, 9.0, 3.0, 4.0, 1.0, 0.25, out, inn], 'transition model arguments')
                ctx.close(c[9]['current_charge'], charge, 'transition model state')
                d = ext * (1 - leak) if ext > 0 else ext
                charge += d
                ctx.close(b.current_charge, charge, 'charge under a custom model')
                ctx.close(b.soc, charge / 9.0, 'soc under a custom model')
                ctx.close(b.log_dict()['reward'][-1], -abs(d) * 0.25, 'cost under a custom model')
                ctx.state((leak, charge))
