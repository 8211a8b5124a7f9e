"""Forecasts: shape, bounds, truth of the oracle, padding at the end of the data, noise outcomes, and changes on the fly."""
import itertools
import math

import numpy as np

from mc import build, chance
from mc.ref import KIND
from mc.specs import GRID, LOAD, PV
from pymgrid.modules import GridModule, LoadModule, RenewableModule

PID = 'C13'
RULE = ('every module kind, series pattern, horizon and forecaster type, at every step to one beyond the data; every '
        'combination of noise outcomes over a grid of multiples of the standard deviation; and every change of '
        'forecaster, horizon or series at every step, compared with a module built that way')
BOUNDS = dict(quick='series of 5, horizons 0..7, noise grid of 5 values per draw with horizon <= 2 (grid module: 3 values, horizon 1)',
              thorough='series of 8, horizons 0..10, noise horizon <= 3')

G = [[0.5, 0.25, 0.2, 1], [1.0, 0.5, 0.1, 0], [2.0, 0.75, 0.4, 1], [0.25, 0.125, 0.3, 1], [0.75, 1.5, 0.0, 0],
     [1.25, 0.5, 0.6, 1], [0.1, 0.2, 0.3, 1], [3.0, 0.0, 0.0, 0]]
SERIES = dict(load=[3.0, 0.0, 5.0, 2.0, 4.0, 1.0, 7.0, 2.5], pv=[1.0, 6.0, 0.0, 2.5, 9.0, 0.0, 3.0, 8.0], grid=G,
              load_pos=[3.0, 1.0, 5.0, 2.0, 4.0, 2.0, 6.0, 3.0], pv_const=[2.0] * 8)


WINDOWS = [(0, 2), (0, 3), (0, 4), (1, 3), (2, 4), (3, -1), (1, -1), (4, 5)]


def s_of(name, n, **kw):
    kind = name.split('_')[0]
    s = dict(k=kind, ts=SERIES[name][:n])
    if kind == 'grid':
        s.update(imp=4.0, exp=3.0)
    s.update(kw)
    return s


def cases(tier):
    n = 5 if tier == 'quick' else 8
    out = []
    for name in SERIES:
        for h in range(1, 8 if tier == 'quick' else 11):
            out.append(dict(id=f'oracle/{name}/h{h}', kind='oracle', name=name, h=h, n=n))
            for f in CALLABLES:
                if f == 'vector_persist':
                    continue            # its rows are known beyond the end of the data: a case of its own
                out.append(dict(id=f'{f}/{name}/h{h}', kind='callable', f=f, name=name, h=h, n=n))
        for h in (1, 2) if tier == 'quick' else (1, 2, 3):
            for inc, rel in itertools.product((False, True), repeat=2):
                if name != 'grid' or h == 1:
                    out.append(dict(id=f'noise/{name}/h{h}/inc{int(inc)}rel{int(rel)}', kind='noise', name=name, h=h, n=n, inc=inc, rel=rel))
        for t in range(n):
            out.append(dict(id=f'change/{name}/{t}', kind='change', name=name, t=t, n=n))
        out.append(dict(id=f'none/{name}', kind='none', name=name, n=n))
        out.append(dict(id=f'scale/{name}', kind='scale', name=name, n=n))
        out.append(dict(id=f'growth/{name}', kind='growth', name=name, n=8))
        for i, f in WINDOWS:
            for h in (1, 2, 4):
                out.append(dict(id=f'oracle/{name}/h{h}/window{i}:{f}', kind='oracle', name=name, h=h, n=5, window=(i, f)))
        for short in (1, 2):
            for f in ('vector', 'list', 'flat'):
                for h in (1, 3):
                    out.append(dict(id=f'{f}/{name}/h{h}/short{short}', kind='callable', f=f, name=name, h=h, n=short))
        out.append(dict(id=f'persist/{name}', kind='callable', f='vector_persist', name=name, h=3, n=n))
    out.append(dict(id='reject', kind='reject', n=n))
    return out


def truth(s, t, j):
    """The row j steps ahead of t, or None past the end of the data."""
    rows = KIND[s['k']](s).rows()
    return rows[t + j] if t + j < len(rows) else None


def bounds_of(s):
    return KIND[s['k']](s).comp_bounds()


def clip(row, b):
    return [min(max(x, lo), hi) for x, (lo, hi) in zip(row, b)]


CALLABLES = {
    # every one keeps the sign and depends on all its arguments
    'vector': lambda c, v, n: v * 0.5,
    'vector_over': lambda c, v, n: v * 100.0,
    'vector_now': lambda c, v, n: np.repeat(np.asarray(c).reshape(1, -1), len(v), axis=0) * (v != 0),
    'vector_persist': lambda c, v, n: np.repeat(np.asarray(c).reshape(1, -1), n, axis=0) * 0.5,
    'scalar': None,
    'list': lambda c, v, n: (v * 0.25).tolist(),
    'flat': lambda c, v, n: (v * 0.25).reshape(-1),
    'flat_list': lambda c, v, n: (v * 0.25).reshape(-1).tolist(),
}


def check(case, ctx):
    kind = case['kind']
    if kind == 'reject':
        return reject(ctx)
    s = s_of(case['name'], case['n'])
    if 'window' in case:
        s.update(i=case['window'][0], f=case['window'][1])
    b = bounds_of(s)
    comps = len(b)
    mid = [(lo + hi) / 2 for lo, hi in b]
    data = np.array(KIND[s['k']](s).rows(), dtype=float)

    if kind == 'scale':
        return check_scale(case, ctx, s, b, data)
    if kind == 'growth':
        return check_growth(case, ctx, s, b, mid, data)

    def look(m, t, want, what):
        """Current row, then the forecast rows, through every public view."""
        h = len(want)
        cur = truth(s, t, 0) or mid
        flat = list(cur) + [x for row in want for x in row]
        for _ in range(2):
            ctx.close_arr(m.state, flat, '{}: state at step {}', what, t)
        ctx.close_arr(list(m.state_dict().values()), flat, '{}: state dict at step {}', what, t)
        st = KIND[s['k']](dict(s, fc='oracle' if h else None, h=h)).state(t)
        ctx.expect(list(m.state_dict()) == list(st), '{}: state keys {}', what, list(m.state_dict()))
        ctx.close_arr(m.current_obs, cur, '{}: current observation at step {}', what, t)
        obs = m.to_normalized(m.state, obs=True)
        ctx.expect(np.all(np.asarray(obs) >= 0) and np.all(np.asarray(obs) <= 1), '{}: observation {} outside [0, 1]', what, obs)
        ctx.expect(m.forecast_horizon == h, '{}: horizon {}', what, m.forecast_horizon)
        ctx.close_arr(m.time_series, data, '{}: the time series itself changed', what)
        ctx.outcome(flat)

    def oracle(t, h):
        return [list(truth(s, t, 1 + j) or mid) for j in range(h)]

    if kind in ('oracle', 'none'):
        h = case.get('h', 0)
        m = build.module(dict(s, fc='oracle' if kind == 'oracle' else None, h=h or 4))
        first, last = case.get('window', (0, -1))
        for t in range(first, (last if last > 0 else case['n']) + 1):
            ctx.trace = [t]
            ctx.state(t)
            look(m, t, oracle(t, h), kind)
            f = m.forecast()
            if kind == 'none':
                ctx.expect(f is None or np.size(f) == 0, 'a forecast without forecaster')
            else:
                ctx.close_arr(f, [x for r in oracle(t, h) for x in r], 'forecast() at step {}', t)
            if t < (last if last > 0 else case['n']):
                m.step(0.0, normalized=False)
                ctx.step()
        m.reset()
        look(m, first, oracle(first, h), 'after reset')
        ctx.traces += 1
        return
    if kind == 'callable':
        return check_callable(case, ctx, s, b, mid, look)
    if kind == 'noise':
        return check_noise(case, ctx, s, b, mid, look, data)
    return check_change(case, ctx, s, b, mid, data)


def check_callable(case, ctx, s, b, mid, look):
    h, n = case['h'], case['n']
    calls = []

    if case['f'] == 'scalar':
        def f(c, v, k):
            if np.size(v) > len(b):                   # called with a whole horizon: this one cannot
                raise TypeError('scalars only')
            calls.append((np.array(c, dtype=float), np.array(v, dtype=float), k))
            return v * (1.0 + 0.25 * k) if len(b) > 1 else float(np.asarray(v).item()) * (1.0 + 0.25 * k)
    else:
        def f(c, v, k):
            calls.append((np.array(c, dtype=float), np.array(v, dtype=float), k))
            return CALLABLES[case['f']](c, v, k)

    def expected(t):
        out = []
        for j in range(h):
            v = truth(s, t, 1 + j)
            if case['f'] == 'vector_persist' and t < n:
                out.append(clip([x * 0.5 for x in truth(s, t, 0)], b))
                continue
            if v is None:
                out.append(mid)
                continue
            c = truth(s, t, 0)
            if case['f'] == 'scalar':
                row = [x * (1.0 + 0.25 * (j + 1)) for x in v]
            else:
                row = list(np.asarray(CALLABLES[case['f']](np.array(c), np.array([v]), h), dtype=float).reshape(-1))
            out.append(clip(row, b))
        if t >= n:
            out = [mid] * h
        return out

    if case['f'] == 'scalar' and len(b) > 1:
        ctx.state('not applicable')        # a scalar function of a row of several components
        ctx.step()
        return
    # the constructor validates the function at a random point: every outcome of that draw
    for choices, m in chance.outcomes(lambda: build.module(dict(s, fc=f, h=h))):
        for t in range(n + 1):
            ctx.trace = [choices, t]
            ctx.state((choices, t))
            look(m, t, expected(t), case['f'])
            if t < n:
                calls.clear()
                m.step(0.0, normalized=False)
                ctx.step()
                for c, v, k in calls:
                    if t + 1 < n:
                        ctx.close_arr(c, truth(s, t + 1, 0), 'the forecaster was given the wrong current value')
        ctx.traces += 1


def check_noise(case, ctx, s, b, mid, look, data):
    h, n = case['h'], case['n']
    std0 = 0.75
    std = std0 * (abs(data.mean()) if case['rel'] else 1.0)
    grid = [0.0, -1.0, 1.0, 6.0, -6.0] if len(b) == 1 else [0.0, -1.0, 6.0]
    for t in range(n + 1):
        def at_t():
            """Build, and advance to t with no noise; only the draws of the last step are enumerated."""
            with chance.control(chance.Chooser(()), normal=[0.0]):
                m = build.module(dict(s, fc=std0, h=h, inc=case['inc'], rel=case['rel']))
                for _ in range(t - 1):
                    m.step(0.0, normalized=False)
            return m

        base = at_t()
        count = 0

        def last():
            import copy
            m = copy.deepcopy(base)
            if t > 0:
                m.step(0.0, normalized=False)
            else:
                m.reset()
            return m

        for choices, m in chance.outcomes(last, normal=grid):
            ctx.trace = [t, choices]
            ctx.step()
            ctx.state((t, choices))
            got = np.asarray(m.state, dtype=float)[len(b):].reshape(h, len(b))
            rows = [truth(s, t, 1 + j) for j in range(h)]
            known = [r for r in rows if r is not None] if t < n else []
            noise = [grid[c] for c in choices]
            want = []
            i = 0
            for j in range(h):
                if j >= len(known):
                    want.append(mid)
                    continue
                sd = std * (1 + math.log(1 + j)) if case['inc'] else std
                row = [x + sd * (noise[i + c] if i + c < len(noise) else 0.0) for c, x in enumerate(known[j])]
                i += len(b)
                want.append(clip(row, b))
            if len(choices) == len(known) * len(b):      # the noise is drawn as one deviate per value
                look(m, t, want, 'noise')
            ctx.expect(all(lo - 1e-9 <= x <= hi + 1e-9 for row in got for x, (lo, hi) in zip(row, b)), 'forecast {} outside the bounds', got)
            count += 1
        ctx.traces += count
    # the noise is really there, and only in the forecast
    ctx.expect(n == 0 or count >= 1, 'no outcome')


def check_change(case, ctx, s, b, mid, data):
    """At step t, change forecaster / horizon / series; afterwards the module is as if built that way."""
    n, t0 = case['n'], case['t']
    new_ts = list(reversed(s['ts']))
    grown = [([x * 3 for x in r[:3]] + r[3:]) for r in s['ts']] if s['k'] == 'grid' else [x * 3 for x in s['ts']]
    ops = [('fc', None, 3), ('fc', 'oracle', 1), ('fc', 'oracle', 4), ('h', 1), ('h', 2), ('h', 5), ('ts', new_ts), ('ts', grown)]

    def apply(m, sp, op):
        if op[0] == 'fc':
            m.set_forecaster(op[1], forecast_horizon=op[2])
            return dict(sp, fc=op[1], h=op[2] if op[1] else 0)
        if op[0] == 'h':
            m.forecast_horizon = op[1]
            return dict(sp, fc=sp.get('fc') or 'oracle', h=op[1])
        m.time_series = np.array(op[1], dtype=float)
        return dict(sp, ts=op[1])

    for start in ((None, 0), ('oracle', 2)):
        for pair in itertools.chain([(o,) for o in ops], itertools.product(ops, repeat=2)):
            m = build.module(dict(s, fc=start[0], h=start[1] or 3))
            sp = dict(s, fc=start[0], h=start[1])
            for _ in range(t0):
                m.step(0.0, normalized=False)
            for op in pair:
                sp = apply(m, sp, op)
            ctx.traces += 1
            for t in range(t0, min(n, t0 + 2) + 1):
                ctx.trace = [start, list(pair), t]
                r = KIND[s['k']](sp)
                want = r.state(t)
                ctx.state((start, pair, t))
                ctx.expect(list(m.state_dict()) == list(want), 'state keys {} after {}', list(m.state_dict()), pair)
                ctx.close_arr(list(m.state_dict().values()), list(want.values()), 'state at {} after {}', t, pair)
                ctx.close_arr(m.state, list(want.values()), 'state vector at {} after {}', t, pair)
                bd = r.bounds()
                ctx.close_arr(m.min_obs, [x[0] for x in bd], 'lower bounds after {}', pair)
                ctx.close_arr(m.max_obs, [x[1] for x in bd], 'upper bounds after {}', pair)
                ctx.close_arr(m.observation_space.unnormalized.high, [x[1] for x in bd], 'observation space after {}', pair)
                ctx.expect(m.forecast_horizon == r.horizon(), 'horizon after {}', pair)
                ctx.close_arr(m.time_series, r.rows(), 'series after {}', pair)
                obs = np.atleast_1d(m.to_normalized(m.state, obs=True))
                ctx.expect(obs.min() >= 0 and obs.max() <= 1, 'observation {} outside [0, 1] after {}', obs, pair)
                ctx.outcome(list(want.values()))
                if t < n:
                    m.step(0.0, normalized=False)
                    ctx.step()


def check_scale(case, ctx, s, b, data):
    """The scale of the noise after the series has been replaced: that of a module built with the new series."""
    h, n = 2, case['n']
    grown = [([x * 3 for x in r[:3]] + r[3:]) for r in s['ts']] if s['k'] == 'grid' else [x * 3 for x in s['ts']]
    for inc, rel, t0, z, window in itertools.product((False, True), (False, True), range(n - 1), (-1.0, 0.25, 1.0), ((0, -1), (0, n - 1), (1, -1))):
        if window[0] > t0:
            continue
        ctx.trace = [inc, rel, t0, z, window]
        kw = dict(fc=0.1, h=h, inc=inc, rel=rel, i=window[0], f=window[1])
        got = []
        with chance.control(chance.Chooser(()), normal=[z]):
            for first in (s['ts'], grown):
                m = build.module(dict(s, **kw, ts=first))
                for _ in range(t0 - window[0]):
                    m.step(0.0, normalized=False)
                if first is not grown:
                    m.time_series = np.array(grown, dtype=float)
                seen = [np.asarray(m.state, dtype=float).tolist()]
                m.step(0.0, normalized=False)
                got.append(seen + [np.asarray(m.state, dtype=float).tolist()])
        ctx.step()
        ctx.state((inc, rel, t0, z, window))
        ctx.close_arr(got[0], got[1], 'noisy forecasts after the series was replaced, and of a module built with it')
        ctx.outcome(got[0][0])
    ctx.traces += 1


def check_growth(case, ctx, s, b, mid, data):
    """Long horizons: the same deviation in every draw shows the growth of the noise over the horizon."""
    rows = KIND[s['k']](s).rows() * 4            # long data; every bound stays
    s = dict(s, ts=rows if s['k'] == 'grid' else list(s['ts']) * 4)
    data = np.array(KIND[s['k']](s).rows(), dtype=float)
    for h, inc, rel, z in itertools.product((3, 7, 12, 30, 40), (False, True), (False, True), (-1.0, 0.0, 1.0)):
        with chance.control(chance.Chooser(()), normal=[z]):
            m = build.module(dict(s, fc=0.1, h=h, inc=inc, rel=rel))
            for t in range(3):
                std = 0.1 * (abs(data.mean()) if rel else 1.0)
                got = np.asarray(m.state, dtype=float)[len(b):].reshape(h, len(b))
                ctx.trace = [h, inc, rel, z, t]
                for j in range(h):
                    row = truth(s, t, 1 + j)
                    sd = std * (1 + math.log(1 + j)) if inc else std
                    ctx.close_arr(got[j], mid if row is None else clip([x + sd * z for x in row], b), 'forecast {} steps ahead with every deviate at {} standard deviations', j + 1, z)
                m.step(0.0, normalized=False)
                ctx.step()
                ctx.state((h, inc, rel, z, t))
        ctx.traces += 1


def reject(ctx):
    """Forecasters that flip the sign, return the wrong shape or are no forecasters at all are refused."""
    bad = {
        'sign': lambda c, v, n: -1.0 * v - 1.0 * np.sign(v),
        'shape': lambda c, v, n: np.ones(len(np.atleast_1d(v)) + 3),
        'text': lambda c, v, n: 'tomorrow',
        'string': 'orcale',
        'raises': lambda c, v, n: 1 / 0,
        'object': {'a': 1},
    }
    for name, f in bad.items():
        for cls, ts in ((LoadModule, np.arange(1.0, 6.0)), (RenewableModule, np.arange(1.0, 6.0))):
            for how in ('constructor', 'setter'):
                def make():
                    try:
                        if how == 'constructor':
                            cls(ts, forecaster=f, forecast_horizon=2)
                        else:
                            cls(ts).set_forecaster(f, forecast_horizon=2)
                    except Exception:
                        return True
                    return False
                for choices, refused in chance.outcomes(make):
                    ctx.trace = [name, cls.__name__, how, choices]
                    ctx.step()
                    ctx.state((name, cls.__name__, how, choices))
                    ctx.expect(refused, 'a bad forecaster ({}) was accepted', name)
