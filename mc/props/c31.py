"""Data drawn for stochastic control: every draw of load, renewable and grid-status samples, and the forecasts built from them."""
import contextlib
import io
import itertools

import numpy as np
import pandas as pd

from mc import build, chance

from pymgrid.utils.DataGenerator import ForecastArgs, ForecastArgSet, NoisyGridData, NoisyLoadData, NoisyPVData, SampleGenerator, return_underlying_data

PID = 'C31'
RULE = ('grid status: every binary series up to a length and every outcome of the draws; load: every number of days and level of noise, every draw at several deviates, one at a time and all together; '
        'renewable: every pair of dawn and dusk hours and combinations of days, every draw of the daily peak and of the noise one at a time, all mixtures with the actual data; forecasts of whole microgrids')
BOUNDS = dict(quick='status series of length 2-5 (naive: 2-5), 1-15 days of load, 253 dawn/dusk pairs and 3-10 days of renewable data', thorough='status series of length 2-7, 1-22 days of load, 3-20 days of renewable data')
ASSUMPTIONS = ['data of whole days, one spell of daylight per day, dark at midnight and 23h', 'draws made through numpy\'s global generator']

NORMAL = [0.0, -1.0, 1.0, 4.0, -4.0]


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(2, 6 if q else 8):
        for kind in ('markov', 'naive'):
            for form in ('series', 'frame'):
                out.append(dict(id=f'grid/{kind}/{form}/{n}', what='grid', kind=kind, form=form, n=n, cost=4 ** n))
    for days in (1, 2, 7, 8, 9, 15) if q else range(1, 23):
        out.append(dict(id=f'load/{days}', what='load', days=days, cost=200))
    for dawn in range(0, 21):
        out.append(dict(id=f'sun/{dawn}', what='sun', dawn=dawn, days=3 if q else 5, cost=100))
    for days in (3, 4, 10) if q else (3, 4, 5, 6, 9, 10, 20):
        out.append(dict(id=f'peak/{days}', what='peak', days=days, cost=300))
    for grid in (False, True):
        for days in (3, 8):
            out.append(dict(id=f'whole/{int(grid)}/{days}', what='whole', grid=grid, days=days, cost=300))
    out.append(dict(id='args', what='args', cost=10))
    return out


def check(case, ctx):
    globals()[case['what']](case, ctx)
    ctx.sample(dict(case=case['id']))


# ---- grid status ----------------------------------------------------------------------------------------------------

def weighted(fn):
    """fn() under every outcome of its draws, with its probability (None where a draw is not a weighted choice)."""
    stack = [()]
    while stack:
        prefix = stack.pop()
        ch = chance.Chooser(prefix)
        weight = [1.0]

        def choice(a, size=None, replace=True, p=None, **kw):
            opts = list(range(a)) if np.isscalar(a) else list(a)
            p_ = np.full(len(opts), 1 / len(opts)) if p is None else np.asarray(p, dtype=float)
            if p_.shape != (len(opts),) or abs(p_.sum() - 1) > 1e-8 or (p_ < 0).any():
                raise ValueError('probabilities do not sum to 1')
            live = [i for i in range(len(opts)) if p_[i] > 0]

            def one():
                i = live[ch.pick(len(live))]
                if weight[0] is not None:
                    weight[0] *= p_[i]
                return opts[i]
            if size is None:
                return one()
            return np.array([one() for _ in range(int(np.prod(size)))]).reshape(size)

        def unit(size=None):
            weight[0] = None
            return chance._fill(size, lambda: ch.from_list(chance.UNIT))
        fakes = dict(choice=choice, random=unit, random_sample=unit, rand=lambda *s: unit(s or None),
                     uniform=lambda low=0.0, high=1.0, size=None: low + (high - low) * unit(size))
        saved = {k: getattr(np.random, k) for k in fakes}
        try:
            for k, f in fakes.items():
                setattr(np.random, k, f)
            res = fn()
        finally:
            for k, f in saved.items():
                setattr(np.random, k, f)
        yield res, weight[0]
        for k in range(len(ch.taken) - 1, len(prefix) - 1, -1):
            base = tuple(x for x, _ in ch.taken[:k])
            stack += [base + (j,) for j in range(1, ch.taken[k][1])]


def grid(case, ctx):
    n = case['n']
    for data in itertools.product((0, 1), repeat=n):
        ctx.trace = [dict(status=list(data))]
        ctx.traces += 1
        src = pd.Series([float(x) for x in data]) if case['form'] == 'series' else pd.DataFrame([float(x) for x in data])
        keep = src.copy()
        gen = NoisyGridData(src, dist_type=case['kind'])
        first = [data[:-1].count(0) / (n - 1), data[:-1].count(1) / (n - 1)]
        pairs = list(zip(data, data[1:]))
        total, seen = 0.0, {}
        for sample, weight in weighted(gen.sample):
            s = [int(x) for x in np.asarray(sample).reshape(-1)]
            ctx.expect(len(s) == n and all(x in (0, 1) for x in np.asarray(sample).reshape(-1)), 'status sample {} of length {} from data of length {}', list(np.asarray(sample)), len(s), n)
            if case['kind'] == 'naive':
                p = float(np.prod([data.count(x) / n for x in s]))
            else:
                p = first[s[0]]
                for a, b in zip(s, s[1:]):
                    out = [y for x, y in pairs if x == a]
                    p *= out.count(b) / len(out) if out else float(a == b)
            ctx.expect(p > 0, 'sample {} has a step that the data {} never takes', s, data)
            seen.setdefault(tuple(s), [p, 0.0])
            seen[tuple(s)][1] = None if weight is None or seen[tuple(s)][1] is None else seen[tuple(s)][1] + weight
            total += p
            ctx.step()
            ctx.state((case['kind'], data, tuple(s)))
        for s, (p, w) in seen.items():
            if w is not None:
                ctx.close(w, p, 'probability of status sample {}', s)
        ctx.close(sum(p for p, _ in seen.values()), 1.0, 'samples from {} with a probability', data)
        ctx.expect(keep.equals(src), 'sampling changed the data')
    for bad in ([0.5], [0, 1, 2], [1, -1], [0, float('nan')]):
        try:
            NoisyGridData(pd.Series(bad, dtype=float), dist_type=case['kind'])
        except ValueError:
            continue
        ctx.expect(False, 'status data {} was accepted', bad)


# ---- deviates as vectors --------------------------------------------------------------------------------------------

@contextlib.contextmanager
def deviates(change=None, common=0.0, unit=None):
    """Normal deviates: `common` everywhere except draw k -> z of `change`; uniform draws from the list `unit` (cycled). Counts the draws."""
    count = dict(normal=0, unit=0)
    change, unit = change or {}, unit or [0.5]

    def z():
        count['normal'] += 1
        return change.get(count['normal'] - 1, common)

    def u():
        count['unit'] += 1
        return unit[(count['unit'] - 1) % len(unit)]

    def normal(loc=0.0, scale=1.0, size=None):
        loc_, scale_ = np.asarray(loc, dtype=float), np.asarray(scale, dtype=float)
        if (scale_ < 0).any():
            raise ValueError('scale < 0')
        shape = np.broadcast_shapes(loc_.shape, scale_.shape) if size is None else ((size,) if np.isscalar(size) else tuple(size))
        return loc_ + scale_ * (chance._fill(shape, z) if shape else z())

    def random(size=None):
        return chance._fill(size, u)

    def triangular(left, mode, right, size=None):
        if not left <= mode <= right or left == right:
            raise ValueError('left <= mode <= right')
        draw = random(size)
        f = (mode - left) / (right - left)
        return np.where(draw < f, left + np.sqrt(draw * (right - left) * (mode - left)), right - np.sqrt((1 - draw) * (right - left) * (right - mode)))[()]
    fakes = dict(normal=normal, randn=lambda *s: normal(0.0, 1.0, s or None), standard_normal=lambda size=None: normal(0.0, 1.0, size), random=random, random_sample=random,
                 rand=lambda *s: random(s or None), uniform=lambda low=0.0, high=1.0, size=None: low + (high - low) * random(size), triangular=triangular)
    saved = {k: getattr(np.random, k) for k in fakes}
    try:
        for k, f in fakes.items():
            setattr(np.random, k, f)
        yield count
    finally:
        for k, f in saved.items():
            setattr(np.random, k, f)


def load_data(days):
    out = [2.0 + (t % 24) / 8 + ((t // 24) % 7) / 4 + ((5 * t) % 11) * (1 if t % 3 else 0.25) * (0.2 if t % 24 < 6 else 1) for t in range(24 * days)]
    out[-3] = 0.5           # the smallest value comes late
    return out


def load(case, ctx):
    days = case['days']
    data = load_data(days)
    T = len(data)
    cells = [[data[24 * e + t % 24] for e in range(days) if e % 7 == (t // 24) % 7] for t in range(T)]
    mean = [float(np.mean(c)) for c in cells]
    std = [float(np.std(c, ddof=1)) if len(c) > 1 else 0.0 for c in cells]
    least = min(data)
    for form in (pd.Series(data), pd.DataFrame(data), pd.DataFrame(dict(kw=data))):
        keep = form.copy()
        gen = NoisyLoadData(load_data=form)

        def draw(scale=None, **kw):
            with deviates(**kw) as count:
                with contextlib.redirect_stdout(io.StringIO()):
                    out = gen.sample(**({} if scale is None else dict(load_variance_scale=scale)))
            out = np.asarray(out).reshape(-1)
            ctx.expect(len(out) == T, 'load sample of length {} from data of length {}', len(out), T)
            ctx.expect((out >= 0).all(), 'load sample with negative values')
            ctx.step()
            return out, count['normal']
        for scale in (None, 0.0, 0.5, 1.0, 2.0, 8.0):
            for z in NORMAL:
                ctx.trace = [dict(scale=scale, deviate=z)]
                ctx.traces += 1
                out, n = draw(scale, common=z)
                want = [m + (1.0 if scale is None else scale) * s * z for m, s in zip(mean, std)]
                ctx.close_arr(out, [w if w >= 0 else least for w in want], 'load sample with all deviates at {} and scale {}', z, scale)
                ctx.state((days, scale, z))
        # one draw at a time: every hour is moved by exactly one draw, by its own standard deviation
        if form.ndim == 1:
            base, n = draw(1.0)
            hit = {}
            for k in range(n):
                for z in (1.0,) if k % 7 else (1.0, -0.5, 3.0):
                    ctx.trace = [dict(draw=k, deviate=z)]
                    out, _ = draw(1.0, change={k: z})
                    moved = [t for t in range(T) if abs(out[t] - base[t]) > 1e-12]
                    ctx.expect(len(moved) <= 1, 'one draw moved the hours {}', moved)
                    for t in moved:
                        hit.setdefault(t, set()).add(k)
                        want = mean[t] + std[t] * z
                        ctx.close(out[t], want if want >= 0 else least, 'load of hour {}', t)
                    ctx.state((days, k, z))
            ctx.expect(sorted(hit) == [t for t in range(T) if std[t] > 1e-12] and all(len(v) == 1 for v in hit.values()), 'hours moved by the draws: {}', sorted(hit))
        ctx.expect(keep.equals(form), 'sampling changed the load data')


# ---- renewable ------------------------------------------------------------------------------------------------------

def sun_data(days):
    """days: list of (dawn, dusk, peak): zero up to dawn and from dusk on."""
    out = []
    for dawn, dusk, peak in days:
        mid = (dawn + dusk) / 2
        out += [0.0 if h <= dawn or h >= dusk else peak * (1 - 0.6 * abs(h - mid) / (dusk - dawn)) for h in range(24)]
    return out


def parabola(dawn, dusk, peak):
    return [4 * peak * (h - dawn) * (dusk - h) / (dusk - dawn) ** 2 if dawn < h < dusk else 0.0 for h in range(24)]


def sun(case, ctx):
    for dusk in range(case['dawn'] + 2, 24):
        days = [(case['dawn'], dusk, 4.0 + (d % 2)) for d in range(case['days'])]
        for later in (False, True):
            if later:                   # days of different lengths
                if dusk - case['dawn'] < 4:
                    continue
                days = [(case['dawn'] + (d % 2), dusk - (d % 3 == 2), 4.0 + d / 2) for d in range(case['days'])]
            ctx.trace = [dict(days=days)]
            ctx.traces += 1
            curves(NoisyPVData(pv_data=pd.Series(sun_data(days)) if dusk % 2 else pd.DataFrame(sun_data(days))), days, ctx, (0.0, 0.5, 1.0))


def draw_pv(gen, T, ctx, change=None, common=0.0, unit=None, **kw):
    with deviates(change=change, common=common, unit=unit) as count:
        with contextlib.redirect_stdout(io.StringIO()):
            out = gen.sample(**kw)
    out = np.asarray(out).reshape(-1)
    ctx.expect(len(out) == T, 'renewable sample of length {} from data of length {}', len(out), T)
    ctx.expect((out >= 0).all(), 'renewable sample with negative values: {}', out.min())
    ctx.step()
    return out, count


def peaks(out, days):
    """The peak of each day's parabola, from its middle hours."""
    got = []
    for d, (dawn, dusk, _) in enumerate(days):
        h = (dawn + dusk) // 2
        got.append(out[24 * d + h] / parabola(dawn, dusk, 1.0)[h])
    return got


def curves(gen, days, ctx, units):
    T = 24 * len(days)
    ends = {}
    for u in units:
        out, _ = draw_pv(gen, T, ctx, unit=[u], noise_types=('uniform', None))
        ends[u] = peaks(out, days)
        ctx.close_arr(out, [x for (dawn, dusk, _), p in zip(days, ends[u]) for x in parabola(dawn, dusk, p)], 'daily curves')
        ctx.state((days, u, ends[u]))
    for d in range(len(days)):
        lo, hi = ends[0.0][d], ends[1.0][d]
        ctx.expect(lo >= 0 and hi >= 0, 'day {}: peak between {} and {}', d, lo, hi)
        for u in units:
            ctx.close(ends[u][d], lo + u * (hi - lo), 'peak of day {} at {} of its range', d, u)
    return ends


def peak(case, ctx):
    n = case['days']
    for level in (0, 1, 2):
        days = [(5 + (d % 2), 19 - (d % 3), [6.0, 6.0 + d, 8.0 - (3 * d) % 5][level]) for d in range(n)]
        ctx.trace = [dict(days=days)]
        ctx.traces += 1
        data = sun_data(days)
        T = len(data)
        src = pd.DataFrame(data)
        keep = src.copy()
        gen = NoisyPVData(pv_data=src)
        ends = curves(gen, days, ctx, (0.0, 0.25, 0.5, 0.75, 1.0))
        lo, hi = np.array(ends[0.0]), np.array(ends[1.0])
        most = np.array([max(data[24 * d:24 * d + 24]) for d in range(n)])
        if level == 0:
            ctx.expect((np.abs(lo - most) <= 0.6).all() and (np.abs(hi - most) <= 0.6).all(), 'peaks {} to {} for days that all peak at {}', list(lo), list(hi), list(most))
        for at, share in ((lo, 0.25), (hi, 0.9)):
            below, above = int((most < at - 0.15).sum()), int((most > at + 0.15).sum())
            ctx.expect(below <= share * n + 1e-9 and above <= (1 - share) * n + 1e-9, 'of {} days with peaks {}, {} lie below and {} above the bounds {}, which {} should lie below',
                       n, list(most), below, above, list(at), share)
        # every day's peak is drawn on its own
        base, _ = draw_pv(gen, T, ctx, unit=[0.0] * n, noise_types=('uniform', None))
        for d in range(n):
            unit = [0.0] * n
            unit[d] = 1.0
            out, count = draw_pv(gen, T, ctx, unit=unit, noise_types=('uniform', None))
            for e in range(n):
                ctx.close(peaks(out, days)[e], hi[e] if e == d else lo[e], 'peak of day {} when only that of day {} is high', e, d)
        # narrower ranges, other distributions, mixtures with the actual data
        for low, up in itertools.product((0.0, 0.25, 0.5), (0.5, 0.75, 1.0)):
            for u in (0.0, 1.0):
                out, _ = draw_pv(gen, T, ctx, unit=[u], noise_types=('uniform', None), noise_params=(dict(lower=low, upper=up), None))
                ctx.close_arr(peaks(out, days), lo + (low if u == 0 else up) * (hi - lo), 'peaks with the range narrowed to {}-{}', low, up)
        if (hi - lo > 1e-3).all():     # (fitted bounds may cross)
            for u in (0.0, 0.25, 0.5, 1.0):
                out, _ = draw_pv(gen, T, ctx, unit=[u], noise_types=('triangular', None))
                f = np.sqrt(u / 2) if u < 0.5 else 1 - np.sqrt((1 - u) / 2)
                ctx.close_arr(peaks(out, days), lo + f * (hi - lo), 'peaks from the triangular distribution')
        for u, r in itertools.product((0.0, 1.0), (0.0, 0.5, 1.0)):
            out, _ = draw_pv(gen, T, ctx, unit=[u], noise_types=('uniform', None), push_peak_val=True, push_peak_ratio=r)
            at = lo if u == 0 else hi
            ctx.close_arr(peaks(out, days), at + r * (most - at), 'peaks moved by {} towards the actual ones', r)
            plain, _ = draw_pv(gen, T, ctx, unit=[u], noise_types=('uniform', None))
            out, _ = draw_pv(gen, T, ctx, unit=[u], noise_types=('uniform', None), push_individual_vals=True, push_individual_ratio=r)
            ctx.close_arr(out, plain + r * (np.array(data) - plain), 'sample moved by {} towards the actual values', r)
            ctx.state((n, level, u, r))
        # noise on the hours, also on the curve of the last draw
        for ratio in (None, 0.05, 0.25, 0.5):
            kw = {} if ratio is None else dict(noise_params=(None, dict(std_ratio=ratio)))
            ratio = ratio or 0.05
            for z in NORMAL:
                out, _ = draw_pv(gen, T, ctx, unit=[0.5], common=z, noise_types=('uniform', 'gaussian'), **kw)
                plain, _ = draw_pv(gen, T, ctx, noise_types=(None, None))
                ctx.close_arr(plain, [x for (dawn, dusk, _), p in zip(days, (lo + hi) / 2) for x in parabola(dawn, dusk, p)], 'curve of the last draw')
                ctx.close_arr(out, np.maximum(plain * (1 + ratio * z), 0), 'sample with noise of {} at {}', ratio, z)
                again, _ = draw_pv(gen, T, ctx, common=z, noise_types=(None, 'gaussian'), **kw)
                ctx.close_arr(again, np.maximum(plain * (1 + ratio * z), 0), 'sample around the last curve')
        _, count = draw_pv(gen, T, ctx, noise_types=(None, 'gaussian'))
        hit = set()
        for k in range(count['normal']):
            out, _ = draw_pv(gen, T, ctx, change={k: 2.0}, noise_types=(None, 'gaussian'))
            moved = [t for t in range(T) if abs(out[t] - plain[t]) > 1e-12]
            ctx.expect(len(moved) <= 1 and not hit & set(moved), 'one draw moved the hours {}', moved)
            hit |= set(moved)
            for t in moved:
                ctx.close(out[t], plain[t] * 1.1, 'renewable production of hour {}', t)
        ctx.expect(sorted(hit) == [t for t in range(T) if plain[t] > 0], 'hours moved by the draws: {}', sorted(hit))
        ctx.expect(keep.equals(src), 'sampling changed the renewable data')


# ---- forecasts and samples of a microgrid ---------------------------------------------------------------------------

def microgrid(days, grid_on):
    T = 24 * days
    mods = [dict(k='load', n='load', ts=load_data(days)), dict(k='pv', n='pv', ts=sun_data([(5, 19, 6.0 + d % 3) for d in range(days)])),
            dict(k='battery', min=1.0, max=6.0, mc=2.0, md=2.5, eff=1.0, cost=0.0, charge=4.0, soc=None)]
    if grid_on:
        mods.append(dict(k='grid', n='grid', ts=[[0.5 + (t % 3) / 4, 0.25, 0.1, float(t % 5 != 2)] for t in range(T)], imp=9.0, exp=2.0, cco2=0.0))
    return mods


def legacy(days, grid_on):
    from pymgrid import Microgrid
    from pymgrid.modules import BatteryModule, GridModule, LoadModule, RenewableModule
    mods = microgrid(days, grid_on)
    out = [LoadModule(np.array(mods[0]['ts'])), RenewableModule(np.array(mods[1]['ts'])), BatteryModule(1.0, 6.0, 2.0, 2.5, 1.0, init_charge=4.0)]
    if grid_on:
        out.append(GridModule(9.0, 2.0, np.array(mods[3]['ts'])))
    return Microgrid(out).to_nonmodular(), mods


def whole(case, ctx):
    days = case['days']
    T = 24 * days
    mg, mods = legacy(days, case['grid'])
    actual = dict(pv=mods[1]['ts'], load=mods[0]['ts'], grid=[r[3] for r in mods[3]['ts']] if case['grid'] else [0.0] * T)
    data = return_underlying_data(mg)
    for k, v in actual.items():
        ctx.close_arr(data[k].values, v, 'underlying {} data', k)
    keep = (mg._load_ts.copy(), mg._pv_ts.copy(), mg._grid_status_ts.copy() if case['grid'] else None)

    def quiet(fn, **kw):
        with deviates(**kw), contextlib.redirect_stdout(io.StringIO()):
            return fn()

    plain = quiet(lambda: SampleGenerator(mg))
    for preset, ratio in ((None, None), (50, 0.5), (70, 0.65), (85, 1.0)):
        for z in (0.0, 1.0, -1.0):
            ctx.trace = [dict(preset=preset, deviate=z)]
            ctx.traces += 1
            gen = quiet(lambda: SampleGenerator(mg, **({} if preset is None else dict(preset_to_use=preset))), common=z)
            table(gen.forecasts, actual, T, case, ctx, 'forecast')
            mean = [float(np.mean([actual['load'][24 * e + t % 24] for e in range(days) if e % 7 == (t // 24) % 7])) for t in range(T)]
            if z == 0:
                ctx.close_arr(gen.forecasts['load'].values, mean, 'load forecast')
            if preset:
                bare = quiet(lambda: NoisyPVData(pd.Series(actual['pv'])).sample(noise_params=(dict(lower=0.0, upper=0.5), dict(std_ratio=0.25))), common=z)['pv'].values
                ctx.close_arr(gen.forecasts['pv'].values, bare + ratio * (np.array(actual['pv']) - bare), 'renewable forecast with preset {}', preset)
            for n in (1, 3):
                samples = quiet(lambda: gen.sample_from_forecasts(n_samples=n), common=z)
                ctx.expect(len(samples) == n and gen.samples is samples, '{} samples for {}', len(samples), n)
                for s in samples:
                    table(s, actual, T, case, ctx, 'sample')
                    weekday = [float(np.mean([gen.forecasts['load'].values[24 * e + t % 24] for e in range(days) if e % 7 == (t // 24) % 7])) for t in range(T)]
                    if z == 0:
                        ctx.close_arr(s['load'].values, weekday, 'load sample')
            # how far off the forecast is
            err = gen.validate_forecasts()
            ctx.expect(set(err) == {'pv', 'load'}, 'errors of {}', sorted(err))
            f, a = gen.forecasts['load'].values, np.array(actual['load'])
            ctx.close(err['load'], float(np.mean(np.abs(a - f) / a)), 'mean error of the load forecast')
            ctx.state((case['id'], preset, z, round(err['load'], 6)))
    shift = plain.underlying_data.copy()
    for by in (0.5, 1.0, 2.0):
        shift['load'] = np.array(actual['load']) * by
        shift['pv'] = np.array(actual['pv']) * (2 - by / 2)
        err = plain.validate_forecasts(shift)
        ctx.close(err['load'], abs(1 - by), 'error of {} times the load', by)
        ctx.close(err['pv'], abs(1 - by / 2), 'error of the renewable forecast')
        ctx.close(plain.validate_forecasts(shift, aggregate=True), np.sqrt((err['load'] ** 2 + err['pv'] ** 2) / 2), 'error of both')
    ctx.expect(keep[0].equals(mg._load_ts) and keep[1].equals(mg._pv_ts) and (keep[2] is None or keep[2].equals(mg._grid_status_ts)), 'sampling changed the data of the microgrid')


def table(df, actual, T, case, ctx, what):
    ctx.expect(list(df.columns) == ['pv', 'load', 'grid'] and len(df) == T and list(df.index) == list(range(T)), '{} with columns {} and {} rows', what, list(df.columns), len(df))
    ctx.expect((df.values >= 0).all(), '{} with negative or missing values', what)
    dark = np.array(actual['pv']) == 0
    ctx.expect((df['pv'].values[dark] == 0).all(), '{} with production at night', what)
    ctx.expect(set(df['grid'].values) <= ({0, 1} if case['grid'] else {0}), '{} of the grid status: {}', what, sorted(set(df['grid'].values)))
    ctx.step()


def args(case, ctx):
    for a, b, c, d, e in itertools.product((1, 2, 3), repeat=5):
        sets = ForecastArgs(a, b, c, d, e).param_sets
        want = {(lo, up, sd, pk, iv, lv) for iv in np.linspace(0, 1, e) for pk in np.linspace(0, 1, d) for sd in np.linspace(0, 0.5, b) for lo in np.linspace(0, 1, a)
                for up in np.linspace(1, lo, a) for lv in np.linspace(0, 2.0, c)}
        got = [(s['pv_args']['noise_params'][0]['lower'], s['pv_args']['noise_params'][0]['upper'], s['pv_args']['noise_params'][1]['std_ratio'], s['pv_args']['push_peak_ratio'],
                s['pv_args']['push_individual_ratio'], s['load_args']['load_variance_scale']) for s in sets]
        ctx.expect(set(got) == want, 'sets of forecast arguments')
        ctx.expect(all(x[0] <= x[1] for x in got), 'a lower end above the upper end')
        ctx.step()
    made = []
    for errs in itertools.product((0.1, 0.2, 0.5), repeat=2):
        s = ForecastArgSet(preset_to_use=85)
        for x in errs:
            s.update_with_mape(x)
        ctx.close(s.mape_mean, np.mean(errs), 'mean error')
        made.append(s)
    for a, b in itertools.product(made, made):
        ctx.expect((a < b) == (a.mape_mean < b.mape_mean) and (a > b) == (a.mape_mean > b.mape_mean) and (a == b) == (a.mape_mean == b.mape_mean), 'comparison of argument sets')
    for bad in (0, 51, '85'):
        try:
            ForecastArgSet(preset_to_use=bad)
        except ValueError:
            continue
        ctx.expect(False, 'preset {} was accepted', bad)
