"""Invalid data and parameters are rejected, valid ones never, and a rejected change changes nothing."""
import itertools

import numpy as np
import pandas as pd

from mc import chance
from pymgrid import Microgrid
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
from pymgrid.modules import (BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule, UnbalancedEnergyModule)

PID = 'C30'
RULE = ('every small series, price table, window, limit, efficiency, name and type combination over alphabets with values on both sides of every rule, given to the '
        'constructors and setters: rejected exactly if it breaks a documented rule, taken over exactly otherwise, and nothing changed by a rejection')
BOUNDS = dict(quick='series of up to 3 values over 5, tables of up to 2 rows, windows over series of up to 4, microgrids of up to 3 modules',
              thorough='series of up to 4 values over 6, tables of up to 2 rows with larger alphabets, windows over series of up to 6, microgrids of up to 4 modules')
ASSUMPTIONS = ['only rules that the documentation or the error messages state are claimed; missing numbers (NaN) and negative initial steps are not']


def rejected(f, kinds=(ValueError,)):
    """Whether f raises one of the kinds; other exceptions escape and are violations."""
    try:
        return False, f()
    except kinds as e:
        return True, e


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for kind in ('load', 'pv'):
        for fmt in ('array', 'list', 'series', 'frame', 'column'):
            out.append(dict(id=f'series/{kind}/{fmt}', what='series', kind=kind, fmt=fmt, n=4 if deep else 3, vals=[-2.0, -1.0, 0.0, 1.5, 3.0] + ([0.25] if deep else [])))
        out.append(dict(id=f'replace/{kind}', what='replace', kind=kind))
        for n in range(1, 7 if deep else 5):
            out.append(dict(id=f'window/{kind}/{n}', what='window', kind=kind, n=n))
    for n in range(1, 7 if deep else 5):
        out.append(dict(id=f'window/grid/{n}', what='window', kind='grid', n=n))
    for cols in (1, 2, 3, 4, 5):
        for rows in (1, 2):
            out.append(dict(id=f'table/{cols}x{rows}', what='table', cols=cols, rows=rows, deep=deep, cost=5 if cols == 4 and rows == 2 else 1))
    out += [dict(id=x, what=x) for x in ('limits', 'genset', 'battery', 'goal', 'keys', 'forecast', 'horizons', 'listlike')]
    size = 4 if deep else 3
    for k in range(len(KINDS)):
        out.append(dict(id=f'names/{k}', what='names', first=k, size=size, cost=3))
        out.append(dict(id=f'steps/{k}', what='steps', first=k, deep=deep, cost=3))
    return out


def check(case, ctx):
    globals()['check_' + case['what']](case, ctx)


def counted(ctx, key, verdict):
    ctx.step()
    ctx.traces += 1
    ctx.state(key)
    ctx.outcome((key, verdict))


# -- load and renewable series

CLS = dict(load=LoadModule, pv=RenewableModule)
FMT = dict(array=lambda v: np.array(v), list=list, series=pd.Series, frame=pd.DataFrame, column=lambda v: np.array(v).reshape(-1, 1))


def now(m):
    return m.current_load if isinstance(m, LoadModule) else m.current_renewable


def check_series(case, ctx):
    cls = CLS[case['kind']]
    for n in range(1, case['n'] + 1):
        for vals in itertools.product(case['vals'], repeat=n):
            ctx.trace = [vals]
            bad = min(vals) < 0 < max(vals)
            no, m = rejected(lambda: cls(FMT[case['fmt']](vals)))
            ctx.expect(no == bad, 'series {} {}', vals, 'rejected' if no else 'accepted')
            counted(ctx, vals, no)
            if not no:
                ctx.expect(len(m) == n and m.final_step == n and m.initial_step == 0, 'window of a module with {} values', n)
                for v in vals:
                    ctx.close(now(m), abs(v), 'value in the series {}', vals)
                    m.step(0.0, normalized=False)
                    ctx.step()
    ctx.sample(dict(case=case['id']))


def snapshot(m):
    return (list(m.state_dict().items()), np.asarray(m.state).tolist(), np.asarray(m.min_obs).tolist(), np.asarray(m.max_obs).tolist(), np.asarray(m.min_act).tolist(),
            np.asarray(m.max_act).tolist(), m.forecast_horizon, None if m.forecast() is None else m.forecast().tolist(), np.asarray(m.time_series).tolist(), m.initial_step, m.final_step,
            m.current_step, np.asarray(m.observation_space.unnormalized.low).tolist(), np.asarray(m.observation_space.unnormalized.high).tolist(), type(m.forecaster).__name__)


def check_replace(case, ctx):
    """A series assigned in the middle of an episode is judged like one given to the constructor."""
    cls = CLS[case['kind']]
    for fc in (None, 'oracle'):
        for t in range(3):
            for vals in itertools.product([-2.0, -1.0, 0.0, 1.5], repeat=3):
                ctx.trace = [fc, t, vals]
                m = cls([1.0, 2.0, 3.0], forecaster=fc, forecast_horizon=2)
                for _ in range(t):
                    m.step(0.0, normalized=False)
                before = snapshot(m)
                bad = min(vals) < 0 < max(vals)
                no, _ = rejected(lambda: setattr(m, 'time_series', np.array(vals)))
                ctx.expect(no == bad, 'new series {} {}', vals, 'rejected' if no else 'accepted')
                counted(ctx, (fc, t, vals), no)
                if no:
                    ctx.expect(snapshot(m) == before, 'the rejected series {} changed the module', vals)
                else:
                    ctx.close(now(m), abs(vals[t]), 'value after assigning {}', vals)
    # a series must reach the final step, whether that was given or not
    for fc in (None, 'oracle'):
        for n, f, new in itertools.product(range(1, 5), (-1, 1, 2, 3, 4), range(1, 7)):
            if f > n:
                continue
            for t in range(n if f < 0 else f):
                ctx.trace = [fc, n, f, new, t]
                m = cls(np.arange(1.0, n + 1), forecaster=fc, forecast_horizon=2, final_step=f)
                for _ in range(t):
                    m.step(0.0, normalized=False)
                before = snapshot(m)
                no, _ = rejected(lambda: setattr(m, 'time_series', np.arange(2.0, new + 2)))
                last = n if f < 0 else f
                ctx.expect(no == (new < last), 'a new series of {} values for {} steps {}', new, last, 'rejected' if no else 'accepted')
                counted(ctx, (fc, n, f, new, t), no)
                if no:
                    ctx.expect(snapshot(m) == before, 'the rejected series of {} values changed the module', new)
                else:
                    ctx.expect(m.final_step == last and len(m) == new, 'final step {} of {} values', m.final_step, len(m))
                    ctx.close(now(m), 2.0 + t, 'value after assigning {} values', new)


# -- windows

def check_window(case, ctx):
    n, kind = case['n'], case['kind']
    ts = np.arange(1.0, n + 1)
    if kind == 'grid':
        ts = np.stack([ts, ts, ts, np.ones(n)], axis=1)

    def make(**kw):
        return GridModule(5.0, 5.0, ts, **kw) if kind == 'grid' else CLS[kind](ts, **kw)

    finals = sorted({-1, 0, *range(1, n + 2), 2 * n + 3}) + [0.5, 1.5, n - 0.5, n + 0.5]
    for i in range(n + 1):
        for f in finals:
            whole = f == int(f)
            want = n if f <= 0 else f
            ok = whole and f <= n and want > i
            for fc in (None, 'oracle', 0.5):
                ctx.trace = ['constructor', i, f, fc]
                no, m = rejected(lambda: make(initial_step=i, final_step=f, forecaster=fc, forecast_horizon=2))
                ctx.expect(no == (not ok), 'window ({}, {}) over {} rows {} by the constructor', i, f, n, 'rejected' if no else 'accepted')
                counted(ctx, ('c', i, f, fc), no)
                if not no:
                    ctx.expect((m.initial_step, m.final_step, m.current_step) == (i, want, i), 'window {}', (m.initial_step, m.final_step, m.current_step))
            if i < n:
                m = make(initial_step=i, forecaster='oracle', forecast_horizon=2)
                before = snapshot(m)
                ctx.trace = ['setter', i, f]
                no, _ = rejected(lambda: setattr(m, 'final_step', f))
                ctx.expect(no == (not ok), 'final step {} from {} over {} rows {} by the setter', f, i, n, 'rejected' if no else 'accepted')
                counted(ctx, ('s', i, f), no)
                if no:
                    ctx.expect(snapshot(m) == before, 'the rejected final step {} changed the module', f)
                else:
                    ctx.expect(m.final_step == want, 'final step {} instead of {}', m.final_step, want)


# -- grid tables and limits

def check_table(case, ctx):
    cols, rows = case['cols'], case['rows']
    price = [-0.5, 0.0, 1.25] if rows == 1 or case['deep'] else [-0.5, 1.25]
    status = [0.0, 1.0, -1.0, 0.5, 2.0]
    columns = [price] * min(cols, 3) + [status] * (cols >= 4) + [[1.0]] * (cols > 4)
    if rows == 2 and cols >= 4 and case['deep']:
        columns[2] = [-0.5, 1.25]
    for flat in itertools.product(*(columns * rows)):
        ts = np.array(flat, dtype=float).reshape(rows, cols)
        ok = cols in (3, 4) and ts.min() >= 0 and (cols == 3 or set(ts[:, 3]) <= {0.0, 1.0})
        for form in (np.array, pd.DataFrame) if rows == 1 else (np.array,):
            ctx.trace = [ts.tolist(), form.__name__]
            no, m = rejected(lambda: GridModule(3.0, 2.0, form(ts)))
            ctx.expect(no == (not ok), 'grid table {} {}', ts.tolist(), 'rejected' if no else 'accepted')
            counted(ctx, (form.__name__, flat), no)
            # the same table, given to a grid that exists
            old = GridModule(3.0, 2.0, np.array([[1.0, 0.5, 0.1, 1.0], [2.0, 1.5, 1.1, 0.0]][:rows]), forecaster='oracle', forecast_horizon=1)
            before = snapshot(old)
            no2, _ = rejected(lambda: setattr(old, 'time_series', form(ts)))
            ctx.expect(no2 == no, 'grid table {} {} by the setter', ts.tolist(), 'rejected' if no2 else 'accepted')
            if no2:
                ctx.expect(snapshot(old) == before, 'the rejected table {} changed the grid', ts.tolist())
            else:
                ctx.close_arr(old.time_series, m.time_series, 'the series of the grid after {} was assigned', ts.tolist())
                ctx.close_arr(old.max_obs, np.tile(ts.max(axis=0).tolist() + [1.0] * (cols == 3), 2), 'bounds of the grid after {} was assigned', ts.tolist())
            if not no:
                for t in range(rows):
                    st = m.state_dict()
                    want = list(ts[t]) + ([1.0] if cols == 3 else [])
                    ctx.close_arr([st[k] for k in ('import_price_current', 'export_price_current', 'co2_per_kwh_current', 'grid_status_current')], want, 'row {} of {}', t, ts.tolist())
                    ctx.close(m.max_production, 3.0 * want[3], 'import limit in row {} of {}', t, ts.tolist())
                    ctx.close(m.max_consumption, 2.0 * want[3], 'export limit in row {} of {}', t, ts.tolist())
                    m.step(0.0, normalized=False)
    ctx.sample(dict(case=case['id']))


def check_limits(case, ctx):
    ts = np.array([[1.0, 0.5, 0.1, 1.0]] * 2)
    vals = [-5, -1e-9, 0, 1e-9, 2.5, 100]
    for a, b in itertools.product(vals, repeat=2):
        ctx.trace = [a, b]
        no, m = rejected(lambda: GridModule(a, b, ts))
        ctx.expect(no == (a < 0 or b < 0), 'limits {} {}', (a, b), 'rejected' if no else 'accepted')
        counted(ctx, (a, b), no)
        if not no:
            ctx.close(m.max_production, a, 'import limit')
            ctx.close(m.max_consumption, b, 'export limit')
    for llc, ogc in itertools.product([0.0, 1.0, 10.0], repeat=2):
        m = UnbalancedEnergyModule(False, loss_load_cost=llc, overgeneration_cost=ogc)
        ctx.expect((m.loss_load_cost, m.overgeneration_cost) == (llc, ogc), 'balancing costs')
        counted(ctx, (llc, ogc, 'unb'), False)


# -- genset, battery

def check_genset(case, ctx):
    vals = [0, 0.5, 1, 1.0000001, 2, 10]
    for a, b in itertools.product(vals, repeat=2):
        for kw in (dict(), dict(start_up_time=1), dict(start_up_time=2, wind_down_time=1, allow_abortion=False), dict(init_start_up=False)):
            ctx.trace = [a, b, kw]
            no, m = rejected(lambda: GensetModule(a, b, genset_cost=0.5, **kw))
            ctx.expect(no == (a > b), 'production range {} {}', (a, b), 'rejected' if no else 'accepted')
            counted(ctx, (a, b, kw), no)
            if not no:
                up = kw.get('init_start_up', True)
                ctx.close(m.max_production, b if up else 0, 'largest production')
                ctx.close(m.min_production, a if up else 0, 'smallest production')


def check_goal(case, ctx):
    """A goal status outside [0, 1] is refused, and the genset is as it was."""
    for su, wd, on, abort in itertools.product((0, 1, 2), (0, 1, 2), (True, False), (True, False)):
        for pre in itertools.product((0, 1), repeat=2):
            for goal in (-1.0, -1e-6, 0.0, 0.25, 0.75, 1.0, 1.0 + 1e-6, 2.0):
                m = GensetModule(1.0, 5.0, genset_cost=0.5, start_up_time=su, wind_down_time=wd, init_start_up=on, allow_abortion=abort)
                for g in pre:
                    m.step(np.array([g, 0.0]), normalized=False)
                before = (m.state_dict(), m.current_step, m.max_production, m.min_production)
                ctx.trace = [su, wd, on, abort, pre, goal]
                no, _ = rejected(lambda: m.step(np.array([goal, 0.0]), normalized=False), (ValueError, AssertionError))
                ctx.expect(no == (not 0 <= goal <= 1), 'goal status {} {}', goal, 'rejected' if no else 'accepted')
                counted(ctx, (su, wd, on, abort, pre, goal), no)
                if no:
                    ctx.expect((m.state_dict(), m.current_step, m.max_production, m.min_production) == before, 'the rejected status {} changed the genset', goal)
                else:
                    ctx.expect(m.current_step == before[1] + 1, 'the step was not counted')


def check_battery(case, ctx):
    for eff in (-1, -0.1, 0, 1e-9, 0.25, 1, 1 + 1e-9, 2):
        for charge, soc in itertools.product((None, 0.0, 5.0, 10.0), (None, 0.0, 0.5, 1.0)):
            ctx.trace = [eff, charge, soc]
            no, m = rejected(lambda: BatteryModule(0, 10, 4, 3, eff, init_charge=charge, init_soc=soc), (ValueError, AssertionError))
            ok = 0 < eff <= 1 and not (charge is None and soc is None)
            ctx.expect(no == (not ok), 'efficiency {} with charge {} and state of charge {} {}', eff, charge, soc, 'rejected' if no else 'accepted')
            counted(ctx, (eff, charge, soc), no)
            if not no:
                want = charge if charge is not None else 10 * soc
                ctx.close(m.current_charge, want, 'stored energy')
                ctx.close(m.soc, want / 10, 'state of charge')


# -- microgrids

def small(kind, i=0, f=-1, n=4, err=False):
    ts = np.arange(1.0, n + 1)
    if kind == 'load':
        return LoadModule(ts, initial_step=i, final_step=f)
    if kind == 'pv':
        return RenewableModule(ts, initial_step=i, final_step=f)
    if kind in ('grid', 'flexgrid'):
        m = GridModule(5.0, 5.0, np.stack([ts, ts, ts, np.ones(n)], axis=1), initial_step=i, final_step=f)
        if kind == 'flexgrid':
            m.as_flex()
        return m
    if kind == 'battery':
        return BatteryModule(0, 10, 4, 3, 0.9, init_charge=5.0, initial_step=i)
    if kind == 'genset':
        return GensetModule(1, 5, genset_cost=0.5, initial_step=i)
    return UnbalancedEnergyModule(False, initial_step=i)


KINDS = ['load', 'pv', 'grid', 'flexgrid', 'battery', 'genset', 'unb']
ROLE = dict(load=('fixed', 'sink'), pv=('flex', 'source'), grid=('controllable', 'both'), flexgrid=('flex', 'both'), battery=('controllable', 'both'),
            genset=('controllable', 'source'), unb=('flex', 'both'))


def check_names(case, ctx):
    """Modules may share a name exactly if they play the same role; the order in the microgrid is the order given."""
    names = ['a', 'b']
    for rest in range(0, case['size']):
        for kinds in itertools.product(KINDS, repeat=rest):
            kinds = (KINDS[case['first']],) + kinds
            for ns in itertools.product(names, repeat=len(kinds)):
                if ns[0] != 'a':
                    continue
                roles = {}
                ok = all(roles.setdefault(n, ROLE[k]) == ROLE[k] for n, k in zip(ns, kinds))
                mods = [(n, small(k)) for n, k in zip(ns, kinds)]
                ctx.trace = [list(zip(ns, kinds))]
                no, mg = rejected(lambda: Microgrid(mods, add_unbalanced_module=False), (NameError,))
                ctx.expect(no == (not ok), 'modules {} {}', list(zip(ns, kinds)), 'rejected' if no else 'accepted')
                counted(ctx, (kinds, ns), no)
                if not no:
                    got = {n: [type(m).__name__ for m in mg.modules[n]] for n in mg.modules.names()}
                    want = {n: [type(m).__name__ for q, m in mods if q == n] for n in set(ns)}
                    ctx.expect(got == want, 'modules {} instead of {}', got, want)
                    ctx.expect(all(m.name == (n, j) for n in want for j, m in enumerate(mg.modules[n])), 'names of the modules')


def check_steps(case, ctx):
    """Modules of one microgrid must agree on their first and last steps."""
    first = KINDS[case['first']]
    windows = [(i, f) for i in (0, 1, 2) for f in (-1, 2, 3) if f == -1 or f > i]
    timed = ('load', 'pv', 'grid', 'flexgrid')
    for second in KINDS:
        for w1, w2 in itertools.product(windows, repeat=2):
            if (first not in timed and w1[1] != -1) or (second not in timed and w2[1] != -1):
                continue
            for lengths in ((4, 4), (4, 3)) if second in timed and first in timed else ((4, 4),):
                for unb in (False, True):
                    mods = [('x', small(first, *w1, n=lengths[0])), ('y', small(second, *w2, n=lengths[1]))]
                    ends = {(w[1] if w[1] != -1 else n) for k, w, n in zip((first, second), (w1, w2), lengths) if k in timed}
                    ok = w1[0] == w2[0] and len(ends) <= 1
                    ctx.trace = [first, second, w1, w2, lengths, unb]
                    no, mg = rejected(lambda: Microgrid(mods, add_unbalanced_module=unb))
                    ctx.expect(no == (not ok), '{} over {} and {} over {} of {} rows {}', first, w1, second, w2, lengths, 'rejected' if no else 'accepted')
                    counted(ctx, (first, second, w1, w2, lengths, unb), no)
                    if not no:
                        ctx.expect(mg.initial_step == w1[0] == mg.current_step, 'initial step {}', mg.initial_step)
                        ctx.expect(not ends or mg.final_step == min(ends), 'final step {}', mg.final_step)


def check_listlike(case, ctx):
    good = dict(list=list, tuple=tuple, array=lambda ms: _array(ms))
    for kinds in itertools.product(KINDS, repeat=2):
        for named in (False, True):
            def mods():
                return [('m%d' % j, small(k)) if named else small(k) for j, k in enumerate(kinds)]
            for name, form in good.items():
                if name == 'array' and named:
                    continue
                for unb in (True, False):
                    ctx.trace = [kinds, named, name, unb]
                    if not named and 'grid' in kinds and 'flexgrid' in kinds:
                        continue        # one default name, two roles
                    given = form(mods())
                    mg = Microgrid(given, add_unbalanced_module=unb)
                    ctx.expect(len(mg.modules.to_list()) == 2 + unb, 'modules from a {}', name)
                    ctx.expect(len(given) == 2, 'the given {} was changed', name)
                    want = Microgrid(list(mods()), add_unbalanced_module=unb)
                    ctx.expect(mg == want, 'a microgrid from a {} differs from one from a list', name)
                    counted(ctx, (kinds, named, name, unb), False)
    for bad in (None, 5, 2.5, 'modules', small('load'), True):
        for unb in (True, False):
            ctx.trace = [repr(bad), unb]
            no, _ = rejected(lambda: Microgrid(bad, add_unbalanced_module=unb), (TypeError,))
            ctx.expect(no, '{!r} was accepted as a list of modules', bad)
            counted(ctx, (repr(bad)[:20], unb), no)


def _array(ms):
    out = np.empty(len(ms), dtype=object)
    for j, m in enumerate(ms):
        out[j] = m
    return out


def check_keys(case, ctx):
    """Observation keys that no module reports are refused."""
    good = ['load_current', 'renewable_current', 'soc', 'current_charge', 'import_price_current', 'grid_status_current', 'current_status']
    bad = ['nonsense', 'load', 'Soc', 'load_forecast_9']
    for cls in (DiscreteMicrogridEnv, ContinuousMicrogridEnv):
        for n in (1, 2, 3):
            for keys in itertools.permutations(good[:4] + bad[:3], n) if n < 3 else itertools.combinations(good + bad, n):
                mods = [small(k) for k in ('load', 'pv', 'battery', 'grid', 'genset')]
                ctx.trace = [cls.__name__, keys]
                no, env = rejected(lambda: cls(mods, observation_keys=list(keys)), (NameError,))
                ctx.expect(no == bool(set(keys) & set(bad)), 'observation keys {} {}', keys, 'rejected' if no else 'accepted')
                counted(ctx, (cls.__name__, keys), no)
                if not no:
                    ctx.expect(np.asarray(env.reset()).size == len(keys), 'observations for keys {}', keys)


FORECASTERS = {
    'none': (None, True), 'oracle': ('oracle', True), 'noise': (0.5, True), 'noise0': (0, True),
    'half': (lambda c, v, n: v * 0.5, True), 'zero': (lambda c, v, n: v * 0.0, True), 'list': (lambda c, v, n: (np.asarray(v) * 0.5).tolist(), True), 'flat': (lambda c, v, n: (np.asarray(v) * 0.5).reshape(-1), True),
    'scalar': (lambda c, v, n: float(np.asarray(v).item()) / n, True),
    'typo': ('orcale', False), 'empty': ('', False), 'seq': ([1.0], False), 'dictionary': ({'x': 1}.keys(), False),
    'sign': (lambda c, v, n: -v, False), 'shape': (lambda c, v, n: np.ones(np.size(v) + 3), False), 'text': (lambda c, v, n: 'rain', False),
    'raises': (lambda c, v, n: 1 / 0, False), 'none_out': (lambda c, v, n: None, False), 'args': (lambda c: c, False),
}


def check_forecast(case, ctx):
    """Forecasters are judged the same by constructor, module setter and microgrid setter, whatever the draws; a rejection changes nothing."""
    for kind, n in itertools.product(('load', 'pv', 'grid'), (1, 2, 3, 4)):
        for name, (f, ok) in FORECASTERS.items():
            if name == 'scalar' and (kind == 'grid' or n == 1):       # with one step of data it looks like a forecaster of vectors
                continue
            ts = np.arange(1.0, n + 1)
            if kind == 'grid':
                ts = np.stack([ts, ts, ts, np.ones(n)], axis=1)

            def make(fc, h):
                kw = dict(forecaster=fc, forecast_horizon=h)
                return GridModule(5.0, 5.0, ts, **kw) if kind == 'grid' else CLS[kind](ts, **kw)

            for how in ('constructor', 'module', 'microgrid', 'dict'):
                for h in (1, 2):
                    def go():
                        with_err = (ValueError, TypeError)
                        if how == 'constructor':
                            no, m = rejected(lambda: make(f, h), with_err)
                            return no, True, None if no else m
                        m = make('oracle', 3)
                        if n > 1:
                            m.step(0.0, normalized=False)
                        if how == 'module':
                            before = snapshot(m)
                            no, _ = rejected(lambda: m.set_forecaster(f, forecast_horizon=h), with_err)
                            return no, snapshot(m) == before, m
                        mg = Microgrid([m])
                        m = next(x for x in mg.modules.to_list() if hasattr(x, 'forecaster'))
                        before = snapshot(m), np.asarray(mg.microgrid_observation_space.shape).tolist()
                        no, _ = rejected(lambda: mg.set_forecaster({m.name[0]: f} if how == 'dict' else f, forecast_horizon=h), with_err)
                        return no, (snapshot(m), np.asarray(mg.microgrid_observation_space.shape).tolist()) == before, m
                    for choices, (no, same, m) in chance.outcomes(go, normal=[0.0]):
                        ctx.trace = [kind, n, name, how, h, choices]
                        ctx.expect(no == (not ok), 'forecaster {} for {} over {} steps {} ({})', name, kind, n, 'rejected' if no else 'accepted', how)
                        counted(ctx, (kind, n, name, how, h, choices), no)
                        if no:
                            ctx.expect(same, 'the rejected forecaster {} changed the module ({})', name, how)
                        else:
                            want = 0 if name == 'none' else h
                            ctx.expect(m.forecast_horizon == want, 'horizon {} with forecaster {} ({})', m.forecast_horizon, name, how)
                            fc = m.forecast()
                            ctx.expect(fc is None if not want else fc.shape == (want, 4 if kind == 'grid' else 1), 'forecast {}', fc)
    # names of a dict of forecasters
    for names in itertools.permutations(['load', 'renewable', 'grid', 'battery', 'wind', 'Load', 'fixed', 'flex', 'controllable', 'balance'], 2):
        mg = Microgrid([small(k) for k in ('load', 'pv', 'grid', 'battery')])
        before = [snapshot(m) for m in mg.modules.to_list() if hasattr(m, 'forecaster')]
        no, _ = rejected(lambda: mg.set_forecaster({n: 'oracle' for n in names}, forecast_horizon=2), (NameError,))
        ctx.trace = [names]
        ctx.expect(no == bool({'wind', 'Load', 'fixed', 'flex', 'controllable', 'balance'} & set(names)), 'forecasters for {} {}', names, 'rejected' if no else 'accepted')
        counted(ctx, names, no)
        after = [snapshot(m) for m in mg.modules.to_list() if hasattr(m, 'forecaster')]
        if no:
            ctx.expect(before == after, 'rejected forecasters for {} changed the microgrid', names)
        else:
            for m in mg.modules.to_list():
                if hasattr(m, 'forecaster'):
                    ctx.expect(m.forecast_horizon == (2 if m.name[0] in names else 0), 'horizon of {} after {}', m.name, names)


def check_horizons(case, ctx):
    """The microgrid has a forecast horizon exactly if its time series modules agree on one."""
    for kinds in (('load',), ('load', 'pv'), ('load', 'pv', 'grid'), ('load', 'battery', 'grid')):
        timed = [k for k in kinds if k != 'battery']
        for hs in itertools.product((0, 1, 2, 5), repeat=len(timed)):
            mg = Microgrid([small(k) for k in kinds])
            names = dict(load='load', pv='renewable', grid='grid')
            for k, h in zip(timed, hs):
                if h:
                    mg.set_forecaster({names[k]: 'oracle'}, forecast_horizon=h)
            ctx.trace = [kinds, hs]
            no, got = rejected(mg.get_forecast_horizon)
            ctx.expect(no == (len(set(hs)) > 1), 'horizons {} {}', hs, 'rejected' if no else 'accepted')
            counted(ctx, (kinds, hs), no)
            if not no:
                ctx.expect(got == hs[0], 'forecast horizon {} of {}', got, hs)
