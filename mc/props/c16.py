"""Isolation: inputs are never modified, and microgrids, copies and results never influence one another."""
import copy
import itertools
import pickle

import numpy as np
import pandas as pd

from mc import build, explore
from mc.ref import Ref
from mc.specs import BAT, BAT9, GEN, GENS, GRID, LOAD, PV, pick, specs
from pymgrid import Microgrid
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
from pymgrid.modules import GridModule

PID = 'C16'
NAMES = ['bat', 'bare', 'gens_pv', 'bat_grid_pv', 'two', 'flexgrid', 'fc', 'trio', 'uneven', 'named_pair', 'ints', 'frames', 'own_unb', 'window', 'order']
RULE = ('every interleaving of the steps and resets of two microgrids that were built from the same modules, or of which one is a '
        'copy (deepcopy, pickle) of the other made at any point; every action sequence with snapshots of all inputs; '
        'overwriting of every input and result')
DEEP = ['bat', 'bat_grid_pv', 'fc']
LEN = dict(quick=4, thorough=5)
BOUNDS = {t: f'all interleavings of {n} ({n - 1} for configurations other than {DEEP}) operations in total over an alphabet of two actions and reset per microgrid, {len(NAMES)} configurations' for t, n in LEN.items()}


def cases(tier):
    out = []
    for k in NAMES:
        n = LEN[tier] if k in DEEP else LEN[tier] - 1
        out += [dict(id=f'pair/{k}/{how}', pair=k, how=how, n=n, cost=10) for how in ('same_modules', 'deepcopy', 'pickle', 'same_data')]
        out += [dict(id=f'copy/{k}', copy=k, n=n), dict(id=f'inputs/{k}', inputs=k), dict(id=f'results/{k}', results=k)]
    out += [dict(id=f'wrap/{c}', wrap=c) for c in ('Discrete', 'Continuous')]
    out += [dict(id='flexness', flexness=True)]
    return out


def spec_of(name):
    s = copy.deepcopy(specs()[name])
    for m in s['m']:
        if m['k'] == 'genset' and not isinstance(m['cost'], float):
            m['cost'] = 0.5      # cost functions cannot be pickled
    return s


def ops(spec):
    acts = explore.alphabet(Ref(spec))
    return [acts[0], acts[-1], None]


def apply(m, op):
    """One operation, and everything it returns, in comparable form."""
    if op is None:
        obs = m.reset()
        return 'reset', {k: [np.array(x, dtype=float).tolist() for x in v] for k, v in obs.items() if k not in ('balance', 'other')}
    if m.current_step >= m.final_step:
        return 'over'
    obs, reward, done, info = m.run(explore.to_control(op), normalized=False)
    return ({k: [np.array(x, dtype=float).tolist() for x in v] for k, v in obs.items()}, float(reward), bool(done),
            {k: [{a: float(b) for a, b in i.items()} for i in v] for k, v in info.items()})


def view(m):
    log = m.get_log()
    return ([(x.name, x.current_step, np.array(x.state, dtype=float).tolist()) for x in m.module_list], m.current_step, m.initial_step, m.final_step,
            [str(c) for c in log.columns], np.nan_to_num(log.values.astype(float), nan=-777.0).tolist(), list(log.index))


def agree(ctx, a, b, msg, *args):
    ctx.expect(a == b, msg + ': {} instead of {}', *args, str(a)[:300], str(b)[:300])


def make_pair(spec, how):
    if how == 'same_modules':
        mods = build.module_list(spec)
        kw = dict(add_unbalanced_module=spec.get('unb', True), loss_load_cost=spec.get('llc', 10.0), overgeneration_cost=spec.get('ogc', 2.0))
        return Microgrid(mods, **kw), Microgrid(mods, **kw)
    if how == 'same_data':
        data = [build.series(s) if 'ts' in s else None for s in spec['m']]
        orig = build.series
        it = iter([d for d in data if d is not None] * 2)
        build.series = lambda s: next(it)
        try:
            return build.microgrid(spec), build.microgrid(spec)
        finally:
            build.series = orig
    a = build.microgrid(spec)
    return a, (copy.deepcopy(a) if how == 'deepcopy' else pickle.loads(pickle.dumps(a)))


def check(case, ctx):
    for k, f in (('pair', check_pair), ('copy', check_copy), ('inputs', check_inputs), ('results', check_results),
                 ('wrap', check_wrap), ('flexness', check_flexness)):
        if k in case:
            return f(case, ctx)


def check_pair(case, ctx):
    spec = spec_of(case['pair'])
    menu = ops(spec)
    alone = {}

    def solo(word):
        """What this sequence of operations returns on a microgrid of its own."""
        if word not in alone:
            m = build.microgrid(spec)
            alone[word] = ([apply(m, menu[i]) for i in word], view(m))
        return alone[word]

    for word in itertools.product([(w, i) for w in (0, 1) for i in range(len(menu))], repeat=case['n']):
        if word[0][0] == 1:
            continue                    # symmetric
        pair = make_pair(spec, case['how'])
        done = ([], [])
        ctx.trace = [case['how'], list(word)]
        for w, i in word:
            got = apply(pair[w], menu[i])
            done[w].append(i)
            agree(ctx, got, solo(tuple(done[w]))[0][-1], 'result of microgrid {} with another one beside it', w)
            ctx.step()
        for w in (0, 1):
            agree(ctx, view(pair[w]), solo(tuple(done[w]))[1] if done[w] else view(build.microgrid(spec)), 'microgrid {} after all', w)
        ctx.state(word)
        ctx.traces += 1


def check_copy(case, ctx):
    """A copy made at any point continues exactly like the original, and leaves it alone."""
    spec = spec_of(case['copy'])
    menu = ops(spec)
    for n in range(case['n'] - 1):
        for word in itertools.product(range(len(menu)), repeat=n):
            m = build.microgrid(spec)
            for i in word:
                apply(m, menu[i])
            before = view(m)
            for how in (copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))):
                for tail in itertools.product(range(len(menu)), repeat=2):
                    ctx.trace = [list(word), list(tail)]
                    a, b = how(m), how(m)
                    ctx.expect(type(a) is type(m) and a == m, 'the copy is not equal')
                    agree(ctx, view(a), before, 'copy')
                    ra = [apply(a, menu[i]) for i in tail]
                    agree(ctx, view(m), before, 'the original, after its copy went on')
                    agree(ctx, view(b), before, 'another copy, after the first went on')
                    rb = [apply(b, menu[i]) for i in tail]
                    agree(ctx, ra, rb, 'two copies')
                    agree(ctx, view(a), view(b), 'two copies, afterwards')
                    ref = build.microgrid(spec)
                    for i in word + tail:
                        apply(ref, menu[i])
                    agree(ctx, view(ref), view(a), 'the copy against an uninterrupted run')
                    ctx.step(4)
                    ctx.traces += 1
            ctx.state(word)


def freeze(x):
    if isinstance(x, pd.DataFrame):
        return 'frame', x.values.tolist(), list(x.columns), list(x.index)
    if isinstance(x, pd.Series):
        return 'series', x.tolist(), list(x.index)
    if isinstance(x, np.ndarray):
        return 'array', str(x.dtype), x.tolist()
    if isinstance(x, dict):
        return 'dict', [(k, freeze(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [freeze(v) for v in x]
    return x


def scramble(x):
    """Overwrite everything in a container in place."""
    if isinstance(x, (pd.DataFrame, pd.Series)):
        x.iloc[:] = -99
    elif isinstance(x, np.ndarray):
        if x.size:
            x[...] = -99
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, np.ndarray)):
                scramble(x[k])
            else:
                x[k] = -99
        x['junk'] = 1
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], (dict, list, np.ndarray)):
                scramble(x[i])
            else:
                x[i] = -99
        x.append(-99)


def check_inputs(case, ctx):
    spec = spec_of(case['inputs'])
    acts = explore.alphabet(Ref(spec))
    # time series: not modified, and not referred to after construction
    for fmt in (None, 'int', 'list', 'series', 'frame'):
        given = []
        s = copy.deepcopy(spec)
        for m in s['m']:
            if 'ts' in m and fmt is not None and not (m['k'] == 'grid' and fmt in ('list', 'series')):
                m['fmt'] = fmt
        orig = build.series

        def record(x):
            given.append(orig(x))
            return given[-1]
        build.series = record
        try:
            mods = build.module_list(s)
            frozen = freeze(given)
            m = Microgrid(mods, add_unbalanced_module=s.get('unb', True), loss_load_cost=s.get('llc', 10.0), overgeneration_cost=s.get('ogc', 2.0))
        finally:
            build.series = orig
        plain = build.microgrid(s)
        ctx.trace = [str(fmt)]
        for n, joint in enumerate((acts[0], acts[-1], acts[len(acts) // 2])):
            if n == 2:
                m.reset()
                plain.reset()
            agree(ctx, apply(m, joint), apply(plain, joint), 'run')
            ctx.step()
        ctx.expect(freeze(given) == frozen, 'a time series that was passed in has been modified')
        for g in given:
            scramble(g)
        agree(ctx, apply(m, acts[0]), apply(plain, acts[0]), 'run after the caller changed his data')
        agree(ctx, apply(m, None), apply(plain, None), 'reset after the caller changed his data')
        agree(ctx, view(m), view(plain), 'state after the caller changed his data')
        # nor referred to before the microgrid is built, or when the data is set later
        given, build.series = [], record
        try:
            mods = build.module_list(s)
            for g in given:
                scramble(g)
        finally:
            build.series = orig
        m = Microgrid(mods, add_unbalanced_module=s.get('unb', True), loss_load_cost=s.get('llc', 10.0), overgeneration_cost=s.get('ogc', 2.0))
        later = build.microgrid(s)
        spare = build.microgrid(s)
        for x, y in zip(later.module_list, spare.module_list):
            if hasattr(x, 'time_series'):
                data = np.array(y.time_series)
                x.time_series = data
                frozen = freeze(data)
                ctx.expect(freeze(np.array(x.time_series)) == freeze(np.array(y.time_series)), 'time series set')
                ctx.expect(freeze(data) == frozen, 'setting a time series modified it')
                scramble(data)
        for g, what in ((m, 'before the microgrid was built'), (later, 'after setting it')):
            ctx.trace = [str(fmt), what]
            plain = build.microgrid(s)
            for joint in (acts[0], acts[-1], None, acts[len(acts) // 2]):
                agree(ctx, apply(g, joint), apply(plain, joint), 'run with data that the caller changed {}', what)
                ctx.step()
            agree(ctx, view(g), view(plain), 'state with data that the caller changed {}', what)
        ctx.state(fmt)
        ctx.traces += 1
    # modules and the list of modules: not modified by building or running
    mods = build.module_list(spec)
    objs = [x[1] if isinstance(x, tuple) else x for x in mods]
    snap = [(id(o), o.current_step, np.array(o.state, dtype=float).tolist(), o.log_dict()) for o in objs]
    twins = [copy.deepcopy(o) for o in objs]
    m = Microgrid(mods, add_unbalanced_module=spec.get('unb', True))
    for joint in acts[:2]:
        m.run(explore.to_control(joint), normalized=False)
        ctx.step()
    now = [(id(o), o.current_step, np.array(o.state, dtype=float).tolist(), o.log_dict()) for o in objs]
    ctx.expect(now == snap and len(mods) == len(spec['m']), 'a module that was passed in has been modified')
    for o, w in zip(objs, twins):
        ctx.expect(o == w, 'module {} that was passed in has been modified', o)
    # controls: every joint action, also normalised; not modified, and reusable
    for joint in acts:
        for normalized in (False, True):
            control = explore.to_control(joint)
            if normalized:
                control = {k: [np.clip(x, 0, 1) for x in v] for k, v in control.items()}
            frozen = freeze(control)
            a, b = build.microgrid(spec), build.microgrid(spec)
            a.run(control, normalized=normalized)
            ctx.expect(freeze(control) == frozen, 'the control {} was modified', joint)
            b.run(copy.deepcopy(control), normalized=normalized)
            keep = control
            again = copy.deepcopy(keep)
            ra = a.run(keep, normalized=normalized)
            rb = b.run(again, normalized=normalized)
            ctx.close(ra[1], rb[1], 'reward when a control is used twice')
            # entries for modules that take no control, or that do not exist, are not touched either
            extra = dict(explore.to_control(joint), **{n: [0.0] for n in a.modules.names() if n not in control}, no_such_module=[1.0, 2.0])
            frozen = freeze(extra)
            a.run(extra, normalized=normalized)
            ctx.expect(freeze(extra) == frozen, 'the control {} with additional entries was modified', joint)
            b.run(extra, normalized=normalized)
            scramble(control)
            scramble(extra)
            agree(ctx, view(a), view(b), 'state after the caller changed his control')
            ctx.step(4)
        ctx.state(joint)


def check_results(case, ctx):
    """Whatever the caller does to what he was given, the microgrid does not notice."""
    spec = spec_of(case['results'])
    acts = explore.alphabet(Ref(spec))
    getters = dict(log=lambda m: m.get_log(), log_dict=lambda m: m.get_log(as_frame=False), state=lambda m: m.state_dict(), series=lambda m: m.state_series(),
                   normalized=lambda m: m.state_dict(normalized=True), modlog=lambda m: [x.log_frame() for x in m.module_list],
                   modlogdict=lambda m: [x.log_dict() for x in m.module_list],
                   mstate=lambda m: [x.state for x in m.module_list], msd=lambda m: [x.state_dict() for x in m.module_list],
                   bounds=lambda m: [y for x in m.module_list for y in (x.min_obs, x.max_obs)],
                   sample=lambda m: m.sample_action(), empty=lambda m: m.get_empty_action(), cost=lambda m: m.get_cost_info())
    for what in ['run', 'reset', *getters]:
        for n in range(3):
            a, b = build.microgrid(spec), build.microgrid(spec)
            for t in range(n + 1):
                joint = acts[(t * 2 + n) % len(acts)]
                ctx.trace = [what, n]
                r = a.run(explore.to_control(joint), normalized=False)
                b.run(explore.to_control(joint), normalized=False)
                if what == 'run':
                    for x in (r[0], r[3]):
                        scramble(x)
                ctx.step(2)
            if what == 'reset':
                r = a.reset()
                b.reset()
                scramble(r)
            elif what != 'run':
                r = getters[what](a)
                # what was handed out stays as it was when the microgrid goes on
                held, c = freeze(r), copy.deepcopy(b)
                r2 = getters[what](c)
                if what != 'sample':
                    ctx.expect(str(freeze(r2)) == str(held), 'result of {} on a copy', what)
                held = str(freeze(r2))
                for op in (acts[0], acts[-1], None, acts[0]):
                    apply(c, op)
                    ctx.expect(str(freeze(r2)) == held, 'the result of {} changed after it was handed out', what)
                    ctx.step()
                for x in (r if isinstance(r, list) else [r]):
                    scramble(x)
            agree(ctx, view(a), view(b), 'state after the caller changed the result of {}', what)
            agree(ctx, apply(a, acts[0]), apply(b, acts[0]), 'next step after the caller changed the result of {}', what)
            agree(ctx, apply(a, None), apply(b, None), 'reset after the caller changed the result of {}', what)
            agree(ctx, apply(a, acts[0]), apply(b, acts[0]), 'step after reset after the caller changed the result of {}', what)
            ctx.state((what, n))
            ctx.traces += 1


def check_wrap(case, ctx):
    """An environment made from a microgrid is independent of it."""
    cls = dict(Discrete=DiscreteMicrogridEnv, Continuous=ContinuousMicrogridEnv)[case['wrap']]
    for name in ('bat_grid_pv', 'fc', 'ints', 'gens_pv'):
        spec = spec_of(name)
        acts = explore.alphabet(Ref(spec))
        for n in range(3):
            m = build.microgrid(spec)
            for t in range(n):
                m.run(explore.to_control(acts[t]), normalized=False)
            before = view(m)
            for make in (cls, cls.from_microgrid):
                env, env2 = make(m), make(m)
                env.reset()
                for t in range(3):
                    ctx.trace = [name, n, t]
                    env.step(t % env.action_space.n if case['wrap'] == 'Discrete' else np.full(env.action_space.shape, 0.3 * t))
                    agree(ctx, view(m), before, 'the microgrid, after an environment made from it ran')
                    ctx.step()
                ctx.expect(env2.current_step == m.current_step or env2.current_step == m.initial_step, 'second environment moved')
            x, y = copy.deepcopy(m), m
            agree(ctx, apply(x, acts[0]), apply(y, acts[0]), 'the microgrid goes on')
            ctx.state((name, n))
            ctx.traces += 1


def check_flexness(case, ctx):
    """Making one grid flexible (or controllable again) concerns that grid only, whatever the order of events."""
    for word in itertools.product([(i, k) for i in range(3) for k in ('flex', 'fixed')], repeat=3):
        grids = [build.module(GRID) for _ in range(3)]
        want = ['controllable'] * 3
        ctx.trace = list(word)
        for i, k in word:
            getattr(grids[i], 'as_' + k)()
            want[i] = 'flex' if k == 'flex' else 'controllable'
            for j, g in enumerate(grids):
                ctx.expect(g.module_type[1] == want[j], 'grid {} became {}', j, g.module_type[1])
            ctx.expect(build.module(GRID).module_type[1] == 'controllable', 'a new grid is {}', build.module(GRID).module_type[1])
            ctx.step()
        m = Microgrid([build.module(LOAD)] + [(f'g{j}', g) for j, g in enumerate(grids)])
        for j in range(3):
            ctx.expect((f'g{j}' in m.flex.to_dict()) == (want[j] == 'flex') and (f'g{j}' in m.controllable.to_dict()) == (want[j] != 'flex'), 'grid {} in the wrong group', j)
        ctx.state(word)
        ctx.traces += 1
