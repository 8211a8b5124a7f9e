"""Normalisation: inverse maps between [0, 1] and the action range, and both ways of running a step agree."""
import copy
import itertools

import numpy as np

from mc import build, explore
from mc.ref import Ref
from mc.specs import BAT, BAT9, GEN, GENS, GRID, LOAD, PV, few, specs

PID = 'C12'
RULE = ('for every module: every point of a grid over the normalised action and observation range and back; for every '
        'microgrid: every sequence of joint normalised actions, run side by side with the denormalised ones and the reference')
GRID_N = dict(quick=9, thorough=41)
BOUNDS = dict(quick='9 points per dimension; joint sequences of length 2-3 over the grid {0, .3, .5, 1}',
              thorough='41 points per dimension; longer joint sequences over the same grid')
MODS = dict(
    bat=BAT, bat9=BAT9, bat1=dict(BAT, eff=1.0, mc=8.0, md=0.5), gen=GEN, gen0=dict(GEN, min=0.0, max=7.5), gens=GENS,
    grid=GRID, grid_in=dict(GRID, exp=0.0), grid_out=dict(GRID, imp=0.0), grid0=dict(GRID, imp=0.0, exp=0.0),
    load=LOAD, pv=PV, load_fc=dict(LOAD, fc='oracle', h=2), grid_fc=dict(GRID, fc='oracle', h=3), flex=dict(GRID, flex=True),
    bat_tiny=dict(BAT, min=1e-5, max=9e-5, mc=3e-5, md=2e-5, charge=5e-5), gen_tiny=dict(GEN, min=1e-5, max=6e-5), grid_tiny=dict(GRID, imp=2e-5, exp=3e-5, ts=[[1e-4 * x for x in r[:3]] + [1.0] for r in GRID['ts']]),
    load_tiny=dict(LOAD, ts=[1e-4, 0.0, 3e-4, 5e-5, 2e-4]), pv_tiny=dict(PV, ts=[1e-4, 0.0, 3e-4, 5e-5, 2e-4]),
    pvc=dict(PV, ts=[4.0] * 5), loadz=dict(LOAD, ts=[0.0] * 5))
MG = ['bat', 'bat9_pv', 'gen', 'gens_pv', 'grid', 'bat_grid_pv', 'bat_gen_pv', 'two', 'all', 'two_grids', 'flex_and_ctrl_grid', 'window']
POINTS = [0.0, 0.3, 0.5, 1.0]
FLAT = dict(LOAD, ts=[4.0] * 5)
SPACES = {k: None for k in MG + ['bare', 'trio', 'uneven', 'named_pair', 'order', 'flexgrid', 'own_unb']}
SPACES.update(flat_first=dict(m=[FLAT, LOAD, PV, BAT, GEN, GRID]), flat_second=dict(m=[LOAD, FLAT, PV, dict(PV, ts=[0.0] * 5), BAT, BAT9, GEN, GRID, dict(GRID, exp=0.0)]),
              dead_grid=dict(m=[LOAD, GRID, dict(GRID, imp=0.0, exp=0.0), BAT]), flat_fc=dict(m=[dict(LOAD, fc='oracle', h=2), dict(FLAT, fc='oracle', h=2), BAT]))


def act_range(s):
    k = s['k']
    if k == 'battery':
        return [(-s['mc'] / s['eff'], s['md'] * s['eff'])]
    if k == 'genset':
        return [(0.0, 1.0), (0.0, s['max'])]
    if k == 'grid':
        return [(-s['exp'], s['imp'])]
    if k == 'pv':
        return [(0.0, max(map(abs, s['ts'])))]
    return []                   # a load takes no action


def cases(tier):
    out = [dict(id=f'module/{k}', mod=k, n=GRID_N[tier]) for k in MODS]
    for name in MG:
        for i in range(len(POINTS)):
            out.append(dict(id=f'mg/{name}/{i}', mg=name, first=i, budget=1500 if tier == 'quick' else 6000))
    out += [dict(id=f'space/{k}', space=k) for k in SPACES]
    return out + [dict(id=f'form/{k}', form=k, cost=2) for k in MG + ['bare', 'trio', 'uneven', 'named_pair', 'order', 'ints', 'flexgrid']]


def forms(key_names, joint, single):
    """Ways of writing the same control: containers, number types, order of the keys."""
    def vals(name):
        return [joint[k] for k in sorted(joint) if k[0] == name]

    def num(conv, exact=lambda x: True):
        def f(a):
            if isinstance(a, (list, tuple)):
                return np.array(a, dtype=float)
            return conv(a) if exact(a) else float(a)
        return f

    def fixed(a):
        a.setflags(write=False)
        return a

    def whole(a):
        return float(a).is_integer()

    def f32(a):
        return float(np.float32(a)) == float(a)
    els = dict(float=num(float), f64=num(np.float64), f32=num(np.float32, f32), int=num(int, whole), i64=num(np.int64, whole), arr=num(lambda a: np.array([a], dtype=float)),
               lst=lambda a: list(a) if isinstance(a, (list, tuple)) else float(a), tup=lambda a: tuple(a) if isinstance(a, (list, tuple)) else float(a),
               one=num(lambda a: [float(a)]))
    els['read-only array'] = lambda a: fixed(np.atleast_1d(np.array(a, dtype=float)))
    for en, el in els.items():
        yield f'list of {en}', {n: [el(a) for a in vals(n)] for n in key_names}
    yield 'tuple', {n: tuple(els['float'](a) for a in vals(n)) for n in key_names}
    yield 'reversed keys', {n: [els['float'](a) for a in vals(n)] for n in reversed(key_names)}
    yield 'array', {n: [els['float'](a) for a in vals(n)] if isinstance(vals(n)[0], (list, tuple)) else np.array(vals(n), dtype=float) for n in key_names}
    yield 'scalar', {n: els['float'](vals(n)[0]) if len(vals(n)) == 1 and not isinstance(vals(n)[0], (list, tuple)) else [els['float'](a) for a in vals(n)] for n in key_names}
    yield 'f32 scalar', {n: els['f32'](vals(n)[0]) if len(vals(n)) == 1 and not isinstance(vals(n)[0], (list, tuple)) else [els['float'](a) for a in vals(n)] for n in key_names}
    yield 'int scalar', {n: els['int'](vals(n)[0]) if len(vals(n)) == 1 and not isinstance(vals(n)[0], (list, tuple)) else [els['float'](a) for a in vals(n)] for n in key_names}


def check_form(case, ctx):
    spec = specs()[case['form']]
    acts = explore.alphabet(Ref(spec))
    acts = acts if len(acts) <= 30 else acts[::max(1, len(acts) // 30)]
    names = []
    for (n, i), _ in Ref(spec).ctrl:
        if n not in names:
            names.append(n)
    for first in [None] + acts[:3]:
        base, ref = build.microgrid(spec), Ref(spec)
        if first is not None:
            base.run(explore.to_control(first), normalized=False)
            ref.step(first)
        for joint in acts:
            after = ref.clone()
            rout, tot = after.step(joint)
            for what, control in forms(names, joint, names):
                x = copy.deepcopy(base)
                ctx.trace = [str(first), what, str(joint)]
                keep = copy.deepcopy(control)
                out = x.run(control, normalized=False)
                ctx.step()
                ctx.close(out[1], tot['reward'], 'reward of a control written as {}', what)
                for k, r in rout.items():
                    i = out[3][k[0]][k[1]]
                    ctx.close(i.get('provided_energy', 0.0) - i.get('absorbed_energy', 0.0), r.get('provided', 0.0) - r.get('absorbed', 0.0), 'energy of {} with a control written as {}', k, what)
                ctx.expect(repr(keep) == repr(control), 'run changed the control it was given: {}, before {}', control, keep)
                norm = x.to_normalized(copy.deepcopy(control), act=True) if what in ('list of float', 'list of f64', 'tuple', 'reversed keys') else None
                if norm is not None and all(hi > lo for _, m in ref.ctrl for lo, hi in act_range(m.s)):
                    for n in names:
                        vals = [joint[k] for k in sorted(joint) if k[0] == n]
                        for v, w, key in zip(vals, norm[n], [k for k in sorted(joint) if k[0] == n]):
                            r = act_range(ref.mods[key].s)
                            ctx.close_arr(w, [(y - lo) / (hi - lo) for y, (lo, hi) in zip(np.atleast_1d(v), r)], 'normalised action of {}', n)
            ctx.state((ref.t, joint))
            ctx.traces += 1
    ctx.sample(dict(spec=case['form'], controls=len(acts)))


def check(case, ctx):
    if 'mod' in case:
        return check_module(case, ctx)
    if 'form' in case:
        return check_form(case, ctx)
    if 'space' in case:
        return check_space(case, ctx)
    spec = specs()[case['mg']]
    ref0 = Ref(spec)
    dims = sum(2 if m.s['k'] == 'genset' else 1 for _, m in ref0.ctrl)
    pts = POINTS if dims <= 3 else [0.0, 0.4, 1.0]
    combos = list(itertools.product(pts, repeat=dims))
    if len(combos) > 64:
        combos = [c for c in combos if c.count(0.4) <= 2][:96]
    depth = 1
    while depth < 3 and len(combos) ** (depth + 1) / len(pts) <= case['budget']:
        depth += 1

    def to_norm(c):
        d, j = {}, 0
        for key, m in ref0.ctrl:
            if m.s['k'] == 'genset':
                d.setdefault(key[0], []).append(np.array(c[j:j + 2]))
                j += 2
            else:
                d.setdefault(key[0], []).append(c[j])
                j += 1
        return d

    def denorm(c):
        d, joint, j = {}, {}, 0
        for key, m in ref0.ctrl:
            r = act_range(m.s)
            v = [lo + (hi - lo) * x for (lo, hi), x in zip(r, c[j:j + len(r)])]
            j += len(r)
            d.setdefault(key[0], []).append(np.array(v) if len(v) == 2 else v[0])
            joint[key] = v if len(v) == 2 else v[0]
        return d, joint

    def go(a, b, ref, d):
        for c in combos:
            if d == 0 and len(pts) > case['first'] and c[0] != pts[case['first']]:
                continue
            ctx.trace.append(c)
            x, y, f = copy.deepcopy(a), copy.deepcopy(b), ref.clone()
            norm, (den, joint) = to_norm(c), denorm(c)
            back = x.from_normalized(to_norm(c), act=True)
            fwd = x.to_normalized(den, act=True)
            ctx.expect(set(back) == set(norm) and set(fwd) == set(norm), 'normalisation changed the modules of a control')
            for n in norm if all(hi > lo for k, m in ref0.ctrl for lo, hi in act_range(m.s)) else ():
                ctx.expect(len(back[n]) == len(norm[n]) == len(fwd[n]), 'normalisation changed the number of actions of {}', n)
                for i in range(len(norm[n])):
                    ctx.close_arr(back[n][i], den[n][i], 'denormalised action of {}', n)
                    if all(hi > lo for lo, hi in act_range(ref0.mods[(n, i)].s)):
                        ctx.close_arr(fwd[n][i], norm[n][i], 'normalised action of {}', n)
                    ctx.close_arr(x.modules[n][i].from_normalized(np.asarray(norm[n][i]) if np.ndim(norm[n][i]) else norm[n][i], act=True),
                                  den[n][i], 'module denormalised action of {}', n)
            sp = x.microgrid_action_space
            up, down = sp.denormalize(to_norm(c)), sp.normalize(denorm(c)[0])
            for n in norm if all(hi > lo for k, m in ref0.ctrl for lo, hi in act_range(m.s)) else ():
                for i in range(len(norm[n])):
                    ctx.close_arr(up[n][i], den[n][i], 'action space: denormalised action of {}', n)
                    ctx.close_arr(down[n][i], norm[n][i], 'action space: normalised action of {}', n)
            o1 = x.run(norm, normalized=True)
            o2 = y.run(den, normalized=False)
            rout, tot = f.step(joint)
            ctx.step(2)
            ctx.close(o1[1], tot['reward'], 'reward of the normalised control')
            ctx.close(o2[1], tot['reward'], 'reward of the denormalised control')
            ctx.expect(bool(o1[2]) == bool(o2[2]), 'done differs')
            for k, r in rout.items():
                for o, what in ((o1, 'normalised'), (o2, 'denormalised')):
                    i = o[3][k[0]][k[1]]
                    ctx.close(i.get('provided_energy', 0.0) - i.get('absorbed_energy', 0.0),
                              r.get('provided', 0.0) - r.get('absorbed', 0.0), 'energy of {} under the {} control', k, what)
                ctx.close_arr(o1[0][k[0]][k[1]], o2[0][k[0]][k[1]], 'observation of {}', k)
            ctx.state((f.t, f.state()))
            ctx.outcome([r['reward'] for r in rout.values()])
            if d + 1 < depth and f.t < f.final:
                go(x, y, f, d + 1)
            else:
                ctx.traces += 1
            ctx.trace.pop()

    if len(pts) > case['first']:
        go(build.microgrid(spec), build.microgrid(spec), ref0, 0)
        ctx.sample(dict(spec=case['mg'], depth=depth, combos=len(combos)))
    ctx.state(('root', case['first']))


def check_space(case, ctx):
    """The spaces of a whole microgrid: every corner and every single move, normalised and back, as its modules do it."""
    spec = SPACES[case['space']] or specs()[case['space']]
    mg = build.microgrid(spec)
    mods = mg.modules.to_dict()
    ctrl = mg.controllable.to_dict()
    for kind, sp, names in (('act', mg.microgrid_action_space, ctrl), ('obs', mg.microgrid_observation_space, mods)):
        lo = {n: [np.atleast_1d(m.min_act if kind == 'act' else m.min_obs) for m in names[n]] for n in names}
        hi = {n: [np.atleast_1d(m.max_act if kind == 'act' else m.max_obs) for m in names[n]] for n in names}
        ctx.expect(set(sp.unnormalized.keys()) == set(names) == set(sp.normalized.keys()), '{} space of {}', kind, list(sp.unnormalized.keys()))
        for n in names:
            ctx.expect(len(sp.unnormalized[n]) == len(names[n]) == len(sp.normalized[n]), '{} space: number of {}', kind, n)
            for i in range(len(names[n])):
                ctx.close_arr(sp.unnormalized[n][i].low, lo[n][i], '{} space of {} {}: lower bounds', kind, n, i)
                ctx.close_arr(sp.unnormalized[n][i].high, hi[n][i], '{} space of {} {}: upper bounds', kind, n, i)
                ctx.close_arr(sp.normalized[n][i].low, 0 * lo[n][i], '{} space of {} {}: normalised', kind, n, i)
                ctx.close_arr(sp.normalized[n][i].high, 0 * lo[n][i] + 1, '{} space of {} {}: normalised', kind, n, i)
        dims = [(n, i, j) for n in names for i in range(len(names[n])) for j in range(len(lo[n][i]))]
        points = [(b, None, None) for b in POINTS] + [(b, d, p) for b in (0.0, 0.5, 1.0) for d in dims for p in POINTS]
        for base, dim, p in points:
            ctx.trace = [kind, base, dim, p]
            u = {n: [np.full(len(x), base) for x in lo[n]] for n in names}
            if dim:
                u[dim[0]][dim[1]][dim[2]] = p
            v = sp.denormalize(copy.deepcopy(u))
            w = sp.normalize(copy.deepcopy(v))
            back = sp.denormalize(copy.deepcopy(w))
            ctx.expect(set(v) == set(w) == set(names), 'modules of a normalised {}', kind)
            for n in names:
                for i in range(len(names[n])):
                    wide = hi[n][i] > lo[n][i]
                    ctx.close_arr(np.where(wide, v[n][i], lo[n][i]), lo[n][i] + (hi[n][i] - lo[n][i]) * u[n][i], 'denormalised {} of {} {}', kind, n, i)
                    ctx.expect(np.all(np.isfinite(w[n][i])), 'normalised {} of {} {} is {}', kind, n, i, w[n][i])
                    ctx.close_arr(np.where(wide, w[n][i], 0), np.where(wide, u[n][i], 0), 'normalised {} of {} {}', kind, n, i)
                    ctx.close_arr(back[n][i], v[n][i], 'round trip of {} of {} {}', kind, n, i)
            ctx.step()
            ctx.state((kind, base, dim, p))
        # the lowest and highest value of everything: 0 and 1, where there is a range
        for end, what in ((lo, 0.0), (hi, 1.0)):
            got = sp.normalize(copy.deepcopy(end))
            for n in names:
                for i in range(len(names[n])):
                    ctx.close_arr(got[n][i], np.where(hi[n][i] > lo[n][i], what, 0.0), 'normalised bound of {} {} {}', kind, n, i)
        ctx.traces += 1
        ctx.outcome((kind, len(dims)))


def check_module(case, ctx):
    s = MODS[case['mod']]
    m = build.module(s)
    pts = [i / (case['n'] - 1) for i in range(case['n'])]
    r = act_range(s)
    lows, highs = np.array([x[0] for x in r]), np.array([x[1] for x in r])
    ctx.close_arr(m.min_act, lows, 'lowest action')
    ctx.close_arr(m.max_act, highs, 'highest action')
    ctx.close_arr(m.action_space.unnormalized.low, lows, 'action space')
    ctx.close_arr(m.action_space.unnormalized.high, highs, 'action space')
    ctx.close_arr(m.action_space.normalized.low, 0 * lows, 'normalised action space')
    ctx.close_arr(m.action_space.normalized.high, 0 * lows + 1, 'normalised action space')
    obs_lo, obs_hi = np.atleast_1d(m.min_obs), np.atleast_1d(m.max_obs)

    def round_trip(u, lo, hi, kind):
        u = [x if h > l else 0.0 for x, l, h in zip(u, lo, hi)]      # a single-valued dimension has one normal form
        kw = {kind: True}
        arr = np.array(u, dtype=float)
        fixed = arr.copy()
        fixed.setflags(write=False)
        for form in ([arr, list(u), fixed] if len(u) > 1 else [arr, u[0], fixed]):
            if isinstance(form, list):
                form = np.array(form)
            keep = np.array(form, copy=True)
            v = m.from_normalized(form, **kw)
            ctx.close_arr(v, lo + (hi - lo) * arr, 'denormalised {} {}', kind, u)
            ctx.expect(np.all(np.asarray(v) >= lo - 1e-9) and np.all(np.asarray(v) <= hi + 1e-9), 'denormalised {} outside the range', v)
            w = m.to_normalized(v, **kw)
            ctx.close_arr(np.where(hi > lo, w, 0), np.where(hi > lo, arr, 0), 'normalised {} {}', kind, v)
            ctx.close_arr(m.from_normalized(w, **kw), v, 'round trip of {} {}', kind, v)
            ctx.expect(np.array_equal(keep, form), 'normalisation changed its argument')
            ctx.step()
        ctx.state((kind, u))

    for u in itertools.product(pts, repeat=len(lows)) if len(lows) else ():
        round_trip(list(u), lows, highs, 'act')
    # observations: move each dimension through the grid, the others at a corner, plus the diagonal
    d = len(obs_lo)
    for base in (0.0, 0.5, 1.0):
        for j in range(d):
            for p in pts:
                u = [base] * d
                u[j] = p
                round_trip(u, obs_lo, obs_hi, 'obs')
    # one step: the normalised and the denormalised request are the same request
    if s['k'] != 'load':
        for u in itertools.product(pts, repeat=len(lows)):
            a, b = build.module(s), build.module(s)
            den = lows + (highs - lows) * np.array(u)
            if s['k'] == 'genset':
                den = np.array([u[0], den[1]])
                x = a.step(np.array(u), normalized=True)
                y = b.step(den, normalized=False)
            else:
                x = a.step(u[0], normalized=True)
                y = b.step(float(den[0]), normalized=False)
                z = build.module(s).step(np.array(u), normalized=True)
                ctx.close(z[1], y[1], 'reward of an array action {}', u)
            ctx.step(2)
            ctx.close(x[1], y[1], 'reward of {} and {}', u, den)
            for k in ('provided_energy', 'absorbed_energy'):
                ctx.close(x[3].get(k, 0.0), y[3].get(k, 0.0), '{} of {} and {}', k, u, den)
            ctx.close_arr(x[0], y[0], 'observation of {} and {}', u, den)
            ctx.outcome(y[3])
            ctx.traces += 1
    # membership, and values of the wrong length
    for kind, sp, lo, hi in (('act', m.action_space, lows, highs), ('obs', m.observation_space, obs_lo, obs_hi)):
        ctx.expect(sp['normalized'] is sp.normalized and sp['unnormalized'] is sp.unnormalized and sp == sp, 'parts of a space')
        if not len(lo):
            continue
        ctx.close_arr(sp.unnormalized.low, lo, '{} space', kind)
        ctx.close_arr(sp.unnormalized.high, hi, '{} space', kind)
        for j in range(len(lo)):
            for base in (lo, hi, (lo + hi) / 2):
                for v, inside in ((lo[j], True), (hi[j], True), ((lo[j] + hi[j]) / 2, True), (lo[j] - 1, False), (hi[j] + 1, False), (np.nextafter(lo[j], -np.inf), False), (np.nextafter(hi[j], np.inf), False)):
                    x = np.array(base, dtype=float)
                    x[j] = v
                    ctx.expect(sp.contains(x) == inside and (x in sp) == inside, '{} {} contained in [{}, {}]: {}', kind, x, lo, hi, sp.contains(x))
                    ctx.step()
            for v, inside in ((0.0, True), (1.0, True), (0.5, True), (-0.1, False), (1.1, False)):
                x = np.full(len(lo), 0.5)
                x[j] = v
                ctx.expect((x in sp.normalized) == inside, 'normalised {} {} contained: {}', kind, x, x in sp.normalized)
        for n in range(0, len(lo) + 3):
            for f in (m.to_normalized, m.from_normalized, sp.normalize if kind == 'act' else m.to_normalized):
                if n == len(lo):
                    continue
                try:
                    f(np.full(n, 0.5), **({} if f == sp.normalize else {kind: True}))
                except TypeError:
                    continue
                ctx.fail(f'a value of length {n} was normalised in a space of {len(lo)} dimensions')
    for both in (dict(), dict(act=True, obs=True)):
        for f in (m.to_normalized, m.from_normalized):
            try:
                f(np.zeros(len(lows)), **both)
            except AssertionError:
                continue
            ctx.fail('normalisation without choosing between action and observation')
