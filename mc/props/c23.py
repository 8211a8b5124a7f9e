"""Module containers: every list of up to N named modules, every view, lookup and attribute table."""
import itertools

from mc import build
from mc.specs import BAT, GEN, GRID, LOAD, PV

from pymgrid import Microgrid
from pymgrid.modules.module_container import ModuleContainer

PID = 'C23'
RULE = ('every list of up to N modules over an alphabet of (kind, name) entries, in every order: every view (fixed, flex, controllable, sources, sinks, both, and '
        'their intersections), lookup by name, naming, and tables of attributes, against the list itself')
BOUNDS = dict(quick='module lists: length <= 3 over 14 entries, in every order; microgrids: length <= 2 after a load',
              thorough='module lists: length <= 4 over 14 entries, in every order; microgrids: length <= 3 after a load')
KINDS = dict(load=('fixed', 'sinks'), pv=('flex', 'sources'), battery=('controllable', 'source_and_sinks'), genset=('controllable', 'sources'),
             grid=('controllable', 'source_and_sinks'), fgrid=('flex', 'source_and_sinks'), unb=('flex', 'source_and_sinks'))
DEFAULT = dict(build.DEFAULT_NAMES, fgrid='grid')
SPEC = dict(load=LOAD, pv=PV, battery=BAT, genset=GEN, grid=GRID, fgrid=dict(GRID, flex=True), unb=dict(k='unb', llc=10.0, ogc=2.0))
MENU = [('load', None), ('load', 'a'), ('pv', None), ('pv', 'a'), ('battery', None), ('battery', 'a'), ('battery', 'b'), ('genset', None), ('genset', 'b'),
        ('grid', None), ('grid', 'b'), ('fgrid', None), ('fgrid', 'b'), ('unb', None)]
WHERE, HOW = ('fixed', 'flex', 'controllable'), ('sources', 'sinks', 'source_and_sinks')
ATTRS = ['current_step', 'max_capacity', 'initial_step', 'marginal_cost', 'max_import', 'loss_load_cost', 'init_soc', 'init_charge']


def cases(tier):
    n = 3 if tier == 'quick' else 4
    out = [dict(id=f'list/{i}', first=i, n=n, cost=5) for i in range(len(MENU))]
    return out + [dict(id=f'microgrid/{i}', first=i, n=n - 1, cost=5) for i in range(len(MENU))] + [dict(id='empty', cost=1), dict(id='roles', cost=1)]


def build_list(word):
    mods, arg = [], []
    for n, e in enumerate(word):
        kind, name = MENU[e]
        s = dict(SPEC[kind])
        if kind == 'battery':
            s['max'] = 9.0 + (n % 2)
            if name == 'a':
                s['soc'] = s.pop('charge') / 10
        m = build.module(s)
        mods.append((kind, name or DEFAULT[kind], m))
        arg.append((name, m) if name else m)
    return mods, arg


def check(case, ctx):
    if case['id'] == 'empty':
        c = ModuleContainer([])
        ctx.expect(len(c) == 0 and c.to_list() == [] and c.to_dict() == {} and c.names() == [], 'an empty container has modules')
        ctx.traces += 1
        return
    if case['id'] == 'roles':
        return check_roles(ctx)
    for d in range(case['n']):
        for rest in itertools.product(range(len(MENU)), repeat=d):
            word = (case['first'],) + rest
            ctx.trace = [MENU[e] for e in word]
            (one_microgrid if case['id'].startswith('micro') else one)(ctx, word)
            ctx.step()
            ctx.state(word)
            ctx.traces += 1
    ctx.sample(dict(last=[MENU[e] for e in word]))


def conflict(mods):
    kinds = {}
    for kind, name, _ in mods:
        if kinds.setdefault(name, KINDS[kind]) != KINDS[kind]:
            return True
    return False


def same(got, want):
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


def one(ctx, word):
    mods, arg = build_list(word)
    try:
        c = ModuleContainer(arg)
    except NameError:
        ctx.expect(conflict(mods), 'NameError although no two modules of different types share a name')
        ctx.outcome('conflict')
        return
    ctx.expect(not conflict(mods), 'modules of different types were accepted under one name')
    views(ctx, c, mods)
    tables(ctx, c, mods)


def views(ctx, c, mods):
    by_name = {}
    for kind, name, m in mods:
        ctx.expect(tuple(m.name) == (name, len(by_name.get(name, []))), 'module {} number {} is named {}', name, len(by_name.get(name, [])), m.name)
        by_name.setdefault(name, []).append(m)
    kind_of = {name: KINDS[kind] for kind, name, _ in mods}
    ctx.expect(sorted(c.names()) == sorted(by_name), 'names are {}', c.names())
    level(ctx, 'all', c, by_name)
    for w in WHERE:
        level(ctx, w, getattr(c, w), {n: l for n, l in by_name.items() if kind_of[n][0] == w})
        level(ctx, w, c[w], {n: l for n, l in by_name.items() if kind_of[n][0] == w})
        for h in HOW:
            want = {n: l for n, l in by_name.items() if kind_of[n] == (w, h)}
            level(ctx, f'{w}.{h}', getattr(getattr(c, w), h), want)
            level(ctx, f'{h}.{w}', getattr(getattr(c, h), w), want)
    for h in HOW:
        level(ctx, h, getattr(c, h), {n: l for n, l in by_name.items() if kind_of[n][1] == h})


def level(ctx, what, v, want):
    got = v.to_dict()
    ctx.expect(set(got) == set(want), '{} has the names {} instead of {}', what, sorted(got), sorted(want))
    for n, l in want.items():
        ctx.expect(same(list(got[n]), l), '{} has other modules or another order under {}', what, n)
        ctx.expect(same(list(v[n]), l) and n in v, '{}: lookup of {}', what, n)
        ctx.expect(same(list(getattr(v, n)), l), '{}: attribute {}', what, n)
        if len(l) == 1:
            ctx.expect(v[n].item() is l[0], '{}: item of {}', what, n)
    flat = v.to_tuples()
    ctx.expect(len(v) == len(flat) == sum(map(len, want.values())), '{} has length {} and {} pairs', what, len(v), len(flat))
    ctx.expect(same(v.to_list(), [m for _, m in flat]) and same(list(v.iterlist()), v.to_list()), '{}: list and pairs differ', what)
    for n, l in want.items():
        ctx.expect(same([m for k, m in flat if k == n], l), '{}: pairs of {}', what, n)
    ctx.expect({n: len(l) for n, l in v.iterdict()} == {n: len(l) for n, l in want.items()}, '{}: iterdict', what)
    for n in ('a', 'b', 'load', 'nothing'):
        if n in want:
            continue
        ctx.expect(n not in v, '{} contains {}', what, n)
        try:
            v[n]
        except KeyError:
            continue
        ctx.expect(False, '{}: lookup of the missing {} gave something', what, n)


def tables(ctx, c, mods):
    number = {}
    rows = []
    for kind, name, m in mods:
        number[name] = number.get(name, -1) + 1
        rows.append(((name, number[name]), m))
    for a in ATTRS:
        vals = {k: getattr(m, a, NotImplemented) for k, m in rows}
        some = [v for v in vals.values() if v is not NotImplemented]
        plain = c.get_attrs(a, as_pandas=False)
        ctx.expect({(n, i): d[a] for n, l in plain.items() for i, d in enumerate(l)} == vals, 'attribute table of {}', a)
        for unique in (False, True):
            for pandas in (True, False):
                if not unique and not pandas:
                    continue
                try:
                    got = c.get_attrs(a, unique=unique, as_pandas=pandas)
                except AttributeError:
                    ctx.expect(not some, 'AttributeError for {}', a)
                    continue
                except ValueError:
                    ctx.expect(unique and len(set(some)) > 1, 'ValueError for {}', a)
                    continue
                ctx.expect(bool(some), 'no error for {}, which no module has', a)
                if unique:
                    ctx.expect(len(set(some)) == 1 and dict(got) == {a: some[0]}, 'unique {} is {} of {}', a, dict(got), some)
                else:
                    ctx.expect({k: got.loc[k, a] for k in got.index} == vals, 'attribute table of {}', a)
    try:
        c.get_attrs()
    except ValueError:
        return
    ctx.expect(False, 'no error without attributes')


def one_microgrid(ctx, word):
    mods, arg = build_list(word)
    kinds = [k for k, _, _ in mods]
    load = build.module(LOAD)
    mods = [('load', 'load', load)] + mods
    for n, (_, _, m) in enumerate(mods):
        m.mc_mark = n
    try:
        mg = Microgrid([load] + arg, add_unbalanced_module='unb' not in kinds)
    except NameError:
        ctx.expect(conflict(mods), 'NameError although no two modules of different types share a name')
        return
    ctx.expect(not conflict(mods), 'modules of different types were accepted under one name')
    # the microgrid holds copies: find each by its mark, then check all views against the copies
    held = {m.mc_mark: m for l in mg.modules.to_dict().values() for m in l if hasattr(m, 'mc_mark')}
    ctx.expect(sorted(held) == list(range(len(mods))), 'the microgrid holds {} of {} modules', len(held), len(mods))
    mods = [(k, name, held[n]) for n, (k, name, _) in enumerate(mods)]
    if 'unb' not in kinds:
        mods.append(('unb', 'balancing', mg.modules['balancing'][-1]))
    views(ctx, mg.modules, mods)
    level(ctx, 'fixed', mg.fixed, group(mods, 'fixed'))
    level(ctx, 'flex', mg.flex, group(mods, 'flex'))
    level(ctx, 'controllable', mg.controllable, group(mods, 'controllable'))
    ctx.expect(mg.n_modules == len(mods), 'n_modules is {} instead of {}', mg.n_modules, len(mods))
    ctx.expect(sorted(map(id, mg.module_list)) == sorted(id(m) for _, _, m in mods), 'module_list has other modules')
    for name in {n for _, n, _ in mods}:
        if hasattr(Microgrid, name):        # as `load`, a method
            continue
        ctx.expect(name in mg.modules and hasattr(mg, name) and name in dir(mg), 'module {} cannot be reached through the microgrid', name)
        ctx.expect(same(getattr(mg, name).to_list() if hasattr(getattr(mg, name), 'to_list') else list(getattr(mg, name)), [m for _, n, m in mods if n == name]), 'attribute {} of the microgrid', name)
    ctx.expect('no_such_module' not in mg.modules and not hasattr(mg, 'no_such_module'), 'a module that does not exist')
    acts = mg.get_empty_action()
    want = {n: len(l) for n, l in group(mods, 'controllable').items()}
    ctx.expect({n: len(l) for n, l in acts.items()} == want, 'the empty action has the entries {} instead of {}', {n: len(l) for n, l in acts.items()}, want)


def group(mods, where):
    out = {}
    for kind, name, m in mods:
        if KINDS[kind][0] == where:
            out.setdefault(name, []).append(m)
    return out


def check_roles(ctx):
    """A grid is flexible or controllable as it was last told, however often; microgrids take it as it is then."""
    for n in range(5):
        for word in itertools.product(('as_flex', 'as_fixed'), repeat=n):
            ctx.trace = [word]
            m, other = build.module(GRID), build.module(GRID)
            for w in word:
                getattr(m, w)()
            want = 'flex' if word and word[-1] == 'as_flex' else 'controllable'
            ctx.expect(tuple(m.module_type)[1] == want, 'type {} after {}', m.module_type, word)
            mg = Microgrid([build.module(LOAD), m, ('second', other), build.module(BAT)])
            for group in ('flex', 'controllable'):
                got = [x.name for x in getattr(mg, group).to_list() if x.name[0] in ('grid', 'second')]
                exp = ([('grid', 0)] if group == want else []) + ([('second', 0)] if group == 'controllable' else [])
                ctx.expect(got == exp, '{} grids {} after {}', group, got, word)
            ctx.expect(tuple(other.module_type)[1] == 'controllable', 'another grid changed its type')
            ctx.step()
            ctx.state(word)
            ctx.traces += 1
