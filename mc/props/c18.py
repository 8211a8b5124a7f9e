"""Priority lists: the complete set of deployment orders, each once; default order by cost; invalid lists rejected."""
import itertools

from mc import build
from mc.ref import Ref
from mc.specs import BAT, BAT1, BAT9, GEN, GENS, GRID, LOAD, PV, specs

from pymgrid.algos import RuleBasedControl
from pymgrid.algos.priority_list import PriorityListElement
from pymgrid.envs import DiscreteMicrogridEnv

PID = 'C18'
RULE = ('microgrids built from every multiset of up to three (thorough: four) controllable modules out of batteries, gensets with and without minimum '
        'production and a grid, named and unnamed, in every order, with and without removal of redundant lists; all lists compared with the '
        'permutations computed independently, and every one-element corruption of every list offered to rule-based control')
BOUNDS = dict(quick='<= 3 controllable modules, at most two of them gensets but for three combinations', thorough='<= 4 controllable modules')
FLAT = dict(GRID, ts=[[0.5, 0.25, 0.0, 1.0]] * 5, cco2=0.0)
MENU = dict(
    b=BAT, c=dict(BAT9, cost=0.5), d=dict(BAT1, name='storage'), g=GEN, h=dict(GENS, min=0.01, cost=1.5, name='diesel'), z=dict(GEN, min=0.0, cost=0.125),
    y=dict(GENS, min=0.0, cost=0.9, name='diesel'), r=FLAT, s=dict(FLAT, ts=[[0.1, 0.25, 0.0, 1.0]] * 5, name='cheap_grid'))


def cases(tier):
    out = []
    for n in range(4):
        for w in itertools.combinations_with_replacement(sorted(MENU), n):
            if tier == 'quick' and sum(c in 'ghyz' for c in w) == 3 and w not in (('g', 'h', 'z'), ('g', 'g', 'g'), ('h', 'y', 'z')):
                continue
            orders = {w, w[::-1]} if n < 3 or tier == 'quick' else set(itertools.permutations(w))
            for o in sorted(orders):
                out.append(dict(id='mods/' + (''.join(o) or 'none'), mods=''.join(o), cost=n))
    if tier == 'thorough':
        for w in itertools.combinations(sorted(MENU), 4):
            for o in sorted({w, w[::-1]}):
                out.append(dict(id='mods/' + ''.join(o), mods=''.join(o), cost=9))
    return out


def spec_of(mods):
    return dict(m=[LOAD] + [dict(MENU[c]) for c in mods[:1]] + [PV] + [dict(MENU[c]) for c in mods[1:]])


def expected(ref, reduce):
    """All orders of all controllable modules, with every choice of status for every genset."""
    keys = [k for k, _ in ref.ctrl]
    choice = {k: ([(k, 1)] if reduce and m.s['min'] == 0 else [(k, 0), (k, 1)]) if m.s['k'] == 'genset' else [(k, 0)] for k, m in ref.ctrl}
    return {tuple(pick) for perm in itertools.permutations(keys) for pick in itertools.product(*[choice[k] for k in perm])}


def marginal(m):
    s = m.s
    if s['k'] == 'battery':
        return s['cost']
    if s['k'] == 'grid':
        return s['ts'][0][0]
    c = s['cost']
    fuel = c[1] + c[2] if isinstance(c, (list, tuple)) else c
    return fuel + s.get('co2', 0.0) * s.get('cco2', 0.0)


def plain(pl):
    return tuple((tuple(e.module), int(e.action)) for e in pl)


def check(case, ctx):
    spec = spec_of(case['mods'])
    ref = Ref(spec)
    mods = dict(ref.ctrl)
    ctx.traces += 1
    slow = sum(2 if m.s['k'] == 'genset' else 1 for m in mods.values()) >= 5
    for reduce in (True, False):
        want = expected(ref, reduce)
        ctx.trace = [reduce]
        mg = build.microgrid(spec)
        env = build.microgrid(spec, DiscreteMicrogridEnv, remove_redundant_gensets=reduce)
        ctx.expect(env.action_space.n == len(env.actions_list), '{} actions for {} priority lists', env.action_space.n, len(env.actions_list))
        rbc = RuleBasedControl(mg, remove_redundant_gensets=reduce)
        for who, lists in (('environment', env.actions_list), ('rule-based control', rbc.get_priority_lists(reduce))):
            got = [plain(pl) for pl in lists]
            ctx.step(len(got))
            for g in got:
                ctx.state((reduce, g))
            ctx.expect(len(set(got)) == len(got), '{}: duplicated priority lists', who)
            ctx.expect(set(got) == want, '{}: missing {}, unexpected {}', who, sorted(want - set(got))[:2], sorted(set(got) - want)[:2])
            for pl in lists:
                for e in pl:
                    m = mods[tuple(e.module)]
                    ctx.expect(e.module_actions == (2 if m.s['k'] == 'genset' else 1), 'element {} has {} actions', e, e.module_actions)
                    ctx.close(e.marginal_cost, marginal(m), 'marginal cost of {}', e.module)
        if env.action_space.n > 1:
            # the i-th action is the i-th list; removing one leaves the others, in order
            for i in sorted({0, 1, env.action_space.n - 1} if not slow else {1}):
                e2 = build.microgrid(spec, DiscreteMicrogridEnv, remove_redundant_gensets=reduce)
                rest = [plain(pl) for j, pl in enumerate(e2.actions_list) if j != i]
                e2.remove_action(i)
                ctx.expect([plain(pl) for pl in e2.actions_list] == rest, 'removing action {} left other lists', i)
                ctx.expect(e2.action_space.n == len(rest), 'removing action {} left {} actions', i, e2.action_space.n)
            for bad in (-1, env.action_space.n):
                try:
                    env.remove_action(bad)
                except ValueError:
                    pass
                else:
                    ctx.fail(f'removing action {bad} of {env.action_space.n} was accepted')
        # default: cheapest first, gensets turned on
        d = plain(rbc.priority_list)
        ctx.expect(sorted(k for k, _ in d) == sorted(mods), 'the default order has {}', d)
        costs = [marginal(mods[k]) for k, _ in d]
        ctx.expect(all(a <= b + 1e-9 for a, b in zip(costs, costs[1:])), 'the default order {} has marginal costs {}', d, costs)
        for k, a in d:
            ctx.expect(a == (1 if mods[k].s['k'] == 'genset' else 0), 'the default order {} leaves {} off', d, k)
        ctx.outcome(d)
        # each valid list is taken as it is, in either sequence type
        valid = rbc.get_priority_lists(reduce)
        for i, pl in enumerate(valid if not slow else valid[::max(1, len(valid) // 3)]):
            for seq in ((list, tuple) if not slow else (list,)):
                r = RuleBasedControl(mg, priority_list=seq(pl), remove_redundant_gensets=reduce)
                ctx.expect(plain(r.priority_list) == plain(pl), 'given {}, using {}', plain(pl), plain(r.priority_list))
        # anything else is not
        if valid and len(valid[0]):
            pl = tuple(valid[-1])
            bad = [pl[1:], pl + pl[:1], pl + (PriorityListElement(('nobody', 0), 1, 0, 0.0),),
                   (PriorityListElement((pl[0].module[0], pl[0].module[1] + 7), pl[0].module_actions, pl[0].action, pl[0].marginal_cost),) + pl[1:]]
            if len(pl) > 1:
                bad += [pl[:-1], pl[:1] * len(pl)]
            for b in bad if not slow else bad[:2]:
                ctx.step()
                try:
                    RuleBasedControl(mg, priority_list=b, remove_redundant_gensets=reduce)
                except ValueError:
                    pass
                else:
                    ctx.fail(f'the invalid list {plain(b)} was accepted')
    ctx.sample(dict(mods=case['mods'], lists=len(want)))
