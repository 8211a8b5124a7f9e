"""Exhaustive exploration of action sequences on the real Microgrid, in lock step with the reference."""
import copy
import itertools

import numpy as np

from mc import build
from mc.ref import Ref


def alphabet(ref):
    """All joint controls: one action from every controllable module's alphabet."""
    keys = [k for k, _ in ref.ctrl]
    menus = [m.s['acts'] for _, m in ref.ctrl]
    return [dict(zip(keys, combo)) for combo in itertools.product(*menus)]


def to_control(joint, style=0):
    """{(name, i): a} -> the dict of lists that run() takes. Fresh objects on every call."""
    out = {}
    for (name, i), a in sorted(joint.items()):
        v = np.array(a, dtype=float) if isinstance(a, (list, tuple)) else float(a)
        out.setdefault(name, []).append(v)
    return out


BUDGET = dict(quick=1200, thorough=30000)


def depth_for(spec, budget):
    """The largest depth, up to the whole episode, whose tree has at most `budget` transitions (at least 2)."""
    ref = Ref(spec)
    n = len(alphabet(ref))
    full = min(ref.final - ref.t0, 6)
    d = 2
    while d < full and sum(n ** i for i in range(1, d + 2)) <= budget:
        d += 1
    return min(d, full)


def tree_cases(specs, tier, budget=None):
    out = []
    for name, spec in specs.items():
        if spec.get('long'):
            out += long_cases(name, spec, budget or BUDGET[tier])
            continue
        depth = depth_for(spec, budget or BUDGET[tier])
        for pre, cost in shards(spec, depth):
            out.append(dict(id=f'{name}/{".".join(map(str, pre))}', spec=name, prefix=list(pre), cost=cost, depth=depth))
    return out


def words(spec, budget):
    """All action words up to the largest length whose repetitions over the whole episode cost at most `budget` steps
    (at least all words of length one, up to two of them with a tiny budget)."""
    ref = Ref(spec)
    n, T = len(alphabet(ref)), ref.final - ref.t0
    out, length = [], 1
    while length <= 4:
        new = [w for w in itertools.product(range(n), repeat=length) if length == 1 or len(set(w)) > 1]
        if out and (len(out) + len(new)) * T > budget:
            break
        out += new
        length += 1
    return (out if len(out) * T <= max(budget, 4 * T) else [out[0], out[-1]]), length - 1


def long_cases(name, spec, budget):
    ref = Ref(spec)
    T = ref.final - ref.t0
    return [dict(id=f'{name}/w{".".join(map(str, w))}', spec=name, prefix=[w[t % len(w)] for t in range(T)], cost=T, depth=T)
            for w in words(spec, budget)[0]]


def bounds(specs, budget=None):
    def one(s, b):
        return f'whole episode, all periodic sequences of period <= {words(s, b)[1]}' if s.get('long') else depth_for(s, b)
    return {t: 'all action sequences; depth per configuration: ' +
            ', '.join(f'{n}={one(s, budget[t] if budget else BUDGET[t])}' for n, s in specs.items())
            for t in ('quick', 'thorough')}


def shards(spec, depth, max_cost=400):
    """Split a tree into cases by its first actions, so that cases can run in parallel."""
    ref = Ref(spec)
    n = len(alphabet(ref))
    depth = min(depth, ref.final - ref.t0) if ref.final != float('inf') else depth
    total = sum(n ** d for d in range(1, depth + 1))
    if total <= max_cost or n == 1:
        return [((), total)]
    if total / n <= 3 * max_cost:
        return [((i,), total // n) for i in range(n)]
    return [((i, j), total // n // n) for i in range(n) for j in range(n)]


def tree(ctx, spec, depth, prefix, on_step, make=None, step=None, on_root=None, on_leaf=None):
    """Depth-first over every action sequence of the given depth that starts with `prefix`.

    on_step(real, ref, ref_before, joint, out, rout, tot) is the oracle, called on every transition."""
    ref = Ref(spec)
    real = make() if make else build.microgrid(spec)
    acts = alphabet(ref)
    if ref.final != float('inf'):
        depth = min(depth, ref.final - ref.t0)
    if on_root:
        on_root(real, ref)
    ctx.state((0, ref.state()))

    def go(real, ref, d, prefix):
        if d == 0:
            ctx.traces += 1
            if on_leaf:
                on_leaf(real, ref)
            return
        idx = [prefix[0]] if prefix else range(len(acts))
        for n, i in enumerate(idx):
            joint = acts[i]
            last = n == len(idx) - 1
            r = real if last else copy.deepcopy(real)
            before, after = ref, ref.clone()
            ctx.trace.append({f'{k[0]}.{k[1]}': v for k, v in joint.items()})
            rout, tot = after.step(joint)
            out = (step or default_step)(r, joint)
            ctx.step()
            ctx.state((after.t, after.state(), real is None))
            on_step(r, after, before, joint, out, rout, tot)
            if len(ctx.trace) == 2:
                ctx.sample(list(ctx.trace))
            go(r, after, d - 1, prefix[1:])
            ctx.trace.pop()

    go(real, ref, depth, tuple(prefix))


def default_step(real, joint):
    return real.run(to_control(joint), normalized=False)


def real_module(real, key):
    return real.modules[key[0]][key[1]]
