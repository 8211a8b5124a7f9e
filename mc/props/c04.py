"""Grid: import/export limits, outages, prices and emissions, in every hour and for every request."""
import itertools

from mc import build
from mc.ref import RGrid

PID = 'C04'
RULE = ('every price/status row pattern of a given length over a small row alphabet (with and without a status '
        'column), every pair of import/export limits, and every sequence of requests over the whole series')
BOUNDS = dict(quick='series of 3 rows over 5 row patterns, 6 limit pairs; 10 rotations of the 10 requests on each, five more with forecasts, a later start or another data format; '
                    'all request sequences of length 3 over 6 requests on series with an outage',
              thorough='series of 4 rows over 5 row patterns; request sequences of length 4')
ROWS = [[0.5, 0.25, 0.2, 1], [0.5, 0.25, 0.2, 0], [2.0, 3.0, 0.7, 1], [0.0, 0.0, 0.0, 0], [1.5, 0.0, 0.0, 1]]
LIMITS = [(4.0, 3.0), (0.0, 3.0), (4.0, 0.0), (0.0, 0.0), (1.0, 100.0), (0.75, 0.75)]
REQ = [0.0, 0.5, -0.5, 1.0, -1.0, 4.0, -3.0, 4.01, 100.0, -100.0]


def cases(tier):
    n = 3 if tier == 'quick' else 4
    out = []
    for j, (first, lim) in enumerate(itertools.product(range(len(ROWS)), LIMITS)):
        out.append(dict(id=f'row{first}lim{lim}', first=first, lim=lim, n=n, cco2=[0.0, 0.5, 2.0][j % 3]))
    return out


def check(case, ctx):
    imp, exp = case['lim']
    for rest in itertools.product(range(len(ROWS)), repeat=case['n'] - 1):
        rows = [ROWS[i] for i in (case['first'],) + rest]
        for cols in (4, 3):
            if cols == 3 and any(r[3] == 0 for r in rows):
                continue
            s = dict(k='grid', imp=imp, exp=exp, ts=[r[:cols] for r in rows], cco2=case['cco2'])
            # forecasts, later starts and other formats of the data must not matter
            for extra in (dict(fc='oracle', h=1), dict(fc='oracle', h=3), dict(fc=0.5, h=2), dict(i=1), dict(fmt='frame')):
                k = rest[-1] + case['first']
                run(ctx, dict(s, **extra), [REQ[(2 * k + 3 * t + 1) % len(REQ)] for t in range(len(rows))])
            # every request at every row: rotate the request list so that each row meets each request
            for off in range(len(REQ)):
                run(ctx, s, [REQ[(off + t) % len(REQ)] for t in range(len(rows))])
    # all request sequences on one series with an outage in the middle
    rows = [ROWS[case['first']], ROWS[1], ROWS[2], ROWS[0]][:case['n']]
    for seq in itertools.product(REQ[1::2] + [0.0], repeat=case['n']):
        run(ctx, dict(k='grid', imp=imp, exp=exp, ts=rows, cco2=case['cco2']), list(seq))


def run(ctx, s, seq):
    ctx.trace = [s, seq]
    m, ref = build.module(s), RGrid(s)
    rows = ref.rows()
    ctx.traces += 1
    ctx.expect(bool(m.weak_grid) == any(r[3] < 1 for r in rows), 'weak grid {} with status {}', m.weak_grid, [r[3] for r in rows])
    for t, a in list(enumerate(seq))[s.get('i', 0):]:
        give, take = ref.limits_at(t)
        ctx.close(m.max_production, give, 'max import in row {}', t)
        ctx.close(m.max_consumption, take, 'max export in row {}', t)
        ctx.close(m.current_status, rows[t][3], 'grid status in row {}', t)
        for got, want, what in ((m.import_price, rows[t][0], 'import price'), (m.export_price, rows[t][1], 'export price'),
                                (m.co2_per_kwh, rows[t][2], 'co2 per kWh'), (m.grid_status, rows[t][3], 'status')):
            ctx.close(got[0], want, '{} in row {}', what, t)
            ctx.expect(len(got) == 1 + ref.horizon(), '{} values of {} with a horizon of {}', len(got), what, ref.horizon())
        if s.get('fc') == 'oracle':
            st = list(ref.state(t).values())
            for j, got in enumerate((m.import_price, m.export_price, m.co2_per_kwh, m.grid_status)):
                ctx.close_arr(got, st[j::4], 'forecast in row {}', t)
        want = ref.step(a, t)
        _, reward, done, info = m.step(a, normalized=False)
        ctx.step()
        ctx.state((s['imp'], s['exp'], rows[t], a))
        p, x = info.get('provided_energy', 0.0), info.get('absorbed_energy', 0.0)
        ctx.close(p, want.get('provided', 0.0), 'imported on request {} in row {}', a, t)
        ctx.close(x, want.get('absorbed', 0.0), 'exported on request {} in row {}', a, t)
        if rows[t][3] == 0:
            ctx.expect(p == 0 and x == 0, 'energy crossed the grid connection during an outage')
        ctx.close(info['co2_production'], want['co2_production'], 'co2')
        ctx.close(reward, want['reward'], 'reward of request {} in row {}', a, t)
        log = m.log_dict()
        ctx.close(log['grid_import'][-1], p, 'logged import')
        ctx.close(log['grid_export'][-1], x, 'logged export')
        ctx.close(log['reward'][-1], reward, 'logged reward')
        ctx.close(log['grid_status_current'][-1], rows[t][3], 'logged status')
        ctx.expect(bool(done) == (t == len(seq) - 1), 'done={} in row {}', done, t)
        ctx.outcome((p, x, reward))
    ctx.sample([s, seq])
