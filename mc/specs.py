"""The bounded configuration space: small microgrids that between them reach every module, pairing and limit."""
import copy

G4 = [[0.5, 0.25, 0.2, 1], [1.0, 0.5, 0.1, 0], [2.0, 0.75, 0.4, 1], [0.25, 0.125, 0.3, 1], [0.75, 1.5, 0.0, 0]]
G3 = [[0.5, 0.25, 0.2], [1.0, 0.5, 0.1], [2.0, 0.75, 0.4], [0.25, 0.125, 0.3], [0.75, 1.5, 0.0]]

BAT = dict(k='battery', min=1.0, max=9.0, mc=3.0, md=4.0, eff=0.5, cost=0.25, charge=5.0, acts=[0.0, -2.0, -50.0, 1.5, 50.0])
BAT9 = dict(k='battery', min=0.7, max=7.3, mc=2.1, md=1.9, eff=0.9, cost=0.02, soc=0.4, acts=[0.0, -1.3, -50.0, 0.7, 50.0])
BAT1 = dict(k='battery', min=0.0, max=4.0, mc=2.0, md=3.0, eff=1.0, cost=0.0, soc=1.0, acts=[0.0, -1.0, 2.5])
GEN = dict(k='genset', min=1.0, max=5.0, cost=0.5, co2=0.25, cco2=0.125, acts=[[0, 0.0], [1, 2.0], [1, 50.0], [0, 3.0], [1, 0.0]])
GENS = dict(k='genset', min=2.0, max=6.0, cost=['poly', 0.5, 0.125], co2=2.0, cco2=0.25, su=1, wd=2, on=False,
            acts=[[0, 0.0], [1, 3.0], [1, 50.0], [0.4, 4.0], [0.6, 1.0]])
GRID = dict(k='grid', imp=4.0, exp=3.0, ts=G4, cco2=0.5, acts=[0.0, -1.0, -50.0, 1.5, 50.0])
LOAD = dict(k='load', ts=[3.0, 0.0, 5.0, 2.0, 4.0])
PV = dict(k='pv', ts=[1.0, 6.0, 0.0, 2.5, 9.0])


def few(s, n, **kw):
    s = copy.deepcopy(s)
    s['acts'] = s['acts'][:n]
    s.update(kw)
    return s


def pick(s, idx, **kw):
    s = copy.deepcopy(s)
    s['acts'] = [s['acts'][i] for i in idx]
    s.update(kw)
    return s


def specs():
    S = {}
    S['bat'] = dict(m=[LOAD, BAT])
    S['bat9_pv'] = dict(m=[LOAD, PV, BAT9])
    S['gen'] = dict(m=[GEN, LOAD])
    S['gens_pv'] = dict(m=[LOAD, GENS, dict(PV, name='pv')], llc=7.0, ogc=0.5)
    S['grid'] = dict(m=[LOAD, GRID])
    S['grid3_pv'] = dict(m=[PV, dict(GRID, ts=G3, name='main_grid'), LOAD])
    S['pv_only'] = dict(m=[LOAD, PV], llc=3.0, ogc=4.0)
    S['noload'] = dict(m=[PV, pick(BAT, [0, 2, 4]), pick(GRID, [0, 2, 4])])
    S['bat_grid_pv'] = dict(m=[LOAD, PV, pick(BAT, [0, 2, 3]), pick(GRID, [0, 2, 3])])
    S['bat_gen_pv'] = dict(m=[pick(BAT9, [0, 1, 4]), LOAD, PV, pick(GEN, [0, 1, 2])])
    S['all'] = dict(m=[LOAD, PV, pick(BAT, [1, 4]), pick(GENS, [0, 2], su=0, wd=1), pick(GRID, [1, 4])])
    S['two'] = dict(m=[LOAD, dict(LOAD, ts=[1.0, 1.5, 0.0, 2.0, 0.5]), dict(PV, name='pv'), pick(BAT, [1, 4]),
                       dict(PV, name='wind', ts=[0.5, 0.0, 4.0, 1.0, 1.0]), pick(BAT9, [1, 4]),
                       pick(GEN, [0, 1], name='big_gen')])
    S['two_grids'] = dict(m=[LOAD, pick(GRID, [1, 3, 4], name='g1'), pick(GRID, [0, 2, 4], name='g2', ts=G3, imp=2.0)])
    S['flexgrid'] = dict(m=[LOAD, PV, dict(GRID, flex=True), pick(BAT, [0, 2, 4])])
    S['flex_and_ctrl_grid'] = dict(m=[LOAD, dict(GRID, flex=True, name='flexgrid', imp=1.0, exp=1.0), pick(GRID, [0, 1, 2, 3, 4])])
    S['own_unb'] = dict(m=[LOAD, PV, dict(k='unb', name='unbalanced_energy', llc=5.0, ogc=1.0), BAT1], unb=False)
    S['window'] = dict(m=[LOAD, PV, pick(BAT9, [0, 2, 3, 4]), pick(GRID, [0, 1, 4])], i=1, f=4)
    S['two_gens'] = dict(m=[LOAD, pick(GEN, [0, 1]), pick(GENS, [0, 1, 2])])
    S['full_bat'] = dict(m=[LOAD, PV, dict(BAT1)])
    S['negload'] = dict(m=[dict(LOAD, ts=[-3.0, -1.0, 0.0, -2.0, -4.0]), dict(PV, ts=[-1.0, -6.0, 0.0, -2.0, -1.0]), pick(BAT, [0, 2, 4])])
    S['equal'] = dict(m=[dict(LOAD, ts=[2.0] * 5), dict(PV, ts=[2.0] * 5), dict(BAT1, acts=[0.0, 2.0, -2.0])])
    # forecasts; input formats; magnitudes; several modules under one name; near balance; other orders
    S['fc'] = dict(m=[dict(LOAD, fc='oracle', h=2), dict(PV, fc='oracle', h=2), pick(BAT, [2, 4]), dict(GRID, fc='oracle', h=2, acts=[0.0, -2.0, 50.0])])
    S['fc_flex'] = dict(m=[LOAD, dict(GRID, fc='oracle', h=1, flex=True), dict(PV, fc='oracle', h=3), pick(BAT9, [0, 2, 4])])
    S['near'] = dict(m=[dict(LOAD, ts=[1000.0, 1000.004, 999.998, 1000.0, 2000.0]),
                        dict(k='battery', min=0.0, max=9000.0, mc=2000.0, md=3000.0, eff=1.0, cost=0.0, soc=0.9, acts=[1000.0, 999.998, 1000.002])])
    S['trio'] = dict(m=[LOAD, PV, dict(LOAD, ts=[1.0, 0.0, 2.0, 1.0, 0.0]), dict(PV, ts=[0.5, 1.0, 0.0, 0.25, 3.0]), dict(LOAD, ts=[6.0, 0.5, 0.0, 2.0, 0.0]),
                        pick(BAT, [1, 4]), dict(PV, ts=[0.0, 2.0, 1.0, 0.0, 0.5]), pick(BAT9, [1, 4]), pick(BAT1, [1, 2])])
    S['trio_gens'] = dict(m=[pick(GEN, [0, 1]), LOAD, pick(GENS, [0, 1], su=0, wd=1), pick(GEN, [0, 2], max=2.0, cost=['poly', 0.1, 0.2, 0.25])])
    S['named_pair'] = dict(m=[pick(BAT, [1, 4], name='storage'), LOAD, pick(BAT9, [1, 4], name='storage'), pick(GRID, [0, 2, 4], name='my grid')])
    S['big'] = dict(m=[dict(LOAD, ts=[31234.5, 0.0, 54321.0, 20000.25, 47000.0]), dict(PV, ts=[10000.0, 61234.5, 0.0, 25000.0, 90000.0]),
                       dict(k='battery', min=2000.0, max=90000.0, mc=30000.0, md=41000.0, eff=0.8, cost=0.02, soc=0.5, acts=[0.0, -12345.0, 1e6]),
                       dict(k='grid', imp=40000.0, exp=30000.0, ts=[[123.0, 45.0, 0.3, 1], [99.0, 45.5, 0.3, 0], [250.0, 10.0, 0.3, 1], [0.0, 10.0, 0.3, 1], [0.0, 10.0, 0.0, 1]],
                            cco2=12.0, acts=[1500.5, -20000.0, 1e7])])
    S['tiny'] = dict(m=[dict(LOAD, ts=[0.003, 0.0, 0.005, 0.002, 0.004]), dict(PV, ts=[0.001, 0.006, 0.0, 0.0025, 0.009]),
                        dict(k='battery', min=0.001, max=0.009, mc=0.003, md=0.004, eff=0.95, cost=3.0, soc=0.6, acts=[0.0, -0.001, 0.0015, 1.0])])
    S['ints'] = dict(m=[dict(LOAD, ts=[3, 0, 5, 2, 4], fmt='int'), dict(PV, ts=[1, 6, 0, 2, 9], fmt='int'), pick(BAT, [1, 4], min=1, max=9, mc=3, md=4, charge=5),
                        dict(GRID, ts=[[1, 2, 3, 1], [2, 1, 0, 0], [0, 3, 1, 1], [0, 1, 1, 1], [0, 2, 2, 1]], fmt='int', imp=4, exp=3, acts=[0, -2, 50])])
    S['frames'] = dict(m=[dict(LOAD, fmt='series'), dict(PV, fmt='frame'), dict(PV, fmt='list', name='wind'), dict(GRID, fmt='frame', acts=[0.0, -1.0, 50.0]), pick(BAT, [0, 2])])
    S['order'] = dict(m=[dict(GRID, acts=[1.5, -50.0]), pick(BAT, [1, 4]), pick(GENS, [0, 1, 3], on=True), PV, LOAD])
    S['late'] = dict(m=[LOAD, pick(GENS, [0, 1], on=True), dict(PV), pick(GRID, [0, 2, 4])], i=2, f=5, llc=0.0, ogc=0.0)
    # values with more digits than any rounding keeps
    S['digits'] = dict(m=[dict(LOAD, ts=[10 / 3, 0.1234567891, 17 / 7, 2 / 3, 4.000000123]), dict(PV, ts=[1 / 7, 6.543210987, 1e-7, 5 / 3, 9.87654321]),
                          dict(k='battery', min=0.1 / 3, max=20 / 3, mc=7 / 3, md=13 / 7, eff=0.937, cost=1 / 30, soc=0.5123456789, acts=[1 / 9, -10 / 7]),
                          dict(k='genset', min=1 / 7, max=11 / 3, cost=1 / 3, co2=1 / 6, cco2=1 / 7, acts=[[0, 0.0], [1, 10 / 9]]),
                          dict(k='grid', imp=10 / 3, exp=20 / 7, cco2=1 / 9, ts=[[1 / 3, 1 / 7, 1 / 11, 1], [2 / 3, 2 / 7, 1 / 13, 1], [4 / 3, 1 / 9, 1 / 17, 0], [1 / 6, 1 / 8, 1 / 3, 1], [0.1, 1 / 3, 0, 1]], acts=[-1 / 3, 2 / 7])])
    # modules of one name that do not report the same components
    S['uneven'] = dict(m=[LOAD, dict(LOAD, ts=[1.0, 1.5, 0.0, 2.0, 0.5], fc='oracle', h=2), dict(PV, fc='oracle', h=1), pick(BAT9, [1, 4]), PV,
                          dict(GRID, acts=[0.0, 50.0]), dict(GRID, ts=G3, imp=2.0, fc='oracle', h=2, acts=[-2.0, 1.5])])
    # only what has to be given: the documented defaults decide the rest
    b = dict(bare=True)
    S['bare'] = dict(b, m=[dict(k='load', ts=LOAD['ts'], **b), dict(k='pv', ts=PV['ts'], fc='oracle', **b),
                           dict(k='battery', min=1.0, max=9.0, mc=3.0, md=4.0, eff=0.5, soc=0.5, acts=[-2.0, 50.0], **b),
                           dict(k='genset', min=1.0, max=5.0, cost=0.5, acts=[[0, 0.0], [1, 2.0]], **b),
                           dict(k='grid', imp=4.0, exp=3.0, ts=G4, acts=[-1.0, 50.0], **b)])
    S['bare_pair'] = dict(b, m=[dict(k='load', ts=LOAD['ts'], fc='oracle', **b), dict(k='pv', ts=PV['ts'], name='wind', **b),
                                dict(k='battery', min=1.0, max=9.0, mc=3.0, md=4.0, eff=1.0, charge=2.0, acts=[0.0, -2.0, 50.0], **b),
                                dict(k='grid', imp=4.0, exp=3.0, ts=G3, flex=True, fc='oracle', **b)])
    ts = [float((7 * t) % 11) for t in range(30)]
    pv = [max(0.0, 6.0 - abs(t % 12 - 6)) * 1.5 for t in range(30)]
    pr = [[0.1 + 0.05 * (t % 7), 0.3 - 0.02 * (t % 5), 0.1 * (t % 4), float(t % 9 != 4)] for t in range(30)]
    S['long'] = dict(m=[dict(LOAD, ts=ts), dict(PV, ts=pv), pick(BAT9, [1, 3]), dict(GRID, ts=pr, acts=[0.0, 1.5, -50.0])], long=True)
    S['long_gen'] = dict(m=[dict(LOAD, ts=ts, fc='oracle', h=3), pick(GENS, [0, 1, 2], su=2, wd=3), dict(PV, ts=pv, fc='oracle', h=3), pick(BAT, [2, 4])], long=True)
    return S
