"""Cases for the whole driver: parameters, scripts of solver outcomes, restarts."""
U = 65536
NAMES = {1: 'BDF1', 2: 'BDF2', 3: 'BDF3'}


def outcome(rng, s, slow=.35, fail=.2, g=0):
    m = rng.random()
    if m < fail:
        return {'k': 'f'}, rng.choice('fx')
    it = rng.choice([5, 6, 9]) if m < fail + slow else rng.choice([1, 2, 4])
    s = s if rng.random() < .9 else 0
    k = 'g' if rng.random() < g else 'c'
    return {'k': k, 'it': it, 's': s}, '%s%d:%g' % (k, it, s / 1000)


def script(rng, n, g=0, fail=.2):
    out, tok, seen = [], [], False
    slow = rng.choice([.1, .4, .8])
    for i in range(n):
        o, t = outcome(rng, rng.randint(0, 40) * 25, slow, fail, 0 if seen else g)
        seen = seen or o['k'] == 'g'
        out.append(o); tok.append(t)
    return out, tok


def params(rng, mesh, long=False):
    q = rng.random()
    dt0 = rng.choice([.25, .5, .5, 1, 1.5])
    p = dict(start=0, end=int(U * rng.choice([2, 3, 4, 4.75, 6] + ([9] if long else []))), dt0=int(U * dt0), dmin=U // rng.choice([8, 16, 64]),
             dmax=int(U * rng.choice([.5, .75, 1, 2, 100])), dn=5, order=rng.choice([1, 2, 2, 3, 3]),
             amrf=rng.choice([0, 1, 2, 3, 4]), gtf=rng.choice([0, 1, 2, 3, 5]), incons=rng.random() < .2, extra=False, quality=False, tq=False,
             reqout=rng.random() < .25, rtype=rng.choice(['n_calls', 'n_calls', 'simulation_time', 'never']), rmax=rng.choice([0, 0, 1, 2, 3]),
             outint=int(U * rng.choice([0, 0, .5, 1, 1.25])), top=30)
    if rng.random() < .06:
        p['dt0'] = U * 8  # longer than the simulation
    p['gn'], p['gd'] = rng.choice([(2, 1), (3, 2), (3, 2), (1, 1)])
    if p['gd'] != 1:
        p['dmax'] = int(U * rng.choice([.75, 1, 2]))
    p['pred'] = rng.choice(['None', 'None', 'Linear']) if p['order'] > 1 or rng.random() < .5 else 'None'
    p['rint'] = rng.choice([1, 2, 3]) if p['rtype'] == 'n_calls' else int(U * rng.choice([.5, 1, 1.25, 2]))
    if mesh > 0:
        p['extra'] = rng.random() < .3
        if q < .25:
            p['quality'], p['tq'], p['extra'] = True, rng.random() < .6, False
    return p


def b(x):
    return 'true' if x else 'false'


def num(x):
    return repr(x / U)


def args(p, dim, mesh, full, flex, deg=1, opts=()):
    a = ['--PrintTimeLoop=true', '--Approximation.FEDegree=%d' % deg, '--Geometry.CustomBoundingBox=true',
         '--Geometry.BoundingBox.Xmin=-3', '--Geometry.BoundingBox.Xmax=3', '--Geometry.BoundingBox.Ymin=-1.5', '--Geometry.BoundingBox.Ymax=1.5',
         '--Geometry.InitialMesh=Divisions', '--Geometry.Divisions.Nx=8', '--Geometry.Divisions.Ny=4', '--Geometry.Divisions.Refinements=0', '--Geometry.GlobalRefinement=None',
         '--Geometry.InterfaceWidth=1', '--NonLinearData.NonLinearSolverType=NOX',
         '--Restart.Prefix=DIR/r', '--Restart.Type=%s' % p['rtype'], '--Restart.Interval=%s' % (p['rint'] if p['rtype'] == 'n_calls' else num(p['rint'])),
         '--Restart.MaximalOutput=%d' % p['rmax'], '--Restart.FullHistory=' + b(full), '--Restart.FlexibleOutput=' + b(flex),
         '--Output.VtkPath=DIR', '--Output.Regular=true', '--Output.Contour=' + b(p['reqout']), '--Output.OutputTimeInterval=' + num(p['outint']),
         '--Adaptivity.MaxRefinementDepth=%d' % mesh, '--Adaptivity.MinRefinementDepth=0', '--Adaptivity.RefinementFrequency=%d' % p['amrf'],
         '--Adaptivity.QualityControl=' + b(p['quality']), '--Adaptivity.AutoQualityMin=true', '--Adaptivity.AutoQualityInitialFactor=%s' % p.get('qf', '1.'), '--Adaptivity.ExtraCoarsening=' + b(p['extra']),
         '--Adaptivity.TopFractionOfCells=0.%d' % p['top'], '--Adaptivity.BottomFractionOfCells=0.1',
         '--GrainTracker.GrainTrackerFrequency=%d' % p['gtf'], '--GrainTracker.TrackWithQuality=' + b(p['tq']), '--GrainTracker.CheckInconsistency=' + b(p['incons']), '--GrainTracker.Verbosity=0',
         '--TimeIntegration.Predictor=' + p['pred'], '--TimeIntegration.IntegrationScheme=' + NAMES[p['order']], '--TimeIntegration.TimeStart=' + num(p['start']), '--TimeIntegration.TimeEnd=' + num(p['end']),
         '--TimeIntegration.TimeStepInit=' + num(p['dt0']), '--TimeIntegration.TimeStepMin=' + num(p['dmin']), '--TimeIntegration.TimeStepMax=' + num(p['dmax']),
         '--TimeIntegration.GrowthFactor=%r' % (p['gn'] / p['gd']), '--TimeIntegration.DesirableNewtonIterations=%d' % p['dn']]
    return a + list(opts)


def first(rng, long=False, g=.07, mesh=None):
    mesh = rng.choice([0, 0, 1]) if mesh is None else mesh
    p = params(rng, mesh, long)
    if p['quality']:
        p['qf'] = rng.choice(['0.9', '1.', '1.2'])
    s, tok = script(rng, rng.choice([3, 6, 10]), 0 if p['reqout'] or p['pred'] != 'None' else g, rng.choice([0, .15, .3]))
    full, flex = rng.random() < .65, rng.random() < .4
    r = {'p': p, 'from': -1, 'script': s, 's0': 0, 'static': mesh == 0, 'full': full}
    return r, dict(mesh=mesh, flex=flex), ['--circle', '1.5', '2'] + args(p, 2, mesh, full, flex) + ['|'] + tok


def again(rng, r0, x0, k, same):
    p = dict(r0['p'])
    if not same:
        p['end'] = int(p['end'] + U * rng.choice([0, 0, 0, 1, 2]))
        if rng.random() < .25:
            p['order'] = rng.choice([1, 2, 3])
        if rng.random() < .2:
            p['pred'] = 'None' if p['pred'] == 'Linear' else 'Linear'
        if rng.random() < .2:
            p['gn'], p['gd'] = rng.choice([(2, 1), (1, 1)])
        if rng.random() < .2:
            p['rint'] = p['rint'] + (1 if p['rtype'] == 'n_calls' else U // 2)
    s, tok = script(rng, rng.choice([2, 5, 8]), 0, rng.choice([0, .2]))
    full = r0['full'] if same or rng.random() < .7 else not r0['full']
    flex = x0['flex'] if rng.random() < .8 else not x0['flex']
    r = {'p': p, 'from': k, 'script': s, 's0': 0, 'static': r0['static'], 'full': full}
    return r, dict(mesh=x0['mesh'], flex=flex), ['--restart', 'DIR/r_%d' % k] + args(p, 2, x0['mesh'], full, flex) + ['|'] + tok


def case(rng, nruns, long=False, g=.07):
    r, x, t = first(rng, long, g)
    runs, toks = [r], [t]
    for i in range(1, nruns):
        # a slot is likely to exist if it is small
        r, x, t = again(rng, runs[-1], x, rng.choice([0, 0, 1, 1, 2, 3]), rng.random() < .5)
        runs.append(r); toks.append(t)
    return {'runs': runs}, '18 ' + ' || '.join(' '.join(t) for t in toks)


def corrupt(r, rng):
    E = r["obs"][rng.randrange(len(r["obs"])) if len(r["obs"][0]) < 50 else 0]
    L = [e for e in E if e['k'] in ('step', 'solve')]
    if not L:
        E.append({'k': 'amr'})
        return r
    e = rng.choice(L[:6])
    if e['k'] == 'step':
        e[rng.choice(['t', 'n', 'dt'])] += 7
    elif rng.random() < .5:
        e['s'] += 3
    else:
        E.insert(E.index(e), {'k': rng.choice(['coarser', 'fail']), 'dt': 1})
    return r
