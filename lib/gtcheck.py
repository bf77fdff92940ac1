"""Shared driver of the checks built on h_tracker / TrackerCases.tla."""
import gtgen


def which(*w):
    return 'CONSTANT Which = {%s}\n' % ','.join('"%s"' % x for x in w)


def run(c, exe, gens, w, label, np=None, corrupt=None, nchunks=8, timeout=300):
    cases = []
    for g in gens:
        cases.append((gtgen.spec_input(g), gtgen.tok(g)))
    return c.functional('TrackerCases', exe, cases, np=np, label='%s, %d process(es)' % (label, np or 1), corrupt=corrupt,
                        consts=which(*w), nchunks=nchunks, timeout=timeout)


def labels(r):
    """(step, op, cell) of labelled cells"""
    return [(i, b, x) for i, s in enumerate(r['steps']) if 'lab' in s for b, row in enumerate(s['lab'])
            for x, v in enumerate(row) if v[0] >= 0]


def corrupt_detect(r, rng):
    L = labels(r)
    if not L:
        return None
    i, b, x = rng.choice(L)
    s = r['steps'][i]
    k = rng.randrange(4)
    if k == 0:
        s['lab'][b][x] = [-1, 0]
    elif k == 1:
        g = rng.choice(s['grains'])
        g['segs'][0]['mea'] += 1
    elif k == 2:
        g = rng.choice(s['grains'])
        g['segs'][0]['max'] += 1
    else:
        g = rng.choice(s['grains'])
        g['segs'][-1]['c'][0] += 50
    return r


def corrupt_ids(r, rng):
    S = [s for s in r['steps'] if s.get('grains') and 'lab' in s]
    if not S:
        return None
    s = rng.choice(S)
    g = rng.choice(s['grains'])
    g['dyn'] = {0: 1, 1: -1, -1: 1}[g['dyn']]
    return r


def corrupt_reassign(r, rng):
    S = [s for s in r['steps'] if s.get('grains') and 'lab' in s]
    if not S:
        return None
    s = rng.choice(S)
    if rng.random() < .5:
        s['opch'] = not s['opch']
    else:
        s['grains'][rng.randrange(len(s['grains']))]['op'] = 17
    return r


def corrupt_remap(r, rng):
    S = [s for s in r['steps'] if s['a'] == 'M' and s['exc'] == 0 and s['nnew'] > 0]
    if not S:
        return None
    s = rng.choice(S)
    if rng.random() < .3:
        s['nre'] += 1
        return r
    # keep both vectors consistent: only the relabelling itself is corrupted
    b = rng.randrange(s['nnew'])
    n = rng.randrange(len(s['w'][b]))
    s['w'][b][n] += 7
    return r


MODEL_CFG = ('SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK UniqueIds Faithful AfterRemap Done\n'
             'PROPERTIES Conserved IdsKept\nCONSTANTS N=%d NOps=%d MaxOps=%d MaxSteps=%d Allow=%s Buf=%d Emit=%s\n')


def design(c, N=4, steps=2, allow='TRUE', buf=0):
    c.design('GrainTracker', MODEL_CFG % ('VIEW View\n', N, 2, 3, steps, allow, buf, 'FALSE'), workers=8,
             name='GrainTracker-%d-%d-%s' % (N, steps, allow))


def model_histories(c, num, N=7, nops=2, steps=3, allow=True):
    """Behaviours of GrainTracker.tla turned into histories of the real tracker."""
    r = c.tlc('GrainTracker', MODEL_CFG % ('', N, nops, 3, steps, str(allow).upper(), 0, 'TRUE'), simulate=num, depth=40,
              name='GrainTracker-sim', workers=1)
    G, seen = [], set()
    for h in c.printed(r, 'HIST'):
        k = str(h)
        if k in seen:
            continue
        seen.add(k)
        g = gtgen.Gen(c.rng, dim=2, per=False, nops=nops, repr=0, thr=100, thrnew=100, rep=[N, 2], allow=allow)
        g.c['ref'] = []
        g.L = [4 * N, 8]
        acts, first = [], True
        for e in h:
            f = e['f']
            f = [f[k2] for k2 in sorted(f)] if isinstance(f, dict) else f
            if e['a'] == 'track':
                acts += [['F', [[((4 * x, y), 500 + 20 * x) for x in sorted(S) for y in (0, 4, 8)] for S in f]],
                         ['IS' if first else 'TS']]
                first = False
            else:
                acts += [['K', [(b, (4 * min(x, N - 1), 0), to) for b, x, to in e['col']]], ['M']]
        g.c['acts'] = acts
        G.append(g.c)
    return G
