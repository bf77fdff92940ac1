import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf


import json


def case(kind, start, iv, q):
    return ({'kind': kind, 'start': start, 'iv': iv, 'q': q},
            ' '.join(map(str, ['T', kind, start, iv, len(q)] + [x for a in q for x in a])))


def rnd(rng):
    kind = rng.choice(['n_calls', 'simulation_time', 'simulation_time', 'real_time', 'never'])
    start = rng.choice([0, 0, 3, 16, 32, 160, 100])
    iv = rng.choice([0, 1, 5, 16, 24, 32, 48, 160, 1000])
    if kind == 'n_calls':
        iv = rng.choice([0, 16, 32, 40, 48, 80, 160])
        start = rng.choice([0, 0, 16, 32, 48, 80])
    t, c, q = start, 0, []
    dt = rng.choice([1, 2, 5, 16, 40])
    for _ in range(rng.randrange(1, 40)):
        t += rng.choice([0, dt, dt, dt, 2 * dt, 1])
        c += rng.choice([0, 1, dt, iv, max(0, iv - 1), iv + 1])
        q.append([t, c])
    return case(kind, start, iv, q)


def corrupt(r, rng):
    k = rng.randrange(len(r['ans']))
    r['ans'][k] = not r['ans'][k]
    # the state afterwards is the same, so exactly this answer is wrong
    return r


def check(c):
    exe = c.build('h_misc')
    c.design('TimerPredicate', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Apart NoMiss\nCONSTANTS\n'
                          ' Kinds = {"never", "n_calls", "simulation_time", "real_time"}\n Starts = {0, 16}\n Ivs = {0, 16, 32}\n MaxT = 48\n MaxQ = 3\n', workers=8)
    # every sequence of four queries on a small time grid
    cs = []
    for kind in ('n_calls', 'simulation_time', 'real_time'):
        for start in (0, 16):
            for iv in (16, 32):
                for a in itertools.product((0, 8, 16, 17, 32), repeat=4):
                    t, q = start if kind == 'simulation_time' else 0, []
                    for x in a:
                        t += x
                        q.append([t, t])
                    cs.append(case(kind, start, iv, q))
    c.rng.shuffle(cs)
    if not c.thorough:
        cs = cs[:2000]
    c.functional('TimerCases', exe, cs + [rnd(c.rng) for _ in range(c.pick(2000, 20000))], label='timer predicate', corrupt=corrupt, nchunks=8)
    c.functional('TimerCases', exe, [rnd(c.rng) for _ in range(c.pick(150, 1500))], np=3, label='timer predicate, lagging clocks on 3 processes', corrupt=corrupt)


vf.main(check, 'C14')
