import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, loopgen

MC = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 End = %d
 Dt0s = {%s}
 Dmin = 1
 Dmax = %d
 Rtypes = {%s}
 Full = %s
 MaxFail = %d
INVARIANT Twin
'''


def check(c):
    for e, d, m, r, full, f in c.pick([(12, '4, 24', 8, '"n_calls"', 'TRUE', 2), (12, '4', 8, '"simulation_time"', 'FALSE', 1)],
                                      [(24, '4, 48', 8, '"n_calls", "simulation_time"', 'TRUE', 2), (16, '4', 8, '"n_calls", "simulation_time"', 'FALSE', 2)]):
        c.design('TimeLoopMC', MC % (e, d, m, r, full, f), workers=8, timeout=800)
    exe = c.build('h_app', repo_src='all', opt='-O0')
    for np, n in c.pick([(1, 120), (2, 60)], [(1, 1000), (2, 500), (3, 300)]):
        c.functional('TimeLoopCases', exe, [loopgen.case(c.rng, c.rng.choice([2, 2, 3]), c.thorough and i % 3 == 0, g=.02) for i in range(n)], np=np if np > 1 else None,
                     label='restarted runs of the driver, %d process(es)' % np, corrupt=loopgen.corrupt, nchunks=8)


if __name__ == '__main__':
    vf.main(check, 'C12')
