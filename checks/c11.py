import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, loopgen

MC = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 End = %d
 Dt0s = {%s}
 Dmin = 1
 Dmax = %d
 Rtypes = {%s}
 Full = TRUE
 MaxFail = %d
INVARIANT Time
INVARIANT Bounds
INVARIANT Ends
INVARIANT Frequencies
INVARIANT History
PROPERTY Ended
'''


def check(c):
    for e, d, m, r, f in c.pick([(12, '4, 24', 8, '"n_calls"', 2)], [(24, '4, 48', 8, '"n_calls", "simulation_time"', 2), (20, '4', 16, '"never"', 3)]):
        c.design('TimeLoopMC', MC % (e, d, m, r, f), workers=8, timeout=800)
    exe = c.build('h_app', repo_src='all', opt='-O0')
    for np, n in c.pick([(1, 160), (2, 60)], [(1, 1200), (2, 500), (3, 300)]):
        c.functional('TimeLoopCases', exe, [loopgen.case(c.rng, 1, c.thorough and i % 3 == 0) for i in range(n)], np=np if np > 1 else None,
                     label='runs of the driver, %d process(es)' % np, corrupt=loopgen.corrupt, nchunks=8)


if __name__ == '__main__':
    vf.main(check, 'C11')
