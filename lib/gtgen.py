"""Random histories for the grain tracker harness (h_tracker)."""


def tok(c):
    t = [c['dim']] + c['rep'] + [int(c['per']), len(c['ref'])]
    for p in c['ref']:
        t.append(len(p))
        for q in p:
            t += q
    t += [c['nops'], int(c['greedy']), int(c['allow']), int(c['fast']), c['maxops'], c['repr'], c['thr'], c['thrnew'],
          c['ratio'], c['fixed'], c['off'], int(c['oldremap']), c['restart'], len(c['acts'])]
    for a in c['acts']:
        t.append(a[0])
        if a[0] == 'F':
            t.append(len(a[1]))
            for f in a[1]:
                t.append(len(f))
                for k, v in f:
                    t += list(k) + [v]
        elif a[0] == 'K':
            t.append(len(a[1]))
            for b, k, op in a[1]:
                t += [b] + list(k) + [op]
        elif a[0] == 'C':
            t.append(len(a[1]))
            for k, v in a[1]:
                t += [k, v]
    return ' '.join(map(str, t))


def spec_input(c):
    """What the specification needs to know about the input."""
    return {'dim': c['dim'], 'L': [4 * n for n in c['rep']], 'per': c['per'], 'thr': c['thr'] * 64, 'thrnew': c['thrnew'] * 64,
            'greedy': c['greedy'], 'allow': c['allow'], 'fast': c['fast'], 'maxops': c['maxops'],
            'ratio': c['ratio'], 'fixed': c['fixed'], 'repr': c['repr'], 'restart': c['restart']}


def box_points(dim, lo, hi, step=1):
    if dim == 2:
        return [(x, y) for x in range(lo[0], hi[0] + 1, step) for y in range(lo[1], hi[1] + 1, step)]
    return [(x, y, z) for x in range(lo[0], hi[0] + 1, step) for y in range(lo[1], hi[1] + 1, step)
            for z in range(lo[2], hi[2] + 1, step)]


class Gen:
    def __init__(self, rng, dim=None, per=None, nops=None, thorough=False, **kw):
        self.rng = rng
        self.dim = dim or (2 if rng.random() < .85 else 3)
        n = rng.choice([3, 4, 5, 6]) if self.dim == 2 else 2
        self.rep = [max(2, n + rng.choice([0, 0, 1, -1])) for _ in range(self.dim)]
        if self.dim == 3:
            self.rep = [rng.choice([2, 2, 3]) for _ in range(3)]
        self.L = [4 * n for n in self.rep]
        self.nops = nops or rng.choice([1, 2, 2, 3, 3, 4])
        self.c = {'dim': self.dim, 'rep': self.rep, 'per': (rng.random() < .3) if per is None else per, 'ref': [],
                  'nops': self.nops, 'greedy': False, 'allow': False, 'fast': rng.random() < .5, 'maxops': 20,
                  'repr': rng.choice([0, 0, 0, 2]), 'thr': rng.choice([10, 10, 100]), 'thrnew': 20, 'ratio': 50, 'fixed': 0,
                  'off': rng.choice([2, 2, 0, 1, 3]), 'oldremap': False, 'restart': 0, 'acts': []}
        if self.c['thr'] == 100:
            self.c['thrnew'] = rng.choice([100, 300])
        self.c.update(kw)
        # wavefront distances are estimated by a serial-only front propagation in mixed meshes
        m = rng.random()
        npass = 0 if m < .25 else (1 if m < .65 else 2)
        for _ in range(npass):
            k = rng.choice([1, 2, 4, 6]) if self.dim == 2 else rng.choice([1, 2])
            if rng.random() < .15:
                self.c['ref'].append([[x for x in self.pt()] for _ in range(40 if self.dim == 2 else 4)])
            else:
                self.c['ref'].append([self.pt() for _ in range(k)])

    def pt(self):
        return [self.rng.randrange(0, 2 * l) * 1 + (0) if False else 2 * self.rng.randrange(0, l) + 1 for l in self.L]

    def blob(self, size=None):
        """A set of lattice nodes: a box, a cross, a ring or a diagonal chain; may wrap when periodic."""
        r, dim, L = self.rng, self.dim, self.L
        kind = r.random()
        s = size or r.choice([0, 1, 2, 4, 4, 6, 8])
        lo = [r.randrange(0, l + 1) for l in L]
        if r.random() < .5:
            lo = [x - x % 4 for x in lo]
        if kind < .6:
            hi = [min(l, x + r.choice([0, s, s])) for x, l in zip(lo, L)]
            pts = box_points(dim, lo, hi)
        elif kind < .8 and dim == 2:
            w = r.choice([8, 12])
            hi = [min(l, x + w) for x, l in zip(lo, L)]
            pts = [p for p in box_points(2, lo, hi) if p[0] in (lo[0], hi[0]) or p[1] in (lo[1], hi[1])]
        else:
            pts, p = [], list(lo)
            for _ in range(r.choice([2, 3, 5])):
                pts += [tuple(q) for q in [p]]
                q = list(p)
                d = r.randrange(dim)
                st = r.choice([4, 4, 2, 1]) * r.choice([1, -1])
                for k in range(1, abs(st) + 1):
                    q2 = list(q)
                    q2[d] = max(0, min(L[d], q[d] + (k if st > 0 else -k)))
                    pts.append(tuple(q2))
                p = list(pts[-1])
        if self.c['per'] and r.random() < .6:
            # continue over the boundary
            d = r.randrange(dim)
            ext = [tuple((0 if i == d else x) for i, x in enumerate(p)) for p in pts]
            ext2 = [tuple((L[d] if i == d else x) for i, x in enumerate(p)) for p in pts]
            pts = pts + ext + ext2 if r.random() < .5 else ext + ext2
        return pts

    def field(self, nblobs, vals=(512, 1024, 900)):
        f = {}
        for _ in range(nblobs):
            v = self.rng.choice(vals)
            if self.rng.random() < .12:
                v = self.rng.choice([self.c['thr'], self.c['thr'] + 1, self.c['thrnew'], self.c['thrnew'] + 1, 5])
            for p in self.blob():
                f[p] = max(f.get(p, 0), v) if self.rng.random() < .95 else v
        if self.rng.random() < .1:
            for p in list(f):
                if self.rng.random() < .3:
                    f[p] = -f[p]
        return f

    def F(self, fields):
        return ['F', [[(k, v) for k, v in sorted(f.items())] for f in fields]]

    def move(self, f):
        """A slightly moved / grown / shrunk copy of a field."""
        r = self.rng
        m = r.random()
        sh = [r.choice([-1, 0, 0, 1, 2, -2]) for _ in range(self.dim)]
        g = {}
        for k, v in f.items():
            q = tuple(x + s for x, s in zip(k, sh))
            if self.c['per']:
                q = tuple(x % (l) if (x < 0 or x > l) else x for x, l in zip(q, self.L))
            if all(0 <= x <= l for x, l in zip(q, self.L)):
                g[q] = v
        if m < .3:
            for k in list(g):
                if r.random() < .25:
                    for d in range(self.dim):
                        q = list(k)
                        q[d] = max(0, min(self.L[d], q[d] + r.choice([1, -1])))
                        g.setdefault(tuple(q), g[k])
        elif m < .5:
            for k in list(g):
                if r.random() < .2:
                    del g[k]
        return g
