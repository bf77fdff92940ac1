"""Common machinery of the checks: building harnesses from /repo's working tree,
running TLC, recording evidence, reporting violations."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'

REPO_SRC = ['src/base/output.cc', 'src/base/timer.cc', 'src/grid/grid_tools.cc',
            'src/grain_tracker/distributed_stitching.cc',
            'applications/sintering/src/csv_reader.cc',
            'applications/sintering/src/postprocessors.cc',
            'applications/sintering/src/tools.cc']
INC = ['/usr/lib/x86_64-linux-gnu/openmpi/include',
       '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '/usr/include/petsc',
       '/usr/include/trilinos', '/usr/include/hdf5/openmpi', '/usr/include/scotch',
       '/usr/include/suitesparse', '/usr/include/opencascade', '/usr/include/slepc']
LIBS = ['-Wl,--copy-dt-needed-entries',
        '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi:/usr/lib/x86_64-linux-gnu/openmpi/lib',
        '-ldeal.ii', '-ltbb', '-lmpi_cxx', '-lmpi', '-lboost_iostreams',
        '-lboost_serialization', '-ldl', '-lz', '-lm', '-lpthread']
MPI_ENV = {'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
           'OMPI_MCA_btl': 'self,vader',
           'OMPI_MCA_btl_vader_single_copy_mechanism': 'none',
           'OMPI_MCA_plm_rsh_agent': 'false', 'OMPI_MCA_oob_tcp_if_include': 'lo',
           'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_hwloc_base_binding_policy': 'none',
           'OMPI_MCA_mpi_yield_when_idle': '1',
           'OMP_NUM_THREADS': '1', 'DEAL_II_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
           'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + os.environ.get('PATH', ''),
           'HOME': os.environ.get('HOME', '/root')}


class MachineryError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash():
    """Hash of everything in /repo a harness may include or link."""
    h = hashlib.sha256()
    for top in ('include', 'src', 'applications', 'tests/include'):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.cc', '.hpp', '.templates.h')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.violations = []
        self.known_hits = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.work = os.path.join(BUILD, 'work', '%s-%d' % (prop, os.getpid()))
        if os.path.isdir(self.work):
            shutil.rmtree(self.work)
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)

    def note(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ build
    def build(self, name, sources=None, repo_src=True, defs=(), opt='-O1', src_dir=None):
        """Compile harness/<sources> against /repo's current tree."""
        sources = sources or [name + '.cc']
        ov = os.path.join(BUILD, 'overlay')
        gen = os.path.join(BUILD, 'gen')
        r = sh([sys.executable, os.path.join(VERIF, 'lib', 'overlay.py'), ov])
        if r.returncode:
            raise MachineryError('overlay: ' + r.stdout)
        rev = os.path.join(gen, 'pf-applications', 'base')
        os.makedirs(rev, exist_ok=True)
        t = ('#define PF_APPLICATIONS_GIT_BRANCH "x"\n#define PF_APPLICATIONS_GIT_REVISION "x"\n'
             '#define PF_APPLICATIONS_GIT_SHORTREV "x"\n')
        f = os.path.join(rev, 'revision.h')
        if not os.path.exists(f) or open(f).read() != t:
            open(f, 'w').write(t)
        base = ['/usr/bin/g++', '-DNDEBUG', '-DHPSINT_VERIF_HOOKS']
        base += ['-D' + d for d in defs]
        base += ['-I' + os.path.join(VERIF, 'harness'), '-I' + REPO + '/applications/sintering/include',
                 '-I' + REPO + '/applications/structural/include', '-I' + REPO + '/include',
                 '-I' + REPO + '/tests/include', '-I' + gen]
        for i in [ov] + INC + ['/opt/vp/shim/include']:
            base += ['-isystem', i]
        base += ['-w', '-std=gnu++20', '-g0', opt]
        srcs = [os.path.join(src_dir or os.path.join(VERIF, 'harness'), s) for s in sources]
        if repo_src is True:
            repo_src = REPO_SRC[:4]
        elif repo_src == 'all':
            repo_src = REPO_SRC
        srcs += [os.path.join(REPO, s) for s in (repo_src or []) if os.path.exists(os.path.join(REPO, s))]
        key = hashlib.sha256()
        key.update(tree_hash().encode())
        key.update(' '.join(base).encode())
        for d, _, fs in sorted(os.walk(os.path.join(VERIF, 'harness'))):
            for x in sorted(fs):
                if x.endswith('.h'):
                    key.update(open(os.path.join(d, x), 'rb').read())
        key.update(open(os.path.join(VERIF, 'lib', 'overlay.py'), 'rb').read())
        for s in srcs:
            key.update(open(s, 'rb').read())
        out = os.path.join(BUILD, 'bin', '%s-%s' % (name, key.hexdigest()[:16]))
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        od = tempfile.mkdtemp(prefix=name + '-', dir=self.work)
        self.note('building', name)

        def cc(s):
            o = os.path.join(od, os.path.basename(s) + '.o')
            return o, sh(base + ['-c', s, '-o', o])
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(cc, srcs))
        for o, r in res:
            if r.returncode:
                raise MachineryError('compiling %s failed:\n%s' % (o, r.stdout[-3000:]))
        r = sh(['/usr/bin/g++'] + [o for o, _ in res] + ['-o', out + '.tmp'] + LIBS)
        if r.returncode:
            raise MachineryError('linking %s failed:\n%s' % (name, r.stdout[-3000:]))
        # drop stale builds of the same harness
        for x in os.listdir(os.path.dirname(out)):
            if x.startswith(name + '-') and not x.endswith('.tmp'):
                os.unlink(os.path.join(os.path.dirname(out), x))
        os.rename(out + '.tmp', out)
        shutil.rmtree(od)
        self.note('built', name)
        return out

    # -------------------------------------------------------------------- run
    def run(self, exe, args=(), np=None, timeout=300, cwd=None, env=None):
        cmd = [exe] + [str(a) for a in args]
        if np:
            cmd = ['mpirun', '--quiet', '-np', str(np)] + cmd
        e = dict(MPI_ENV); e.update(env or {})
        try:
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  errors='replace', timeout=timeout, cwd=cwd or self.work, env=e)
        except subprocess.TimeoutExpired as ex:
            class R: pass
            r = R(); r.returncode = -999
            r.stdout = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or '')
            r.stderr = 'TIMEOUT'
            return r

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, files=None, workers=4, timeout=600, simulate=None, depth=None,
            deque=False, coverage=False, heap='4g', extra=(), name=None, quiet_fail=False):
        """Run TLC on spec/<module>.tla with the given configuration text.
        Returns a dict: ok, states, distinct, depth, prints, out, violated."""
        d = os.path.join(self.work, 'tlc-' + (name or module))
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        for fn, content in (files or {}).items():
            with open(os.path.join(d, fn), 'w') as fh:
                fh.write(content)
        with open(os.path.join(d, 'M.cfg'), 'w') as fh:
            fh.write(cfg)
        cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC', '-Xss64m', '-Dtlc2.TLC.stopAfter=100000']
        if deque:
            cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['-cp', self._cp(), 'tlc2.TLC', '-config', 'M.cfg', '-workers', str(workers),
                '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-nowarning']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(self.seed)]
        if depth:
            cmd += ['-depth', str(depth)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd += list(extra) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on ' + module)
        o = r.stdout
        res = {'rc': r.returncode, 'out': o, 'dir': d}
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', o)
        res['states'] = int(m[-1][0]) if m else 0
        res['distinct'] = int(m[-1][1]) if m else 0
        if simulate:
            m = re.findall(r'(\d+) states checked', o)
            res['states'] = int(m[-1]) if m else 0
        m = re.search(r'depth of the complete state graph search is (\d+)', o)
        res['depth'] = int(m.group(1)) if m else 0
        res['ok'] = r.returncode == 0
        # 10 = assumption, 11 = deadlock, 12 = safety, 13 = liveness, 14 = postcondition?
        res['violated'] = r.returncode in (10, 11, 12, 13, 14) or 'is violated' in o
        m = re.search(r'Invariant (\w+) is violated|property (\w+) is violated|Postcondition (\w+)', o)
        res['what'] = next((g for g in m.groups() if g), '') if m else ''
        if not res['ok'] and not res['violated']:
            if not quiet_fail:
                raise MachineryError('TLC error on %s (rc %d):\n%s' % (module, r.returncode, '\n'.join(x for x in o.splitlines() if not x[:1].isdigit() and x[:7] not in ('Parsing', 'Semanti', 'Linting'))[:3000]))
        self.states += res['distinct'] or res['states']
        self.transitions += res['states']
        return res

    def _cp(self):
        jars = [TLA_JAR]
        d = os.path.dirname(TLA_JAR)
        for f in sorted(os.listdir(d)):
            if f.endswith('.jar') and os.path.join(d, f) not in jars:
                jars.append(os.path.join(d, f))
        return ':'.join(jars)

    def design(self, module, cfg, **kw):
        """Exhaustive check of the specification itself; a failure is a machinery error."""
        r = self.tlc(module, cfg, name=kw.pop('name', module + '-design'), **kw)
        if not r['ok']:
            raise MachineryError('the specification %s violates its own properties:\n%s' % (module, r['out'][-3000:]))
        self.note('design %s: %d states, %d distinct, depth %d' % (module, r['states'], r['distinct'], r['depth']))
        self.cov.setdefault('design', []).append(
            {'module': module, 'states_generated': r['states'], 'distinct': r['distinct'], 'depth': r['depth']})
        return r

    def printed(self, r, tag):
        """Values printed by the spec as PrintT(<<tag, ToJson(x)>>)"""
        out = []
        for m in re.finditer(r'<<"%s", "(.*)">>' % re.escape(tag), r['out']):
            out.append(json.loads(m.group(1).encode().decode('unicode_escape') if '\\u' in m.group(1)
                                  else m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        return out

    def validate(self, module, records, cfg=None, name=None, timeout=600, consts='', chunk=None, deque=False, heap='4g'):
        """Check recorded events against spec/<module>.tla, which reads trace.ndjson,
        steps variable l through it and is rejected when it gets stuck.
        Returns index (0-based) of the first unexplained record, or None."""
        cfg = cfg or 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n' + consts
        files = {'trace.ndjson': ''.join(json.dumps(x) + '\n' for x in records)}
        r = self.tlc(module, cfg, files=files, workers=1, name=name or (module + '-trace'), timeout=timeout, deque=deque, heap=heap)
        if r['ok']:
            return None
        m = re.findall(r'<<"REACHED", (\d+)>>', r['out'])
        if not m:
            raise MachineryError('trace rejected without position:\n' + r['out'][-3000:])
        return int(m[-1]) - 1

    def validate_cases(self, module, records, nchunks=4, **kw):
        """Independent records (one call each). TLC prints the index of every
        record the specification rejects. Returns list of rejected indices."""
        bad = []
        n = len(records)
        nchunks = max(1, min(nchunks, n // 20 + 1))
        step = (n + nchunks - 1) // nchunks
        parts = [(i, records[i:i + step]) for i in range(0, n, step)]

        def one(a):
            off, recs = a
            files = {'cases.ndjson': ''.join(json.dumps(x) + '\n' for x in recs)}
            cfg = kw.get('cfg') or ('SPECIFICATION CaseSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION AllSeen\n' + kw.get('consts', ''))
            r = self.tlc(module, cfg, files=files, workers=1, name='%s-cases-%d' % (module, off),
                         timeout=kw.get('timeout', 600))
            if not r['ok']:
                raise MachineryError('case validation failed to finish:\n' + r['out'][-3000:])
            for x in re.findall(r'<<\s*"BADSTEP"[^@]{0,500}', r['out'])[:5 * (n == 1)]:
                self.note('rejected step', ' '.join(x.split()))
            return [off + int(x) - 1 for x in re.findall(r'<<"REJECTED", (\d+)>>', r['out'])]
        with cf.ThreadPoolExecutor(8) as ex:
            for b in ex.map(one, parts):
                bad += b
        return sorted(bad)

    # ------------------------------------------------- independent-call checks
    def feed(self, exe, lines, args=(), np=None, timeout=300, env=None):
        """Give the harness one line per case on a file, collect one JSON line per
        case. A case on which the harness dies or hangs yields {'crash': ...}."""
        out = [None] * len(lines)
        pos, hang = 0, 0
        while pos < len(lines):
            fd, path = tempfile.mkstemp(dir=self.work, suffix='.in')
            with os.fdopen(fd, 'w') as f:
                f.write('\n'.join(lines[pos:]) + '\n')
            r = self.run(exe, list(args) + [path], np=np, timeout=timeout, env=env)
            got = []
            for l in r.stdout.splitlines():
                if l.startswith('@'):
                    try:
                        got.append(json.loads(l[1:]))
                    except ValueError:
                        break
            os.unlink(path)
            got = got[:len(lines) - pos]
            for k, g in enumerate(got):
                out[pos + k] = g
            pos += len(got)
            if pos < len(lines):
                if r.returncode == 0:
                    raise MachineryError('harness %s ended early: %s' % (exe, r.stderr[-800:]))
                out[pos] = {'crash': 'rc=%d %s' % (r.returncode, (r.stderr or '')[-600:])}
                pos += 1
                hang += 1
                if hang > 20:
                    break
        return [o if o is not None else {'skipped': 1} for o in out]

    def functional(self, module, exe, cases, args=(), np=None, label=None, corrupt=None, consts='',
                   env=None, describe=None, timeout=300, key=None, max_report=5, nchunks=4):
        """cases: list of (input dict, token line). Runs the real code on each, lets the
        specification accept or reject every input/output pair, confirms rejections by a
        second run, and checks that corrupted outputs are rejected (binding)."""
        label = label or module
        lines = [t for _, t in cases]
        outs = self.feed(exe, lines, args=args, np=np, env=env, timeout=timeout)

        def rec(i, o):
            d = dict(cases[i][0]); d.update(o)
            return d
        recs, idx, crashed = [], [], []
        for i, o in enumerate(outs):
            if 'skipped' in o:
                continue
            if 'crash' in o:
                crashed.append(i)
            else:
                recs.append(rec(i, o)); idx.append(i)
        ncor = 0
        ext = list(recs)
        if corrupt:
            for r in recs:
                if ncor >= 20:
                    break
                x = corrupt(json.loads(json.dumps(r)), self.rng)
                if x is not None and x != r:
                    ext.append(x); ncor += 1
        bad = self.validate_cases(module, ext, consts=consts, nchunks=nchunks) if ext else []
        badset = set(bad)
        cor_rej = sum(1 for b in badset if b >= len(recs))
        if corrupt and not any(b < len(recs) for b in bad) and not crashed and (ncor == 0 or cor_rej < ncor):
            json.dump([ext[b] for b in range(len(recs), len(ext)) if b not in badset], open(os.path.join(BUILD, 'accepted.json'), 'w'))
            raise MachineryError('%s: %d of %d corrupted outputs accepted' % (label, ncor - cor_rej, ncor))
        known = self.known()
        nv = 0
        for i in [idx[b] for b in bad if b < len(recs)] + crashed:
            if nv >= max_report:
                break
            o2 = self.feed(exe, [lines[i]], args=args, np=np, env=env, timeout=timeout)[0]
            if 'crash' in o2:
                rej = True
            else:
                rej = bool(self.validate_cases(module, [rec(i, o2)], consts=consts))
            if not rej and i not in crashed:
                # The behaviour depends on the schedule. What was recorded is what the
                # code did: the record itself, validated once more on its own, decides.
                rej = bool(self.validate_cases(module, [rec(i, outs[i])], consts=consts))
                if not rej:
                    raise MachineryError('%s: the specification does not judge case %d consistently' % (label, i))
                o2 = outs[i]
            elif not rej:
                self.note('%s: case %d ended abnormally once, not again' % (label, i))
                continue
            k = key(cases[i][0], o2) if key else None
            if k and k in dict(known):
                self.known_hits.add(k)
                continue
            nv += 1
            self.violation('%s: case rejected by the specification%s' % (label, ' (crash)' if 'crash' in o2 else ''),
                           {'input': cases[i][0], 'line': lines[i], 'observed': o2, 'first': outs[i], 'spec': module})
        self.traces += len(recs)
        distinct = len({json.dumps(r, sort_keys=True) for r in recs})
        self.cov.setdefault('functional', []).append(
            {'spec': module, 'what': label, 'cases': len(recs), 'distinct': distinct, 'crashed': len(crashed),
             'corrupted_outputs_rejected': cor_rej, 'ranks': np or 1})
        if recs:
            self.samples.append({'what': label, 'case': recs[self.rng.randrange(len(recs))]})
        self.note('%s: %d cases (%d distinct), %d rejected, %d crashed, %d/%d corrupted rejected' %
                  (label, len(recs), distinct, len([b for b in bad if b < len(recs)]), len(crashed), cor_rej, ncor))
        return recs

    # --------------------------------------------------------------- outcome
    def known(self):
        res = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                m = re.match(r'known: property=%s key=(\S+) (.*)' % self.prop, l)
                if m:
                    res.append((m.group(1), m.group(2)))
        return res

    def violation(self, what, data):
        """Record a violation (already confirmed by a second run)."""
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (self.prop, len(self.violations)))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'seed': self.seed, 'what': what, 'data': data}, f, indent=1, default=str)
        self.violations.append((what, p))
        self.note('violation:', what)

    def finish(self, extra=None):
        cov = dict(self.cov)
        if extra:
            cov.update(extra)
        cov.setdefault('states', self.states)
        cov.setdefault('transitions', self.transitions)
        cov.setdefault('traces_validated_against_impl', self.traces)
        cov.setdefault('samples', self.samples[:5])
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, text in self.known():
            if k in self.known_hits:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, text), flush=True)
        for what, p in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)
        if not self.violations:
            self.note('held: %d TLC states, %d validated traces/cases' % (self.states, self.traces))
            shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(1 if self.violations else 0)


def main(fn, prop, **kw):
    c = None
    try:
        c = Check(prop, **kw)
        fn(c)
        c.finish()
    except MachineryError as e:
        print('MACHINERY ERROR:', e, file=sys.stderr, flush=True)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
