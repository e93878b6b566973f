"""Runner infrastructure: TLC invocation, recording files, verdicts, evidence.

Nothing in this file or in the drivers decides whether a property holds: TLC
does, by evaluating the specification on the recorded behaviour.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
EVID = VERIF / 'evidence'
REPO = Path(os.environ.get('BARTZ_REPO', '/repo'))
PY = os.environ.get('BARTZ_PYTHON', '/opt/venv/bin/python')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def ints(x):
    """numpy -> nested python ints"""
    import numpy as np
    return np.asarray(x).astype(np.int64).tolist()


NF = 2147483647  # code of a non-finite or unrepresentable number


def fix(x, q):
    """float array -> nested list of ints, rounded x*q; NF if not finite/too large"""
    import numpy as np
    x = np.asarray(x, np.float64)
    with np.errstate(all='ignore'):
        v = np.round(x * q)
        ok = np.isfinite(v) & (np.abs(v) < 2 ** 31 - 16)
    return np.where(ok, np.where(ok, v, 0), NF).astype(np.int64).tolist()


class Check:
    def __init__(self, prop, replay=None):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f'bartz_{prop}_'))
        self.states = 0
        self.transitions = 0
        self.judged = 0
        self.samples = []
        self.fails = []      # dicts: judge, index, clauses, record
        self.stats = {}
        self.assumptions = []
        self.lock = threading.Lock()
        self.exhaustive = False
        self.pool = ThreadPoolExecutor(8)
        self.pending = []
        self.replaydir = VERIF / 'replay'
        self.jobs = threading.Semaphore(8)

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env, workers, heap, timeout, extra=()):
        md = tempfile.mkdtemp(dir=self.scratch, prefix='md_')
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m',
               '-cp', JARS, 'tlc2.TLC', '-config', cfg, '-metadir', md,
               '-workers', str(workers), '-deadlock', '-noGenerateSpecTE',
               '-lncheck', 'final', *extra, module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f'TLC timeout on {module} {cfg}') from ex
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def _counts(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states', out.replace(',', '').replace('generated ', 'generated, '))
        m = m or re.findall(r'(\d+) states generated\D+(\d+) distinct', out.replace(',', ''))
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def model(self, module, cfg=None, workers=2, heap='2g', timeout=800, env=None):
        """Model-check a design module; any failure is a defect of the machinery."""
        cfg = cfg or module
        rc, out = self._tlc(module + '.tla', cfg + '.cfg', env, workers, heap, timeout)
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError(f'design model {module}/{cfg} fails:\n{out[-3000:]}')
        gen, dist = self._counts(out)
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.stats.setdefault('models', {})[cfg] = dict(states=dist, transitions=gen)

    def bg(self, f, *a, **k):
        fut = self.pool.submit(f, *a, **k)
        self.pending.append(fut)
        return fut

    def models(self, *items, **kw):
        """Model-check in background: items are (module, cfg)"""
        for mod, cfg in items:
            self.bg(self.model, mod, cfg, **kw)

    def judge(self, module, records, env=None, workers=8, heap='6g', timeout=850,
              label=None, files=None):
        """Let TLC judge records (list of dicts) with a judge module.

        The module reads IOEnv.RECORDS, defines Fails(i) and prints
        <<"FAIL", i, clause>> for each failing clause of record i.
        """
        label = label or module
        if not records:
            raise MachineryError(f'no records for {label}')
        path = self.scratch / f'{label}_{len(self.stats.get("judged", {}))}.ndjson'
        dump(path, records)
        e = dict(RECORDS=path, PROP=self.prop)
        for name, recs in (files or {}).items():
            p = self.scratch / f'{label}_{name}.ndjson'
            dump(p, recs)
            e[name] = p
        e.update(env or {})
        t0 = time.time()
        rc, out = self._tlc(module + '.tla', 'Judge.cfg', e, workers, heap, timeout)
        self.stats.setdefault('seconds', {})[f'judge {label} {len(self.stats.get("seconds", {}))}'] = round(time.time() - t0, 1)
        bad = {}
        m = re.search(r'Error: Evaluating invariant JVerdict failed', out)
        if rc != 0 and m and 'OutOfMemory' not in out and 'StackOverflow' not in out:
            # the record holds values outside the domain of the specification
            k = re.findall(r'^idx = (\d+)', out, re.M)
            if k:
                bad = {int(k[-1]): {'outside-the-domain-of-the-specification'}}
        if not bad and (rc != 0 or 'No error has been found' not in out):
            raise MachineryError(f'judge {module} cannot evaluate:\n{tlc_err(out)}')
        gen, dist = self._counts(out)
        if not bad and dist < len(records):
            raise MachineryError(f'judge {module} visited {dist} of {len(records)} records\n{out[-2000:]}')
        fails = bad
        if bad:
            self.stats['tlc_error'] = tlc_err(out)[:600]
        # TLC breaks long values into lines
        found = 0
        for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
            fails.setdefault(int(m[1]), set()).add(re.sub(r'\s+', ' ', m[2]))
            found += 1
        if found != out.count('"FAIL"'):
            for m in re.finditer(r'"FAIL",\s*(\d+)', out):
                fails.setdefault(int(m[1]), {'?'})
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.judged += len(records)
            d = self.stats.setdefault('judged', {})
            d[label] = d.get(label, 0) + len(records)
            for i, cl in sorted(fails.items()):
                self.fails.append(dict(judge=module, label=label, index=i, clauses=sorted(cl),
                                       record=records[i - 1], env={k: v for k, v in (env or {}).items()}))
            if len(self.samples) < 4:
                s = records[len(records) // 2]
                self.samples.append(dict(judge=label, record=clip(s)))
        return fails

    # ------------------------------------------------------------- verdict
    def finish(self):
        for f in self.pending:
            f.result()
        self.pool.shutdown()
        known = load_known()
        viol = []
        for f in self.fails:
            k = match_known(known, self.prop, f)
            if k:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            else:
                viol.append(f)
        if self.judged == 0:
            raise MachineryError('nothing judged')
        EVID.mkdir(exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.judged,
                   samples=self.samples or ['-'], detail=self.stats)
        if self.exhaustive:
            cov['exhaustive'] = True
        (EVID / f'{self.prop}.json').write_text(json.dumps(dict(
            property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
            coverage=cov, assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2), violations=len(viol)), indent=1))
        rc = 0
        if viol:
            self.replaydir.mkdir(exist_ok=True)
            p = self.replaydir / f'{self.prop}.json'
            p.write_text(json.dumps(dict(property=self.prop, seed=self.seed, tier=self.tier,
                                         failures=viol[:20]), indent=1))
            for f in viol[:5]:
                print(f"  {f['label']} record {f['index']}: {', '.join(f['clauses'])}"
                      f"  {json.dumps(clip(f['record'], 200))[:600]}")
            print(f'VIOLATION property={self.prop} replay={p.relative_to(VERIF)}')
            rc = 1
        print(f'{self.prop}: {self.judged} records judged, {len(viol)} violations, '
              f'{self.states} states, {time.time() - self.t0:.1f} s')
        return rc

    def cleanup(self):
        if os.environ.get('KEEP'):
            print('kept', self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)

    def apalache(self, module, runs):
        """Apalache runs (init, inv, length), unbounded constants from CInit"""
        for init, inv, length in runs:
            out = self.scratch / f'apa_{module}_{init}_{inv}'
            r = subprocess.run(['apalache-mc', 'check', '--cinit=CInit', f'--init={init}', f'--inv={inv}',
                                f'--length={length}', f'--out-dir={out}', f'{module}.tla'], cwd=SPEC, text=True,
                               env=dict(os.environ, TMPDIR=str(self.scratch), JVM_ARGS='-Xmx2g'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode != 0 or 'EXITCODE: OK' not in r.stdout:
                raise MachineryError(f'Apalache {module} {init} {inv}:\n{r.stdout[-2000:]}')
            with self.lock:
                self.stats.setdefault('apalache', []).append(f'{module}: {init} => {inv} after {length} steps')

    # ----------------------------------------------------------- recording
    def record(self, driver, jobs, timeout=800, procs=8, opt=0):
        """Run harness/drivers/<driver>.py on the jobs, in parallel processes.

        Returns the list of records, in the order of the jobs.
        """
        t0 = time.time()
        procs = max(1, min(procs, len(jobs)))
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('cost', 1))
        bins = [[] for _ in range(procs)]
        load = [0.0] * procs
        for i in order:
            b = load.index(min(load))
            bins[b].append(i)
            load[b] += jobs[i].get('cost', 1)
        env = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=f'{REPO}/src:{VERIF}/harness',
                   XLA_FLAGS=f'--xla_backend_optimization_level={opt} --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   TF_CPP_MIN_LOG_LEVEL='3', PYTHONWARNINGS='ignore')
        ps = []
        for b, idx in enumerate(bins):
            if not idx:
                continue
            tag = f'{driver}_{len(os.listdir(self.scratch))}_{b}'
            inp = self.scratch / f'{tag}.in.json'
            out = self.scratch / f'{tag}.out.ndjson'
            inp.write_text(json.dumps([dict(jobs[i], job=i, seed0=self.seed) for i in idx]))
            log = open(self.scratch / f'{tag}.log', 'w')
            p = subprocess.Popen([PY, '-B', str(VERIF / 'harness' / 'drivers' / f'{driver}.py'),
                                  str(inp), str(out)], env=env, cwd=self.scratch,
                                 stdout=log, stderr=subprocess.STDOUT)
            ps.append((p, out, log))
        end = time.time() + timeout
        res = []
        for p, out, log in ps:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired as ex:
                for q, _, _ in ps:
                    q.kill()
                raise MachineryError(f'driver {driver} timeout') from ex
            log.close()
            if rc != 0:
                for q, _, _ in ps:
                    q.kill()
                raise MachineryError(f'driver {driver} failed rc={rc}:\n' + Path(log.name).read_text()[-4000:])
            for line in open(out):
                res.append(json.loads(line))
        res.sort(key=lambda r: r['job'])
        self.stats.setdefault('seconds', {})[f'record {driver} {len(self.stats.get("seconds", {}))}'] = round(time.time() - t0, 1)
        return res


def tlc_err(out):
    lines = [l for l in out.splitlines() if not re.match(r'(Parsing|Semantic proc|Linting|Warning|\s*$)', l)]
    return '\n'.join(lines)[-3500:]


def dump(path, records):
    with open(path, 'w') as f:
        for r in records:
            f.write(json.dumps(r, separators=(',', ':')))
            f.write('\n')


def clip(x, n=40):
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > n:
            return [clip(v, n) for v in x[:n]] + ['...']
        return [clip(v, n) for v in x]
    return x


def load_known():
    p = VERIF / 'known_findings.json'
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text()).get('findings', [])]


def match_known(known, prop, fail):
    for k in known:
        if k['property'] == prop and k.get('label') == fail['label'] \
                and set(fail['clauses']) <= set(k['clauses']) \
                and fail['record'].get('key') == k.get('key'):
            return k
    return None


# ------------------------------------------------- used by the driver scripts
def driver_main(run_job):
    """Driver entry point: run_job(job) yields records; exceptions of the code
    under test have to be turned into records by run_job itself."""
    inp, out = sys.argv[1:3]
    jobs = json.load(open(inp))
    with open(out, 'w') as f:
        for job in jobs:
            for rec in run_job(job):
                rec = dict(rec, job=job['job'])
                f.write(json.dumps(rec, separators=(',', ':')) + '\n')
            f.flush()


def short_exc(e):
    return f'{type(e).__name__}: {str(e)[:160]}'.replace('"', "'").replace('\\', '/').replace('\n', ' ')
