"""Check driver: builds /repo's working tree, shards the cases of a check over worker processes, and gives the verdict.

  python3 lib/run.py <property> [quick|thorough] [--case I] [--seed N] [--cases N]

exit 0: the property held on everything explored; 1: violation (with a VIOLATION line); 2: no answer.
"""
import argparse
import collections
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import vbuild  # noqa: E402

VERIF = Path(__file__).resolve().parent.parent
CHECKS = VERIF / 'checks'
OUT = Path(os.environ.get('VERIF_OUT', VERIF / 'out'))
EVID = Path(os.environ.get('VERIF_EVIDENCE', VERIF / 'evidence'))


def san_signature(text):
    """Turns a sanitizer report into a signature: kind and the first frame in the project's sources."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', text) or re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', text)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r'(\S+?):(\d+):\d+: runtime error: (.+)', text)
        if m:
            msg = re.sub(r'-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', m.group(3))[:60]
            return f'ubsan:{Path(m.group(1)).name}:{msg}'
        m = re.search(r'LeakSanitizer', text)
        if m:
            kind = 'leak'
        m = m or re.search(r"Assertion '(.{0,80})", text)
        if m and not kind:
            kind = 'assert'
    if kind is None:
        return None
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+/(?:cpp|harness)/\S+?):(\d+)', text)
    frames = frames or re.findall(r'#\d+ (.+?) (/\S+/(?:cpp|harness)/\S+?):(\d+)', text)
    where = Path(frames[0][1]).name if frames else '?'
    return f'{kind}:{where}'


def report_of(err):
    k = re.search(r'==\d+==ERROR|WARNING: ThreadSanitizer|runtime error:', err)
    return err[max(0, k.start() - 200):][:6000] if k else err[-6000:]


def env_for(flavor, pkg, mod):
    e = dict(PATH='/usr/local/bin:/usr/bin:/bin', HOME=os.environ.get('HOME', '/root'), LANG='C.UTF-8',
             PYTHONPATH=str(pkg), PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell',
             OMP_NUM_THREADS='4', OMP_WAIT_POLICY='passive', GOMP_SPINCOUNT='0', PYTHONHASHSEED='0',
             OMP_DYNAMIC='false', MKL_NUM_THREADS='1', VERIF_FLAVOR=flavor, TMPDIR=os.environ.get('TMPDIR', '/tmp'))
    pre = []
    if flavor == 'asan':
        lib = subprocess.run(['g++', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        e['LD_PRELOAD'] = os.path.realpath(lib)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:' \
            'malloc_fill_byte=203:max_malloc_fill_size=65536:allocator_may_return_null=1:quarantine_size_mb=64'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
        e['PYTHONMALLOC'] = 'malloc'
        # libstdc++ has to be resolvable when ASan's interceptors are initialised (exceptions)
        std = subprocess.run(['g++', '-print-file-name=libstdc++.so.6'], capture_output=True, text=True).stdout.strip()
        e['LD_PRELOAD'] += ':' + os.path.realpath(std)
    elif flavor == 'tsan':
        lib = subprocess.run(['g++', '-print-file-name=libtsan.so'], capture_output=True, text=True).stdout.strip()
        std = subprocess.run(['g++', '-print-file-name=libstdc++.so.6'], capture_output=True, text=True).stdout.strip()
        e['LD_PRELOAD'] = os.path.realpath(lib) + ':' + os.path.realpath(std)
        e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99:report_signal_unsafe=0:ignore_noninstrumented_modules=0:' \
            'history_size=4'
        pre = ['setarch', '-R']
    for k, v in getattr(mod, 'ENV', {}).items():
        e[k] = v
    return e, pre


class Shard:

    def __init__(self, prop, module, tier, seed, cases, flavor, env, pre, tmp, k, timeout):
        self.cases = list(cases)
        self.k = k
        self.spec = dict(prop=prop, module=module, tier=tier, seed=seed)
        self.env, self.pre, self.tmp, self.timeout = env, pre, tmp, timeout
        self.flavor = flavor
        self.proc = None
        self.gen = 0
        self.records = []
        self.current = None
        self.fatal = []  # (case, kind, stderr)
        self.done = False
        self.up = False

    def start(self):
        self.gen += 1
        self.path = os.path.join(self.tmp, f'{self.flavor}-{self.k}-{self.gen}.jsonl')
        self.err = self.path + '.err'
        spec = dict(self.spec, cases=self.cases, out=self.path)
        self.current = None
        self.pos = 0
        self.buf = ''
        self.up = False
        self.last = time.time()
        open(self.path, 'w').close()
        self.proc = subprocess.Popen(self.pre + [str(vbuild.PY), '-W', 'ignore', str(VERIF / 'lib' / 'worker.py'),
                                                 json.dumps(spec)],
                                     env=self.env, stdout=subprocess.DEVNULL, stderr=open(self.err, 'w'), cwd=self.tmp,
                                     start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def read(self):
        with open(self.path) as f:
            f.seek(self.pos)
            data = f.read()
            self.pos = f.tell()
        self.buf += data
        fin = False
        while '\n' in self.buf:
            line, self.buf = self.buf.split('\n', 1)
            if not line:
                continue
            rec = json.loads(line)
            self.last = time.time()
            if rec['t'] == 'up':
                self.up = True
            elif rec['t'] == 's':
                self.current = rec['i']
            elif rec['t'] == 'r':
                self.records.append(rec)
                self.cases.remove(rec['i'])
                self.current = None
            elif rec['t'] == 'done':
                fin = True
        return fin

    def poll(self, only_case=False):
        """Returns True while there is something left to do."""
        if self.done:
            return False
        rc = self.proc.poll()
        fin = self.read()
        if rc is not None:
            fin = self.read() or fin
            if not self.cases:
                self.done = True
                return False
            err = open(self.err, errors='replace').read()
            if not self.up:
                raise RuntimeError(f'worker did not come up (rc={rc}): ' + err[-3000:])
            c = self.current
            if c is None:
                raise RuntimeError(f'worker ended outside of a case (rc={rc}): ' + err[-3000:])
            self.fatal.append((c, f'rc={rc}', err))
            self.cases.remove(c)
            if len(self.fatal) > 20:
                self.cases = []
            if not self.cases:
                self.done = True
                return False
            self.start()
            return True
        if time.time() - self.last > (self.timeout if self.up else 180):
            c = self.current
            self.kill()
            if c is None:
                raise RuntimeError('worker hangs outside of a case')
            self.fatal.append((c, 'hang', open(self.err, errors='replace').read()))
            self.cases.remove(c)
            if not self.cases:
                self.done = True
                return False
            self.start()
        return True


def run_flavor(prop, mod, modname, tier, seed, cases, flavor, tmp, jobs, deadline):
    pkg = vbuild.build(flavor, verbose=True)
    env, pre = env_for(flavor, pkg, mod)
    timeout = getattr(mod, 'CASE_TIMEOUT', 30) * (3 if flavor in ('asan', 'tsan') else 1)
    jobs = min(jobs, getattr(mod, 'JOBS', jobs), max(1, len(cases)))
    shards = [Shard(prop, modname, tier, seed, cases[k::jobs], flavor, env, pre, tmp, k, timeout) for k in range(jobs)]
    for s in shards:
        s.start()
    cut = False
    try:
        while True:
            live = [s.poll() for s in shards]
            if not any(live):
                break
            nprobes = getattr(mod, 'PROBES', 0)
            if time.time() > deadline or sum(f[0] >= nprobes for s in shards for f in s.fatal) >= 10:
                cut = True  # out of time, or there are enough crashes and hangs to report
                for s in shards:
                    if not s.done:
                        s.read()
                        s.kill()
                break
            time.sleep(0.05)
    finally:
        for s in shards:
            if s.proc.poll() is None:
                s.kill()
    records = [dict(r, flavor=flavor) for s in shards for r in s.records]
    fatal = [f for s in shards for f in s.fatal]
    # confirm crashes and hangs by running the case alone, once more, with twice the time
    confirmed, flaky, singular = [], [], 0
    fatal.sort(key=lambda f: (f[0] >= getattr(mod, 'PROBES', 0), f[1] == 'hang', f[0]))
    for c, kind, err in fatal[:6 + getattr(mod, 'PROBES', 0)]:
        if confirmed and time.time() > deadline:
            break
        s = Shard(prop, modname, tier, seed, [c], flavor, env, pre, tmp, f'c{c}', timeout * 2)
        s.start()
        while s.poll():
            time.sleep(0.05)
        if s.fatal:
            _, kind2, err2 = s.fatal[0]
            sig = san_signature(err2) or ('hang' if kind2 == 'hang' else 'crash:' + kind2)
            # K19: ill-conditioned systems of linear equations abort the process, which is not judged unless it happens regularly
            if c >= getattr(mod, 'PROBES', 0) and 'DSYSV terminated with' in err2 and len(cases) > 500 * (singular + 1):
                singular += 1
                records.append(dict(i=c, v='skip', n={'singular_systems': 1}, d=[], note='', flavor=flavor, s=0))
                continue
            confirmed.append(dict(i=c, v='bad', sig=sig, msg=f'{kind2}\n' + report_of(err2), n={}, d=[], note='',
                                  flavor=flavor, s=0))
        else:
            sig = san_signature(err)
            if sig:  # a sanitizer report is definite even if the schedule does not recur
                confirmed.append(dict(i=c, v='bad', sig=sig, msg=f'{kind} (not on every run)\n' + report_of(err), n={},
                                      d=[], note='', flavor=flavor, s=0))
            else:
                flaky.append((c, kind))
                records += [dict(r, flavor=flavor) for r in s.records]
    return records + confirmed, flaky, cut


def load_known():
    p = VERIF / 'known_findings.jsonl'
    res = []
    if p.exists():
        for line in p.read_text().splitlines():
            if line.strip():
                k = json.loads(line)
                if k.get('status') == 'known':
                    res.append(k)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default='quick')
    ap.add_argument('--case', type=int)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--flavor')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    modname = prop.lower()
    sys.path.insert(0, str(CHECKS))
    src = (CHECKS / f'{modname}.py').read_text()
    mod = _meta(src)
    n = a.cases or mod.CASES[a.tier]
    cases = [a.case] if a.case is not None else list(range(n))
    limit = float(os.environ.get('VERIF_DEADLINE', 560 if a.tier == 'quick' else 6 * 3600))
    tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        records, flaky, cut = [], [], False
        flavors = (a.flavor, ) if a.flavor else mod.FLAVORS
        for fl in flavors:
            cs = cases
            if a.case is None and hasattr(mod, 'CASES_' + fl):
                cs = list(range(getattr(mod, 'CASES_' + fl)[a.tier]))
            r, f, c = run_flavor(prop, mod, modname, a.tier, a.seed, cs, fl, tmp, a.jobs, t0 + limit)
            records += r
            flaky += f
            cut = cut or c
    except vbuild.BuildError as e:
        print('BUILD FAILED\n' + str(e))
        return 2
    except RuntimeError as e:
        print('NO ANSWER: ' + str(e))
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    known = [k for k in load_known() if k['property'] == prop]
    counts = collections.Counter()
    dist = set()
    verd = collections.Counter()
    bad = []
    for r in records:
        verd[r['v']] += 1
        for k, v in r['n'].items():
            counts[k] += v
        dist.update(r['d'])
        if r['v'] in ('bad', 'exc'):
            bad.append(r)
    seen_known = {}
    fresh = []
    for r in bad:
        if r['i'] < getattr(mod, 'PROBES', 0):  # inputs that are fixed because they show a known finding
            r['sig'] = f'probe{r["i"]}:' + r['sig']
        for k in known:
            if re.fullmatch(k['signature'], r['sig']):
                seen_known[k['signature']] = k
                break
        else:
            fresh.append(r)
    for k in seen_known.values():
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    OUT.mkdir(exist_ok=True)
    by_sig = collections.OrderedDict()
    for r in fresh:
        by_sig.setdefault(r['sig'], []).append(r)
    for sig, rs in by_sig.items():
        r = rs[0]
        path = OUT / f'{prop}-{r["i"]}-{re.sub(r"[^A-Za-z0-9]+", "_", sig)[:60]}.json'
        path.write_text(json.dumps(dict(property=prop, signature=sig, occurrences=len(rs), flavor=r['flavor'],
                                        replay=f'cd /verif && python3 lib/run.py {prop} {a.tier} --case {r["i"]} '
                                        f'--seed {a.seed}', case=r['i'], seed=a.seed, note=r['note'],
                                        message=r['msg']), indent=1))
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {sig} ({len(rs)} case(s)), case {r["i"]}: {r["msg"].strip()[:int(os.environ.get("VERIF_MSG", "600"))]}')
        if r['note']:
            print(f'  input: {r["note"][:600]}')
    samples = [r['note'] for r in records if r['v'] == 'ok' and r['note']][:5]
    wall = time.time() - t0
    cov = dict(evaluations=verd['ok'] + verd['bad'] + verd['exc'], distinct_nontrivial=len(dist), rule=mod.RULE,
               samples=samples, skipped=verd['skip'], observed=dict(sorted(counts.items())),
               flaky_cases=[list(map(str, f)) for f in flaky], deadline_hit=cut, flavors=list(flavors))
    ev = dict(property=prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed,
              level='exploration', coverage=cov, assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 1),
              violations=len(fresh))
    cov['violation_signatures'] = {s: rs[0]['i'] for s, rs in by_sig.items()}
    cov['known_findings_seen'] = sorted(seen_known)
    if a.case is None:
        EVID.mkdir(exist_ok=True)
        (EVID / f'{prop}.json').write_text(json.dumps(ev, indent=1))
    print(f'{prop} [{a.tier}] seed={a.seed} cases={len(records)} ok={verd["ok"]} skip={verd["skip"]} '
          f'bad={len(bad)} distinct={len(dist)} flaky={len(flaky)} wall={wall:.0f}s')
    print('  observed: ' + ', '.join(f'{k}={v}' for k, v in sorted(counts.items())))
    if fresh:
        return 1
    if cut and verd['ok'] < 0.1 * len(cases):
        print('NO ANSWER: the deadline was hit before a fifth of the cases had run')
        return 2
    if a.case is None:
        for name, minimum in getattr(mod, 'REQUIRE', {}).items():
            if counts[name] < minimum and not cut and a.cases is None:
                print(f'NO ANSWER: only {counts[name]} of at least {minimum} observations of "{name}"')
                return 2
    return 0


class _Meta:
    pass


def _meta(src):
    """Reads the (literal) settings at the top of a check module without importing it (the driver has no numpy)."""
    import ast
    m = _Meta()
    m.FLAVORS = ('plain', )
    m.ASSUMPTIONS = []
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
            try:
                setattr(m, node.targets[0].id, ast.literal_eval(node.value))
            except ValueError:
                pass
    return m


if __name__ == '__main__':
    sys.exit(main())
