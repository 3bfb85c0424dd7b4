#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree, runs its jobs,
merges what the monitors observed, writes evidence/<id>.json and gives the verdict.

usage: run.py ID [--replay FILE] [--job NAME] [--keep]
environment: VERIF_TIER (quick|thorough), VERIF_SEED (integer)
"""
import sys, os, json, time, subprocess, hashlib, glob, re, shutil, signal, tempfile, struct
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, VARIANTS

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
H = os.path.join(V, 'harness')
NCPU = 8


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def content(path):
    with open(path, 'rb') as f:
        return f.read()


def repo_files():
    r = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'coda')):
        dirs.sort()
        r += [os.path.join(root, f) for f in sorted(files)]
    return r


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-6000:])


def compile_one(src, flags, key):
    out = os.path.join(BUILD, key + '.o')
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    sh(flags + ['-c', src, '-o', tmp])
    os.rename(tmp, out)
    return out


BLOCKED = 60


def session_cpu(sid):
    """Seconds of CPU used by the processes of a session."""
    total = 0
    for d in os.listdir('/proc'):
        if not d.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % d) as f:
                x = f.read().rsplit(')', 1)[1].split()
        except (OSError, IndexError):
            continue
        if x[3] == str(sid):
            total += sum(map(int, x[11:15]))
    return total / os.sysconf('SC_CLK_TCK')


def build(harness, variant, wraps=(), defs=(), extra_src=()):
    os.makedirs(BUILD, exist_ok=True)
    v = VARIANTS[variant]
    files = repo_files()
    hh = sha(*[hashlib.sha256(content(f)).hexdigest() for f in sorted(glob.glob(H + '/*'))
               if f.endswith('.hpp') or f.endswith('.h')])
    libsrc = [f for f in files if os.path.splitext(f)[1] in ('.c', '.cpp', '.cc', '.cxx')]
    rh = sha(*[f + '\0' + hashlib.sha256(content(f)).hexdigest() for f in files if f not in libsrc])   # whatever may be included
    jobs = []
    for f in libsrc:
        c = f.endswith('.c')
        fl = ([v['cc']] + v['cflags'] + v.get('libflags', []) if c else
              [v['cxx']] + v['cflags'] + v.get('libflags', []) + ['-std=c++11'])
        fl = fl + ['-w', '-I' + REPO]
        jobs.append((f, fl, 'lib-' + sha(f, content(f), rh, ' '.join(fl))))
    for f in [os.path.join(H, harness), os.path.join(H, 'common.cpp')] + [os.path.join(H, e) for e in extra_src]:
        fl = ([v['cc']] if f.endswith('.c') else [v['cxx'], '-std=gnu++14']) + v['cflags'] + v.get('hflags', []) + ['-w', '-I' + REPO, '-I' + H] + list(defs)
        jobs.append((f, fl, 'har-' + sha(f, rh, hh, content(f), ' '.join(fl))))
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    nlib = len(libsrc)
    lib, har = objs[:nlib], objs[nlib:]
    exe = os.path.join(BUILD, os.path.splitext(harness)[0] + '-' + variant + '-' + sha(*objs, *wraps, ' '.join(v['ldflags'])))
    if not os.path.exists(exe):
        # the library as an archive, as its users link it
        ar = exe + '.a.%d' % os.getpid()
        if os.path.exists(ar):
            os.unlink(ar)
        sh(['ar', 'rcs', ar] + lib)
        tmp = exe + '.%d.tmp' % os.getpid()
        sh([v['cxx']] + v['cflags'] + ['-o', tmp] + har + [ar] + ['-Wl,--wrap=' + w for w in wraps] +
           v['ldflags'] + ['-lexpat', '-lpthread', '-lrt', '-ldl'])
        os.unlink(ar)
        os.rename(tmp, exe)
    return exe


def env_for(variant):
    e = dict(os.environ)
    for k in list(e):
        if k.endswith('SAN_OPTIONS'):
            del e[k]
    e['TZ'] = 'UTC'
    e['LC_ALL'] = 'C'
    e['ASAN_OPTIONS'] = ('exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:'
                         'detect_stack_use_after_return=1:strict_string_checks=0:malloc_fill_byte=190:'
                         'max_malloc_fill_size=1048576:handle_abort=1:handle_sigill=1:handle_segv=1:print_legend=0:'
                         'quarantine_size_mb=16')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=4'
    e.update(VARIANTS[variant].get('env', {}))
    return e


def crash_key(text, rc):
    kind = func = None
    m = re.search(r'SUMMARY: (\w+): (.*)', text)
    if m:
        s = m.group(2)
        kind = s.split()[0]
        m2 = re.search(r' in (\S+)\s*$', s)
        if m2:
            func = m2.group(1)
        if 'data race' in s:
            kind = 'data-race'
    m = re.search(r'runtime error: (.*)', text)
    if m:
        kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:70]
    f = None
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+).*?%s/coda/([\w.]+)' % re.escape(REPO), text):
        f = m.group(1) + '@' + m.group(2)
        break
    if not kind:
        kind = 'signal-%d' % -rc if rc < 0 else 'exit-%d' % rc
    return 'crash:%s:%s' % (kind, f or func or '?')


def known_findings():
    r = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                r.append(m.groups())
    return r


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = PROPS[pid]
        self.scratch = tempfile.mkdtemp(prefix='vp-%s-' % pid)
        os.chmod(self.scratch, 0o755)
        self.viols, self.errors, self.notes = [], [], []
        self.blocked = set()
        self.evals, self.over, self.events, self.samples = 0, 0, {}, []
        self.distinct = set()
        self.exes = {}
        self.phases = {}

    def exe(self, job):
        k = (job.get('harness', self.spec['harness']), job.get('variant', 'asan'))
        return self.exes[k]

    def build_all(self, jobs):
        keys = []
        for j in jobs:
            k = (j.get('harness', self.spec['harness']), j.get('variant', 'asan'))
            if k not in keys:
                keys.append(k)
        for k in keys:
            j = next(j for j in jobs if (j.get('harness', self.spec['harness']), j.get('variant', 'asan')) == k)
            self.exes[k] = build(k[0], k[1], *[j.get(x, self.spec.get(x, ())) for x in ('wraps', 'defs', 'extra_src')])

    def run_worker(self, job, shard, seq, extra=None, timeout=None):
        th = self.tier == 'thorough'
        name = '%s-%d-%d' % (job['name'], shard, seq)
        out = os.path.join(self.scratch, name)
        d = out + '.d'
        os.mkdir(d)
        args = [self.exe(job), 'phase=' + job['phase'], 'out=' + out, 'dir=' + d, 'seed=%d' % self.seed,
                'shard=%d' % shard, 'shards=%d' % job.get('shards', NCPU), 'thorough=%d' % th]
        if 'cases' in job:
            args.append('cases=%d' % job['cases'][1 if th else 0])
        for k, val in job.get('args', {}).items():
            if isinstance(val, (tuple, list)):
                val = val[1 if th else 0]
            args.append('%s=%s' % (k, val))
        args += extra or []
        if timeout is None:
            timeout = job.get('timeout', (420, 6000))[1 if th else 0]
        err = open(out + '.err', 'wb')
        pre = job.get('prefix', [])
        p = subprocess.Popen(pre + args, stdin=subprocess.DEVNULL, stdout=err, stderr=err, cwd=d,
                             env=env_for(job.get('variant', 'asan')), start_new_session=True)
        rc = self.wait(p, out, timeout)
        timed = rc is None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if timed:
            p.wait()
        err.close()
        return dict(job=job, shard=shard, out=out, rc=rc, timed=timed, cmd=args)

    def wait(self, p, out, timeout):
        """Waits for a worker; None if it takes too long, or is blocked: neither a new case nor any use of the CPU."""
        end = time.time() + timeout
        seen, still, nap = None, 0, 0.01
        while True:
            try:
                return p.wait(nap)
            except subprocess.TimeoutExpired:
                pass
            t = time.time()
            if t > end:
                return None
            if nap < 1:
                nap = min(1, nap * 2)
                continue
            nap = 5
            try:
                cases = content(out + '.cur')[16:24]
            except OSError:
                cases = None
            used = session_cpu(p.pid)
            if seen is None or cases != seen[0] or used - seen[1] > 0.05 * still + 0.2:
                seen, still = (cases, used), 0
            else:
                still += 1
                if still * nap >= BLOCKED:
                    self.blocked.add(out)
                    return None

    def current(self, out):
        try:
            b = content(out + '.cur')
        except OSError:
            return None
        kind, n, index, _ = struct.unpack('<IIQQ', b[:24])
        if kind == 1:
            return {'bytes': b[24:24 + n].hex()}
        if kind == 2:
            return {'index': index}
        return None

    def replay_case(self, job, case, seq, timeout=120):
        f = os.path.join(self.scratch, 'case-%d' % seq)
        if 'bytes' in case:
            with open(f, 'wb') as fh:
                fh.write(bytes.fromhex(case['bytes']))
            extra = ['replay=' + f]
        else:
            extra = ['replay=%d' % case['index'], 'index=1']
        j = dict(job, name=job['name'] + '-replay', phase='replay', shards=1)
        extra.append('was=' + job['phase'])
        return self.run_worker(j, 0, seq, extra, timeout)

    def absorb(self, r, confirm=True):
        """Reads one worker's results."""
        job, out, rc = r['job'], r['out'], r['rc']
        text = content(out + '.err').decode(errors='replace')
        if os.path.exists(out + '.msg'):
            text += content(out + '.msg').decode(errors='replace')
        for f in sorted(glob.glob(out + '.san*')):
            text += content(f).decode(errors='replace')
        if os.path.exists(out + '.stats'):
            try:
                s = json.loads(content(out + '.stats'))
                self.evals += s['evaluations']
                self.over += s['distinct_over']
                ph = self.phases.setdefault(job['name'], 0)
                self.phases[job['name']] = ph + s['evaluations']
                for k, n in s['events'].items():
                    self.events[k] = self.events.get(k, 0) + n
                for x in s['samples']:
                    self.samples.append((job['name'], x))
                b = content(out + '.distinct')
                self.distinct.update(struct.unpack('<%dQ' % (len(b) // 8), b))
            except (ValueError, KeyError, OSError):
                pass
        recorded = []
        if os.path.exists(out + '.viol'):
            for l in content(out + '.viol').decode(errors='replace').splitlines():
                try:
                    recorded.append(json.loads(l))
                except ValueError:
                    pass
        for v in recorded:
            if v['kind'] == 'error':
                self.errors.append('%s: %s' % (job['name'], v['msg']))
            else:
                self.add(job, v['key'], v['msg'], v, r, text)
        if r['timed'] or rc == 78:
            case = self.current(out)
            if case is None or job['phase'] not in ('exh', 'rand', 'fuzz'):
                if out in self.blocked:
                    self.add(job, 'stuck', 'nothing happens any more: no progress and no use of the CPU for %d s' % BLOCKED, {}, r, text)
                elif job['phase'] == 'custom':
                    self.add(job, 'stuck', 'the workload did not finish in time', {}, r, text)
                elif job['phase'] == 'replay':
                    self.add(job, 'hang', 'the case does not finish (or exhausts memory)', case or {}, r, text)
                else:
                    self.errors.append('%s: worker timed out' % job['name'])
            else:
                r2 = self.replay_case(job, case, 900000 + len(self.viols) * 100 + r['shard'])
                if r2['rc'] == 78 or r2['timed']:
                    self.add(job, 'hang', 'the case does not finish (or exhausts memory)', case, r, text)
                elif r2['rc'] == 0:
                    self.notes.append('%s: a slow worker, its case passed when run alone' % job['name'])
                else:
                    self.absorb(r2)
        elif rc == 79 or (rc == 77 and recorded) or rc == 0:
            if rc == 79 and not recorded:
                self.errors.append('%s: harness error without record' % job['name'])
        else:
            case = self.current(out) if job['phase'] in ('exh', 'rand', 'fuzz', 'replay') else {}
            if rc == -9:
                self.errors.append('%s: worker killed (SIGKILL)' % job['name'])
            else:
                self.add(job, crash_key(text, rc), 'the program crashed or a sanitizer stopped it (exit %s)' % rc, case or {}, r, text)

    def add(self, job, key, msg, case, r, text):
        self.viols.append(dict(property=self.pid, job=job['name'], key=key, msg=msg, harness=job.get('harness', self.spec['harness']),
                               seed=self.seed, tier=self.tier, shard=r['shard'],
                               case={k: case[k] for k in ('bytes', 'index') if k in case}, output=text[-6000:]))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    rep = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    only = sys.argv[sys.argv.index('--job') + 1] if '--job' in sys.argv else None
    r = Runner(pid, tier, seed)
    jobs = [j for j in r.spec['jobs'] if not (j.get('thorough_only') and tier != 'thorough')]
    if rep:
        rd = json.load(open(rep))
        jobs = [j for j in r.spec['jobs'] if j['name'] == rd['job']]
        r.seed, r.tier = rd['seed'], rd['tier']
    if only:
        jobs = [j for j in jobs if j['name'] == only]
    try:
        r.build_all(jobs)
        tb = time.time() - t0
        if rep and rd['case']:
            res = r.replay_case(jobs[0], rd['case'], 0)
            r.absorb(res)
        else:
            seq = 0
            work = []
            for j in jobs:
                for s in range(j.get('shards', NCPU)):
                    if rep and s != rd['shard']:
                        continue
                    work.append((j, s, seq))
                    seq += 1
            par = [w for w in work if not w[0].get('alone')]
            alone = [w for w in work if w[0].get('alone')]
            with ThreadPoolExecutor(NCPU) as ex:
                results = list(ex.map(lambda w: r.run_worker(*w), par))
            for w in alone:
                results.append(r.run_worker(*w))
            for res in results:
                r.absorb(res)
    except BuildError as e:
        print('BUILD ERROR\n%s' % e)
        r.close()
        sys.exit(2)
    except KeyboardInterrupt:
        r.close()
        raise
    known = known_findings()
    real, seen_known = [], {}
    for v in r.viols:
        k = [x for x in known if x[0] == pid and x[1] == v['key']]
        if k:
            seen_known[k[0][1]] = k[0][2]
        else:
            real.append(v)
    for k, what in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    wall = time.time() - t0
    if not rep and not only:
        write_evidence(r, real, seen_known, wall, tb, jobs)
    print('%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s (build %.1f s)' %
          (pid, tier, seed, r.evals, len(r.distinct), wall, tb))
    for k in sorted(r.events):
        print('  observed %-44s %d' % (k, r.events[k]))
    for n in r.notes[:10]:
        print('  note:', n)
    for e in r.errors[:10]:
        print('ERROR', e)
    rc = 0
    if real:
        seen = set()
        os.makedirs(os.path.join(V, 'evidence', 'replays'), exist_ok=True)
        for v in real:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            path = os.path.join('evidence', 'replays', '%s-%s.json' % (pid, sha(v['key'])[:10]))
            if not rep:
                with open(os.path.join(V, path), 'w') as f:
                    json.dump(v, f, indent=1)
            print('  key=%s job=%s: %s' % (v['key'], v['job'], v['msg'][:1500]))
            if v['key'].startswith('crash') or v['key'] in ('hang', 'stuck'):
                print('    ' + '\n    '.join([l[:220] for l in v['output'].splitlines()
                                             if re.search(r'ERROR|WARNING|SUMMARY|runtime error|terminate|what\(\)|#\d+ 0x', l)][:16]))
            print('VIOLATION property=%s replay=%s' % (pid, rep or path))
        rc = 1
    elif r.errors:
        rc = 2
    if '--keep' in sys.argv:
        print('scratch kept:', r.scratch)
    else:
        r.close()
    sys.exit(rc)


def write_evidence(r, real, seen_known, wall, tb, jobs):
    s = r.spec
    samples = []
    per = {}
    for n, x in r.samples:
        if per.get(n, 0) < 3 and x not in samples:
            per[n] = per.get(n, 0) + 1
            samples.append(x)
    ev = {
        'property': r.pid, 'tier': r.tier, 'seed': r.seed, 'level': s.get('level', 'exploration'),
        'coverage': {
            'evaluations': r.evals,
            'distinct_nontrivial': len(r.distinct),
            'rule': s['rule'],
            'samples': samples[:12] or ['(none recorded)'],
            'evaluations_by_phase': r.phases,
            'events_observed': dict(sorted(r.events.items())),
            'builds': sorted({'%s:%s' % (k[0], k[1]) for k in r.exes}),
            'build_s': round(tb, 2),
        },
        'assumptions': s.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(real),
    }
    if r.over:
        ev['coverage']['distinct_not_counted_over_cap'] = r.over
    if seen_known:
        ev['coverage']['known_findings_reproduced'] = sorted(seen_known)
    if r.notes:
        ev['coverage']['notes'] = r.notes[:20]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(V, 'evidence', '.%s.tmp' % r.pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(V, 'evidence', r.pid + '.json'))


if __name__ == '__main__':
    main()
