"""Shared machinery: building /repo's sources, running TLC, replaying and
validating behaviours, reporting.

Everything a check needs is reached through a Ctx.  A check module in
/verif/checks defines run(ctx) and nothing else is required of it."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
LIBS = ['-lbz2', '-llzma', '-lz', '-lm', '-lpthread', '-ldl']
VARIANTS = {
    'asan': ['-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'plain': ['-g', '-O2'],
    # as asan, calling back at every basic block (harness/threads.h)
    'sched': ['-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-fsanitize-coverage=trace-pc'],
    # calling back at every access to memory
    'access': ['-g', '-O1', '-fsanitize=thread', '-fno-omit-frame-pointer'],
}
COMMON = ['-DHAVE_CONFIG_H', '-I' + REPO, '-w', '-pthread']
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def sh(args, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    return subprocess.run(args, **kw)


# ---------------------------------------------------------------- building

def _tree_hash(extra=()):
    h = hashlib.sha256()
    for d in ('wizard', 'utilities'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(('.c', '.h', '.map')):
                h.update(f.encode())
                with open(os.path.join(p, f), 'rb') as fh:
                    h.update(fh.read())
                h.update(b'\0')
    for e in extra:
        h.update(e.encode())
    return h.hexdigest()[:16]


def _compile(cmds):
    def one(c):
        r = sh(c)
        return c, r.returncode, r.stdout.decode(errors='replace')
    with ThreadPoolExecutor(NPROC) as ex:
        for c, rc, out in ex.map(one, cmds):
            if rc:
                raise CheckError('compile failed: %s\n%s' % (' '.join(c), out))


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + '.flock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_lib(variant):
    """Compiles /repo's current library and utilities, cached by content."""
    flags = VARIANTS[variant]
    key = _tree_hash(flags)
    d = os.path.join(BUILD, 'lib-%s-%s' % (variant, key))
    with Lock('build'):
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(os.path.join(d, 'ok'))
            return d
        # at most a few trees are kept
        old = sorted((x for x in os.listdir(BUILD) if x.startswith('lib-')),
                     key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
        for x in old[:-5]:
            shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        wz = os.path.join(REPO, 'wizard')
        srcs = [f for f in sorted(os.listdir(wz)) if f.endswith('.c') and f != 'nt-base.c']
        cmds = [['gcc', *COMMON, *flags, '-c', os.path.join(wz, f), '-o', os.path.join(d, f[:-2] + '.o')]
                for f in srcs]
        ut = os.path.join(REPO, 'utilities')
        usrcs = [f for f in sorted(os.listdir(ut)) if f.endswith('.c')] if variant not in ('sched', 'access') else []
        cmds += [['gcc', *COMMON, *flags, '-c', os.path.join(ut, f), '-o', os.path.join(d, 'u_' + f[:-2] + '.o')]
                 for f in usrcs]
        _compile(cmds)
        lib = os.path.join(d, 'libwizard.a')
        r = sh(['ar', 'rcs', lib] + [os.path.join(d, f[:-2] + '.o') for f in srcs])
        if r.returncode:
            raise CheckError('ar failed: %s' % r.stdout)
        shared = [os.path.join(d, 'u_' + f[:-2] + '.o') for f in usrcs if f[:-2] not in PROGS]
        _compile([['gcc', *flags, '-pthread', os.path.join(d, 'u_%s.o' % p), *shared, lib, *LIBS,
                   '-o', os.path.join(d, p)] for p in PROGS if usrcs])
        open(os.path.join(d, 'ok'), 'w').close()
    return d


PROGS = ['encipher', 'decipher', 'cipher-info', 'keyring', 'digest']

# system calls harness/control.h stands in for
WRAP = ('open open64 close read write unlink remove rename link kill flock ftruncate fsync lseek nanosleep '
        'usleep sleep').split()


def utilities(lib):
    """Objects of the utilities, each main renamed, to link all of them into one driver."""
    objs = [f for f in sorted(os.listdir(lib)) if f.startswith('u_') and f.endswith('.o')]
    out = []
    for f in objs:
        o = os.path.join(lib, f)
        p = f[2:-2]
        if p in PROGS:
            o = os.path.join(lib, 'm_' + f[2:])
            if not os.path.exists(o):
                r = sh(['objcopy', '--redefine-sym', 'main=%s_main' % p.replace('-', '_'), os.path.join(lib, f), o])
                if r.returncode:
                    raise CheckError('objcopy failed: %s' % r.stdout)
        out.append(o)
    return out


def build_driver(name, variant='asan', extra=None):
    """Compiles /verif/harness/<name>.c against the current library."""
    lib = build_lib(variant)
    src = os.path.join(HARNESS, name + '.c')
    if extra is None:
        with open(src) as f:
            text = f.read()
        extra = ['-Wl,--wrap=' + w for w in WRAP] if '"control.h"' in text else []
        extra += ['-Wl,--wrap=' + w for m in re.findall(r'^// WRAP: (.*)$', text, re.M) for w in m.split()]
        if '"threads.h"' in text:
            extra += ['-Wl,--wrap=pthread_mutex_' + w for w in ('init', 'lock', 'unlock')]
        if '"utilities.h"' in text:
            extra += utilities(lib)
    h = hashlib.sha256()
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith('.h') or f == name + '.c':
            with open(os.path.join(HARNESS, f), 'rb') as fh:
                h.update(fh.read())
    h.update(' '.join(extra).encode())
    out = os.path.join(lib, 'drv-%s-%s' % (name, h.hexdigest()[:12]))
    with Lock('build'):
        if not os.path.exists(out):
            _compile([['gcc', *COMMON, *[f for f in VARIANTS[variant] if 'coverage' not in f and 'thread' not in f], '-I' + HARNESS, src,
                       *[x for x in extra if x.endswith('.o')], os.path.join(lib, 'libwizard.a'), *LIBS,
                       *[x for x in extra if not x.endswith('.o')], '-o', out + '.tmp']])
            os.rename(out + '.tmp', out)
    return out


# ---------------------------------------------------------------- TLC

class Enough(Exception):
    """What was found settles the verdict, and looking further would take long."""


class TLCResult:
    def __init__(self, out, rc):
        self.rc = rc
        self.lines = [l for l in out.splitlines()
                      if not l.startswith(('Parsing file', 'Semantic processing', 'Linting of', 'Computed '))]
        self.out = out = '\n'.join(self.lines)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m:
            self.generated = int(m[-1])
        self.ok = rc == 0

    def emitted(self, tag='@@'):
        res = []
        pre = '"' + tag
        for l in self.lines:
            if l.startswith(pre) and l.endswith('"'):
                res.append(json.loads(json.loads(l)[len(tag):]))
        return res


def tlc(module, cfg=None, env=None, args=(), workers=NPROC, timeout=800, scratch=None, heap='6g',
        cfg_text=None):
    """Runs TLC on /verif/spec/<module>.tla with <cfg>.cfg; returns TLCResult."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch or scratch_root())
    try:
        if cfg_text is not None:
            cfgp = os.path.join(meta, 'run.cfg')
            with open(cfgp, 'w') as f:
                f.write(cfg_text)
        else:
            cfgp = os.path.join(SPEC, (cfg or module) + '.cfg')
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + meta,
               '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
               '-noGenerateSpecTE', '-config', cfgp, *args, os.path.join(SPEC, module + '.tla')]
        try:
            r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise CheckError('TLC timed out on %s: %s' % (module, (x.stdout or b'')[-2000:]))
        return TLCResult(r.stdout.decode(errors='replace'), r.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def scratch_root():
    d = os.path.join(BUILD, 'run')
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------- drivers

def tok(v):
    """One argument of an operation, as a script token."""
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, list):
        return 'x' + ''.join('%02x' % b for b in v)
    if isinstance(v, str):
        return 'x' + v.encode('latin-1').hex()
    raise CheckError('cannot encode %r' % (v,))


def run_driver(exe, traces, env=None, timeout=600, cwd=None, jobs=NPROC, args=(), per_trace=20):
    """Runs every trace (a list of {op,a}) in its own child process of the
    driver; returns for each the list of results, ending in a crash record if
    the child did not survive."""
    if not traces:
        return []
    jobs = max(1, min(jobs, len(traces)))
    chunks = [list(range(k, len(traces), jobs)) for k in range(jobs)]
    out = [None] * len(traces)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:symbolize=0:log_path=/dev/null')
    e['DRV_ALARM'] = str(per_trace)

    def one(idx):
        # the reservoir of random bytes under HOME is locked while in use
        home = os.path.join(e.get('HOME', scratch_root()), '%d-%d' % (idx[0], os.getpid()))
        os.makedirs(home, exist_ok=True)
        script = []
        for n in idx:
            for o in traces[n]:
                script.append(' '.join([o['op']] + [tok(a) for a in o['a']]))
            script.append('.')
        try:
            r = subprocess.run([exe, *args], input=('\n'.join(script) + '\n').encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, env=dict(e, HOME=home), timeout=timeout, cwd=cwd)
        except subprocess.TimeoutExpired:
            raise CheckError('driver %s timed out' % exe)
        if r.returncode != 0:
            raise CheckError('driver %s exited with %d' % (exe, r.returncode))
        res, cur = [], []
        for line in r.stdout.split(b'\n'):
            if line.startswith(b'#END'):
                w = line.split()
                if w[1] == b'skip':
                    res.append(None)
                    cur = []
                    continue
                if w[1] != b'ok':
                    cur.append({'x': 1, 'how': line[5:].decode(errors='replace')})
                res.append(cur)
                cur = []
            elif line.startswith(b'>'):
                try:
                    cur.append(json.loads(line[1:]))
                except ValueError:
                    cur.append({'x': 1, 'how': 'garbled: %r' % line[:80]})
        if len(res) != len(idx):
            raise CheckError('driver %s answered %d of %d traces' % (exe, len(res), len(idx)))
        for n, rr in zip(idx, res):
            out[n] = rr
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, chunks))
    return out


def merge(ops, res):
    """Events: the operations with what the code answered."""
    ev = []
    for k, o in enumerate(ops):
        if k >= len(res):
            break
        r = res[k]
        if isinstance(r, dict) and r.get('x') == 1:
            ev.append({'op': o['op'], 'a': o['a'], 'x': 1, 'how': r.get('how', '')})
            break
        ev.append({'op': o['op'], 'a': o['a'], 'x': 0, 'r': r})
    else:
        if len(res) > len(ops):   # died while tearing down
            ev.append({'op': 'end', 'a': [], 'x': 1, 'how': res[-1].get('how', '') if isinstance(res[-1], dict) else ''})
    return ev


# ---------------------------------------------------------------- context

class Ctx:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.known = load_known(prop)
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=scratch_root())
        os.makedirs(os.path.join(self.dir, 'home'), exist_ok=True)
        self.config = os.path.join(self.dir, 'config')
        os.makedirs(self.config)
        for f in ('mime.xml', 'log.xml'):
            shutil.copy(os.path.join(REPO, 'config', f), self.config)
        self.env = {'HOME': os.path.join(self.dir, 'home'), 'WIZARD_CONFIGURE_PATH': self.config,
                    'TMPDIR': self.dir, 'WIZARD_TMPDIR': self.dir}
        for k in ('XDG_CONFIG_HOME', 'WIZARD_DEBUG'):
            os.environ.pop(k, None)
        self.replays = os.path.join(VERIF, 'replays', prop)
        shutil.rmtree(self.replays, ignore_errors=True)

    quick = property(lambda s: s.tier == 'quick')

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def some(self, xs, n):
        """All of xs in a thorough run, a seeded sample of n in a quick one."""
        if not self.quick or len(xs) <= n:
            return xs
        pick = sorted(random.Random(self.seed).sample(range(len(xs)), n))
        return [xs[k] for k in pick]

    @staticmethod
    def group(ops, n=40):
        """Independent cases, n to a behaviour."""
        return [ops[k:k + n] for k in range(0, len(ops), n)]

    def log(self, *a):
        print('[%s %.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def count(self, r):
        self.cov['states'] += r.distinct or r.generated
        self.cov['transitions'] += r.generated

    def sample(self, s, cap=4):
        if len(self.cov['samples']) < cap:
            self.cov['samples'].append(brief(s))

    # -- model checking of the specification itself
    def model(self, module, cfg=None, **kw):
        r = tlc(module, cfg, scratch=self.dir, **kw)
        self.count(r)
        if not r.ok:
            raise CheckError('model %s/%s failed:\n%s' % (module, cfg or module, r.out[-4000:]))
        self.log('model %s: %d states generated, %d distinct' % (cfg or module, r.generated, r.distinct))
        return r

    # -- behaviours generated from the specification
    def generate(self, module, cfg=None, num=None, depth=None, seed=None, tag='@@', label=None, **kw):
        args = []
        if num:
            args = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed if seed is None else seed)]
            kw.setdefault('workers', 1)
        r = tlc(module, cfg, scratch=self.dir, args=args, **kw)
        self.count(r)
        if not r.ok:
            raise CheckError('generation from %s/%s failed:\n%s' % (module, cfg or module, r.out[-4000:]))
        em = r.emitted(tag)
        if not em:
            raise CheckError('generation from %s/%s produced nothing' % (module, cfg or module))
        self.log('generated %d behaviours from %s' % (len(em), label or cfg or module))
        return em

    # -- validation of recorded traces
    def validate(self, module, traces, cfg=None, env=None, expect=True, quiet=False, **kw):
        """traces: list of {'id','cfg','ev'}; returns {id: (index, want)} of the rejected ones."""
        if not traces:
            return {}
        path = os.path.join(self.dir, 'traces-%d.ndjson' % time.monotonic_ns())
        with open(path, 'w') as f:
            for t in traces:
                f.write(json.dumps(t) + '\n')
        e = {'TRACES': path}
        e.update(env or {})
        r = tlc(module, cfg, env=e, scratch=self.dir, **kw)
        self.count(r)
        os.unlink(path)
        rej = {}
        for n, pos, want in r.emitted('@R'):
            rej.setdefault(n, (pos, want))
        if not r.ok:
            raise CheckError('validation with %s failed:\n%s' % (module, r.out[-6000:]))
        if expect:
            # every event of every accepted trace was consumed
            want = 0
            for t in traces:
                want += (rej[t['id']][0] + 1) if t['id'] in rej else len(t['ev']) + 1
            if r.distinct != want:
                raise CheckError('validation with %s: %d states, expected %d\n%s' %
                                 (module, r.distinct, want, r.out[-3000:]))
        if not quiet:
            self.cov['traces_validated_against_impl'] += len(traces) - len(rej)
        return rej

    # -- replay behaviours into the code and validate what it did
    def conform(self, module, driver, behaviours, cfg=None, tcfg=None, label='', sig=None, variant='asan',
                per_trace=5, batch=20000, **kw):
        """behaviours: list of operation lists. tcfg: per-trace configuration
        handed to the specification (same for all, or one per behaviour)."""
        exe = driver if os.path.sep in driver else build_driver(driver, variant)
        total_rej = 0
        for lo in range(0, len(behaviours), batch):
            part = behaviours[lo:lo + batch]
            cfgs = tcfg[lo:lo + batch] if isinstance(tcfg, list) else [tcfg] * len(part)

            def once(sel, patience=1):
                res = run_driver(exe, [part[k] for k in sel], env=self.env, cwd=self.dir,
                                 per_trace=per_trace * patience)
                tr = [{'id': k, 'cfg': cfgs[k] if cfgs[k] is not None else 0, 'ev': merge(part[k], rr)}
                      for k, rr in zip(sel, res) if rr is not None]
                return {t['id']: t for t in tr}
            first = once(list(range(len(part))))
            if lo == 0 and first:
                self.sample({'label': label or module, 'trace': first[min(1, len(first) - 1)]['ev'][:12]})
            rej = self.validate(module, list(first.values()), cfg, **kw)
            if rej:
                # two of the hung ones are enough, as each takes its time
                hung = [n for n in sorted(rej) if first[n]['ev'] and first[n]['ev'][-1].get('how') == 'signal 14']
                again = once(sorted(set(rej) - set(hung[2:])), 4)
                rej2 = self.validate(module, list(again.values()), cfg, quiet=True, **kw)
                for n in sorted(rej2):
                    t = again[n]
                    i, want = rej2[n]
                    ev = t['ev'][i - 1] if 0 < i <= len(t['ev']) else None
                    s = sig(t, i, want) if sig else '%s:%s' % (label or module, ev['op'] if ev else '?')
                    self.violate(s, {'spec': module, 'label': label, 'cfg': t['cfg'], 'event': i,
                                     'observed': ev, 'expected': want, 'trace': t['ev'][:i]})
                total_rej += len(rej2)
                if self.violations and (set(hung) & set(rej2) or time.time() - self.t0 > 240):
                    self.log('%s: %d behaviours, %d rejected' % (label or module, len(behaviours), total_rej))
                    raise Enough
        self.log('%s: %d behaviours, %d rejected' % (label or module, len(behaviours), total_rej))
        return total_rej

    def violate(self, sig, detail):
        for k in self.known:
            if k['key'] == sig:
                if sig not in self.known_hit:
                    self.known_hit.append(sig)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
                return
        n = len(self.violations)
        path = ''
        if n < 20:
            os.makedirs(self.replays, exist_ok=True)
            path = os.path.join(self.replays, '%s-%03d.json' % (self.prop, n))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'signature': sig, 'seed': self.seed, 'tier': self.tier,
                           'detail': detail}, f, indent=1, default=str)
        self.violations.append((sig, path))

    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        if self.known_hit:
            ev['known_findings'] = self.known_hit
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        shutil.rmtree(self.dir, ignore_errors=True)
        seen = set()
        for s, p in self.violations:
            if s in seen or not p:
                continue
            seen.add(s)
            print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)
            self.log('  signature: %s' % s)
        self.log('done: %d violations, %d states, %d traces, %.1fs' % (
            len(self.violations), self.cov['states'], self.cov['traces_validated_against_impl'],
            time.time() - self.t0))
        return 1 if self.violations else 0


def brief(x):
    """x with long lists and texts cut, for the evidence."""
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [brief(v) for v in x[:60]]
        return y + ['... %d more' % (len(x) - 60)] if len(x) > 60 else y
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + '... %d more' % (len(x) - 400)
    return x


def load_known(prop):
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
                if m and m.group(1) == prop:
                    res.append({'key': m.group(2), 'what': m.group(3)})
    return res
