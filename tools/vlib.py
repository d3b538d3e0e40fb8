"""Shared machinery: building drivers from /repo's working tree, running TLC, running
drivers with crash recovery, evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = VERIF + '/spec'
HARN = VERIF + '/harness'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = os.cpu_count() or 4
BUILD = VERIF + '/.build'
CXX = 'g++'


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def workdir(name):
    d = f'{BUILD}/{name}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def write_config(d, funcs=('fallocate', 'mmap64')):
    os.makedirs(d + '/inc/checkpoint', exist_ok=True)
    with open(d + '/inc/checkpoint/cmake_config.h', 'w') as f:
        f.write('#pragma once\n' + ''.join(f'#define checkpoint_has_{x}\n' for x in funcs))
    return d + '/inc'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


_EC = {'ec': ['-DSERIALIZATION_ERROR_CHECKING'], 'rel': []}


def lib_sources():
    out = []
    for r, _, fs in os.walk(REPO + '/src'):
        out += [os.path.join(r, f) for f in fs if f.endswith(('.cc', '.cpp'))]
    return sorted(out)


class Build:
    """Compiles translation units in parallel; configurations: ec / rel."""

    def __init__(self, d, flags=(), funcs=('fallocate', 'mmap64'), pch=None):
        self.d = d
        self.inc = write_config(d, funcs)
        self.flags = ['-std=c++17', '-O0', '-w', '-pipe', '-I' + REPO + '/src', '-I' + self.inc, '-I' + HARN, '-I' + d] + list(flags)
        self.pch = pch
        self.jobs = []

    def obj(self, src, cfg, extra=(), lib=False):
        o = f'{self.d}/{cfg}_{os.path.basename(src)}.o'
        cmd = [CXX] + self.flags + _EC[cfg] + list(extra)
        if self.pch and not lib:
            cmd += ['-include', f'{self.d}/pch_{cfg}/{self.pch}']
        cmd += ['-c', src, '-o', o]
        self.jobs.append((cmd, o))
        return o

    def lib(self, cfg, extra=()):
        return [self.obj(s, cfg, extra, lib=True) for s in lib_sources()]

    def _run(self, cmd):
        r = sh(cmd)
        return r.returncode, r.stdout

    def compile_pch(self, cfgs):
        if not self.pch:
            return
        cmds = []
        for c in cfgs:
            os.makedirs(f'{self.d}/pch_{c}', exist_ok=True)
            with open(f'{self.d}/pch_{c}/{self.pch}', 'w') as f:
                f.write(f'#include "{HARN}/{self.pch}"\n')
            cmds.append([CXX] + self.flags + _EC[c] + ['-x', 'c++-header', f'{self.d}/pch_{c}/{self.pch}', '-o', f'{self.d}/pch_{c}/{self.pch}.gch'])
        with ThreadPoolExecutor(len(cmds)) as ex:
            for rc, out in ex.map(self._run, cmds):
                if rc:
                    raise HarnessError('precompiled header failed:\n' + out[-4000:])

    def run(self, fatal=True):
        """Compile all pending units. Returns the list of (obj, output) that failed."""
        jobs, self.jobs = self.jobs, []
        bad = []
        with ThreadPoolExecutor(JOBS) as ex:
            for (cmd, o), (rc, out) in zip(jobs, ex.map(lambda j: self._run(j[0]), jobs)):
                if rc:
                    bad.append((o, out))
        if bad and fatal:
            raise HarnessError('compilation failed: ' + bad[0][0] + '\n' + bad[0][1][-6000:])
        return bad

    def link(self, name, objs, extra=()):
        exe = f'{self.d}/{name}'
        r = sh([CXX] + list(objs) + ['-o', exe, '-pthread'] + list(extra))
        if r.returncode:
            raise HarnessError('link failed:\n' + r.stdout[-4000:])
        return exe


# ----------------------------------------------------------------- TLC
JAVA = ['java', '-XX:+UseParallelGC', '-Xss512m']
CP = ':'.join(['/opt/veriftools/tla/tla2tools.jar'])


def tlc_cmd():
    return ['tlc']


class TlcResult:
    pass


def tlc(spec, cfg, d, workers=None, extra=(), timeout=600, env=None, heap='6g', files=None):
    """Run TLC on spec (module name) with config text cfg in directory d (a copy of the
    spec directory is used so that TLC writes nothing into /verif/spec)."""
    sd = f'{d}/tlc_{spec}_{hashlib.md5((cfg + str(extra)).encode()).hexdigest()[:8]}'
    if os.path.exists(sd):
        shutil.rmtree(sd)
    os.makedirs(sd)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(f'{SPEC}/{f}', sd)
    for k, v in (files or {}).items():
        open(f'{sd}/{k}', 'w').write(v)
    with open(f'{sd}/{spec}.cfg', 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = f'-Xmx{heap} -Xss256m -XX:+UseParallelGC'
    e.update(env or {})
    cmd = ['tlc', '-cleanup', '-noGenerateSpecTE', '-metadir', f'{sd}/states', '-workers', str(workers or JOBS), '-config', f'{spec}.cfg'] + list(extra) + [f'{spec}.tla']
    t0 = time.time()
    try:
        r = sh(cmd, cwd=sd, env=e, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'
    res = TlcResult()
    res.out, res.rc, res.wall, res.dir = out, rc, time.time() - t0, sd
    m = None
    for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', out):
        pass
    res.generated = int(m.group(1).replace(',', '')) if m else 0
    res.distinct = int(m.group(2).replace(',', '')) if m else 0
    res.ok = rc == 0 and 'No error has been found' in out or (rc == 0 and '-simulate' in extra)
    res.violated = bool(re.search(r'Invariant .* is violated|Action property .* is violated|Temporal properties were violated|PostCondition .* is violated|POSTCONDITION|Postcondition .* (is )?(violated|false)', out))
    shutil.rmtree(f'{sd}/states', ignore_errors=True)
    return res


# ----------------------------------------------------------------- drivers
def run_driver(exe, script, trace, scratch, timeout=300, env=None, args=()):
    """Run a script driver. A crash or hang becomes a 'crash' event for the running case,
    and the driver is restarted after that case. Gives up after a number of crashes; returns
    the last case that was run then, otherwise None."""
    open(trace, 'w').close()
    first, crashes, t0 = 0, 0, time.time()
    os.makedirs(scratch, exist_ok=True)
    while True:
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run([exe, script, trace, scratch, str(first)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
            rc, out, err = r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as x:
            rc, out, err = 'hang', (x.stdout or b'').decode(errors='replace'), ''
        if rc == 0 and 'DONE' in out:
            return None
        if rc == 97 or 'BEGIN' not in out:
            raise HarnessError(f'driver failed rc={rc}: {err[-2000:]} {out[-500:]}')
        cur = int(re.findall(r'BEGIN (\d+)', out)[-1])
        crashes += 1
        # drop a partial last line
        data = open(trace, 'rb').read()
        if data and not data.endswith(b'\n'):
            data = data[:data.rfind(b'\n') + 1]
            open(trace, 'wb').write(data)
        what = 'hang' if rc in ('hang', -14, -27) else f'crash rc={rc}'
        msg = ' '.join(err.split())[-150:].replace('"', "'").replace('\\', '/')
        with open(trace, 'a') as f:
            f.write(json.dumps({"c": cur, "q": 0, "op": "crash", "a": 0, "b": 0, "out": what, "n1": 0, "n2": 0, "n3": 0, "d": "", "val": {"t": "", "n": 0, "v": "", "k": []}, "what": msg}) + '\n')
        first = cur + 1
        if crashes > 10 or (what == 'hang' and crashes > 3) or time.time() - t0 > 150:
            return cur


# ----------------------------------------------------------------- result reporting
class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.violations = []
        self.d = workdir(prop)

    def model(self, res, what):
        self.states += res.distinct
        self.transitions += res.generated
        self.extra.setdefault('models', []).append({'model': what, 'distinct_states': res.distinct, 'transitions': res.generated, 'wall_s': round(res.wall, 1)})
        log(f'[{self.prop}] model {what}: {res.distinct} distinct states, {res.generated} generated, {res.wall:.1f}s')

    def violation(self, replay_obj):
        p = f'{VERIF}/.build/replay_{self.prop}_{len(self.violations)}.json'
        json.dump(replay_obj, open(p, 'w'), indent=1)
        self.violations.append(p)

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces, 'samples': self.samples[:5]}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{self.prop}.json', 'w'), indent=1)
        for v in self.violations[:1]:
            log(f'VIOLATION property={self.prop} replay={v}')
        log(f'[{self.prop}] {"VIOLATED" if self.violations else "held"}; {self.traces} traces, {time.time()-self.t0:.1f}s')
        if not self.violations and not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.d, ignore_errors=True)
        sys.exit(1 if self.violations else 0)
