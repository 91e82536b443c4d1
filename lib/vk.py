"""Plumbing around TLC and the harness: builds, scripts, logs, traces.  No judgement is made here:
what is right or wrong is decided by TLC on the specification in ../spec."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO = os.environ.get('IIR_REPO', '/repo')
TLA = '/opt/veriftools/tla'
JARS = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def run(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update(env)
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                              stdin=subprocess.DEVNULL, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise CheckError('timeout: ' + ' '.join(cmd)[:200])


# ---------------------------------------------------------------- harness
FAMS = {'BW': ('Butterworth', 0), 'C1': ('ChebyshevI', 1), 'C2': ('ChebyshevII', 1)}
KINDS = {'LP': ('LowPass', 1), 'HP': ('HighPass', 1), 'BP': ('BandPass', 2), 'BS': ('BandStop', 2),
         'LS': ('LowShelf', 2), 'HS': ('HighShelf', 2), 'BH': ('BandShelf', 3)}
STATES = {'D1': 'DirectFormI', 'D2': 'DirectFormII', 'T2': 'TransposedDirectFormII'}


def kinds_of(traces):
    """The pole filter types a script uses."""
    return {'%s.%s.%d.%s' % (q['fam'], q['kd'], q['n'], q['st']) for _, ops in traces for q in ops
            if q['e'] == 'N' and q['fam'] in FAMS}


def registration(kinds):
    """C++ source which registers the types, with the harness's obj.h."""
    lines = []
    for k in kinds:
        fam, kd, n, st = k.split('.')
        args = '' if n == '0' else n + ', Iir::' + STATES[st]
        lines.append('regPF<Iir::%s::%s<%s>, %d>("%s");' % (FAMS[fam][0], KINDS[kd][0], args, KINDS[kd][1] + FAMS[fam][1], k))
    return '#include "obj.h"\nnamespace { struct Init { Init() {\n' + '\n'.join(lines) + '\n} } init_; }\n'


def compile_all(jobs):
    with ThreadPoolExecutor(NCPU) as ex:
        for j, r in zip(jobs, ex.map(lambda c: run(c, 800), jobs)):
            if r.returncode:
                raise CheckError('does not compile: ' + ' '.join(j) + '\n' + r.stdout[-3000:])


class Build:
    """The library from REPO's working tree together with the harness."""
    def __init__(self, work, name, flags=(), cxx='g++', opt='-O0', link=(), libflags=(), optlib=None):
        self.out = os.path.join(work, name)
        os.makedirs(self.out, exist_ok=True)
        self.base = [cxx, '-std=c++20', opt, '-w', '-I' + REPO, '-I' + REPO + '/iir', '-I' + HARNESS] + list(flags)
        self.linker = [cxx] + list(flags) + list(link)
        self.lib = list(libflags) + ([optlib] if optlib else [])
        self.kinds, self.objs, self.exe = set(), [], None

    def common_jobs(self):
        jobs = [self.base + ['-c', HARNESS + '/' + src, '-o', self.out + '/h_' + src[:-4] + '.o'] for src in ['reg_misc.cpp', 'drv.cpp']]
        jobs += [self.base + self.lib + ['-c', REPO + '/iir/' + src, '-o', self.out + '/lib_' + src[:-4] + '.o']
                 for src in sorted(os.listdir(REPO + '/iir')) if src.endswith('.cpp')]
        return jobs

    def need(self, kinds):
        """An executable which knows these types."""
        new = sorted(set(kinds) - self.kinds)
        jobs = [] if self.objs else self.common_jobs()
        chunks = max(1, min(NCPU, (len(new) + 3) // 4))
        for c in range(chunks if new else 0):
            src = '%s/pf_%d_%d.cpp' % (self.out, len(self.kinds), c)
            with open(src, 'w') as f:
                f.write(registration(new[c::chunks]))
            jobs.append(self.base + ['-c', src, '-o', src[:-4] + '.o'])
        if jobs:
            compile_all(jobs)
            self.objs += [j[-1] for j in jobs]
            self.kinds |= set(new)
            self.exe = self.out + '/drv'
            r = run(self.linker + self.objs + ['-o', self.exe, '-lpthread'])
            if r.returncode:
                raise CheckError('does not link: ' + r.stdout[-3000:])
        return self.exe


# ---------------------------------------------------------------- TLC
def classes(work):
    d = os.path.join(work, 'classes')
    if not os.path.exists(d + '/R64.class'):
        os.makedirs(d, exist_ok=True)
        r = run(['javac', '-cp', JARS, '-d', d, SPEC + '/java/R64.java'])
        if r.returncode:
            raise CheckError('javac: ' + r.stdout)
    return d


def tlc(work, module, constants=None, cfg_lines=(), workers=None, timeout=800, args=(), heap='6g'):
    """Runs TLC on SPEC/module.tla.  Returns (exit code, output, generated, distinct)."""
    cls = classes(work)
    d = tempfile.mkdtemp(prefix='tlc_' + module + '_', dir=work)
    cfg = d + '/m.cfg'
    with open(cfg, 'w') as f:
        f.write('\n'.join(cfg_lines) + '\n')
        if constants:
            f.write('CONSTANTS\n' + '\n'.join(('%s %s' if str(v).startswith('<-') else '%s = %s') % (k, v) for k, v in constants.items()) + '\n')
    cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-cp', JARS + ':' + cls + ':' + SPEC, '-DTLA-Library=' + SPEC, 'tlc2.TLC',
           '-workers', str(workers or NCPU), '-metadir', d + '/md', '-noGenerateSpecTE', '-config', cfg] + list(args) + [SPEC + '/' + module + '.tla']
    r = run(cmd, timeout, cwd=d)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    shutil.rmtree(d + '/md', ignore_errors=True)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, r.stdout, gen, dis


def tla_set(labels):
    return '{' + ', '.join('"%s"' % x for x in sorted(labels)) + '}'


def generate(work, profile, size, seed, tag=None):
    """Scripts from spec/Gen.tla: list of (trace name, list of op records)."""
    out = os.path.join(work, 'gen_%s.ndjson' % (tag or profile))
    rc, o, _, _ = tlc(work, 'Gen', {'Profile': '"%s"' % profile, 'Size': size, 'Seed': seed, 'OutFile': '"%s"' % out},
                      ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE'], workers=1)
    if rc or not os.path.exists(out):
        raise CheckError('generator failed: ' + o[-3000:])
    with open(out) as f:
        return [(t['t'], t['ops']) for t in map(json.loads, f)]


# ---------------------------------------------------------------- scripts and logs
def hexnum(p):
    return '%08x%08x' % (p[0] & 0xffffffff, p[1] & 0xffffffff)


def tonum(p):
    return struct.unpack('>d', struct.pack('>II', p[0] & 0xffffffff, p[1] & 0xffffffff))[0]


def bits(x):
    hi, lo = struct.unpack('>ii', struct.pack('>d', x))
    return [hi, lo]


def op_line(q):
    e, o = q['e'], q['o']
    nums = lambda v: ' '.join(hexnum(p) for p in v)
    if e == 'N':
        return 'N %d %s.%s.%d.%s %s' % (o, q['fam'], q['kd'], q['n'], q['st'], nums(q['a']))
    if e == 'S':
        return 'S %d %s %d %s' % (o, q['ov'], q['ord'], nums(q['a']))
    if e == 'F':
        return 'F %d %s %s' % (o, q['ty'], nums(q['x']))
    if e in ('C', 'M', 'A'):
        return '%s %d %d' % (e, o, q['src'])
    if e == 'H':
        return 'H %d %s' % (o, nums(q['f']))
    if e == 'h':
        return 'h %d %d %s' % (o, q['st'], nums(q['f']))
    if e == 'f':
        return 'f %d %d' % (o, q['st'])
    if e in ('I', 'LG'):
        return '%s %d %s' % (e, o, ' '.join(map(str, q['ix'])))
    if e == 'T':
        return 'T %d %s' % (o, nums(q['x']))
    if e in ('B', 'LA'):
        return '%s %d %s %s' % (e, o, q['w'], nums(q['a']))
    if e == 'LN':
        return 'LN %d %s %d' % (o, q['k'], q['cap'])
    if e == 'LD':
        return 'LD %d %d %s' % (o, q['ord'], nums(q['a']))
    if e == 'LT':
        return 'LT %d %d %s %s' % (o, q['src'], q['w'], nums(q['a']))
    return '%s %d' % (e, o)


def write_script(path, traces):
    with open(path, 'w') as f:
        for name, ops in traces:
            f.write('@%s\n' % name)
            for q in ops:
                f.write(op_line(q) + '\n')


def drive(exe, work, tag, traces, args=(), env=None, timeout=600):
    """Runs the script; returns the log as list of (name, events)."""
    script, log = '%s/%s.script' % (work, tag), '%s/%s.log' % (work, tag)
    write_script(script, traces)
    try:
        r = run([exe] + list(args) + [script, log], timeout, env=env)
    except CheckError as e:       # the library does not come back
        r = subprocess.CompletedProcess([], 99, str(e))
        res = read_log(log) or [(traces[0][0], [])]
        if not args:
            res[-1][1].append({'e': 'crash', 'o': 0, 'sig': -1})
        return res, r
    if r.returncode in (2, 97, 98):
        raise CheckError('harness: exit %d %s' % (r.returncode, r.stdout[-1000:]))
    return read_log(log), r


def read_log(path):
    res = []
    with open(path, errors='replace') as f:
        for line in f:
            try:
                e = json.loads(line)
            except ValueError:      # cut off by a crash
                continue
            if e['e'] == '@':
                res.append((e['t'], []))
            else:
                res[-1][1].append(e)
    return res


def validate(work, tag, log, focus, spec='TraceIir', timeout=800):
    """TLC checks the recorded traces against the specification.
    Returns (mismatches [(trace index, event index, labels)], states, transitions)."""
    path = '%s/%s.ndjson' % (work, tag)
    with open(path, 'w') as f:
        for name, ev in log:
            f.write(json.dumps({'t': name, 'ev': ev}) + '\n')
    rc, out, gen, dis = tlc(work, spec, {'TraceFile': '"%s"' % path, 'Focus': tla_set(focus)},
                            ['SPECIFICATION TraceSpec', 'VIEW View', 'POSTCONDITION AllConsumed', 'CHECK_DEADLOCK FALSE'], timeout=timeout)
    if rc in (75, 76, 77, 255):
        return unreadable(work, tag, log, focus, spec, timeout)
    total = sum(len(ev) + 1 for _, ev in log)
    if rc or dis != total:
        raise CheckError('TLC failed on the traces (exit %d, %d of %d states): %s' % (rc, dis, total, out[-3000:]))
    bad = []
    for m in re.finditer(r'<<"MISMATCH", (\d+), (\d+), \{([^}]*)\}>>', re.sub(r'\s+', ' ', out)):
        bad.append((int(m.group(1)) - 1, int(m.group(2)) - 1, sorted(x.strip().strip('"') for x in m.group(3).split(','))))
    if len(bad) != out.count('"MISMATCH"'):
        raise CheckError('unreadable verdict: ' + out[-2000:])
    return sorted(bad), dis, gen - len(log)


def unreadable(work, tag, log, focus, spec, timeout):
    """The specification has no meaning for some trace (a list of the wrong length, say): finds it."""
    if len(log) == 1:
        return [(0, max(0, len(log[0][1]) - 1), ['shape'])], 0, 0
    h = len(log) // 2
    bad, dis, trn = validate(work, tag, log[:h], focus, spec, timeout)
    if len(bad) < 3:
        more, d2, t2 = validate(work, tag, log[h:], focus, spec, timeout)
        bad, dis, trn = bad + [(k + h, l, x) for k, l, x in more], dis + d2, trn + t2
    return bad, dis, trn


def readable(e):
    """An event with its numbers in decimal."""
    def conv(v):
        if isinstance(v, list):
            if len(v) == 2 and all(isinstance(x, int) for x in v):
                return tonum(v)
            return [conv(x) for x in v[:12]]
        if isinstance(v, dict):
            return {k: (x if k in ('ix', 'q') and x and isinstance(x[0], int) else conv(x)) for k, x in v.items()}
        return v
    return conv(e)
