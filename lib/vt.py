"""Machinery shared by the checks: building the code under test, running the
driver, running TLC on scenarios (Gen.tla) and on recorded traces (Conf.tla).

Nothing here decides what is right: every verdict is a MISMATCH line printed by
TLC for a step of the specification that the real code did not take, or the
absence of an answer (crash, sanitizer report, hang)."""
import concurrent.futures as cf
import csv
import hashlib
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
JOBS = min(8, os.cpu_count() or 4)
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:hard_rss_limit_mb=3000:max_allocation_size_mb=2000',
           UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1:exitcode=99')


class Infra(Exception):
    """The machinery itself could not run."""


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------
def _sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def _digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources():
    s = os.path.join(REPO, 'src')
    return sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith('.cc'))


def _tree():
    out = []
    for d in ('src', 'include', 'tools'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files]
    drv = os.path.join(VERIF, 'driver')
    out += [os.path.join(drv, f) for f in os.listdir(drv)]
    return out


VARIANTS = {
    # name: (compiler, definitions, flags)
    'default': ('g++', ['FDUMP_DEFINE', 'RTP_DEFINE', 'FPRINT_ERRORS'], ['-O1', '-g1'] + SAN),
    'small': ('g++', ['SMALL_FOOTPRINT'], ['-O1', '-g1'] + SAN),
    'tsan': ('g++', ['FDUMP_DEFINE', 'RTP_DEFINE', 'FPRINT_ERRORS'], ['-O1', '-g1', '-fsanitize=thread']),
    'quiet': ('g++', ['FDUMP_DEFINE', 'RTP_DEFINE'], ['-O2', '-g1']),
    'plain': ('g++', ['FDUMP_DEFINE', 'RTP_DEFINE', 'FPRINT_ERRORS'], ['-O2']),
}


def build(variant='default', what=('drv',)):
    """Compile /repo's working tree with the driver (drv) and/or the tool (cli);
    returns the directory."""
    cc, defs, flags = VARIANTS[variant]
    out = os.path.join(BUILD, '%s-%s' % (variant, _digest(_tree(), VARIANTS[variant])))
    os.makedirs(out, exist_ok=True)
    base = [cc, '-std=c++14'] + ['-D' + d for d in defs] + flags + ['-w', '-I' + os.path.join(REPO, 'include'), '-I' + out]
    cfg = open(os.path.join(REPO, 'src', 'config.h.in')).read()
    cfg = re.sub(r'@[A-Za-z_]+@', '0', cfg)
    cfg = re.sub(r'^#cmakedefine.*$', '', cfg, flags=re.M)
    cfg_path = os.path.join(out, 'config.h')
    if not os.path.exists(cfg_path) or open(cfg_path).read() != cfg:
        with open(cfg_path, 'w') as f:
            f.write(cfg)
    jobs = []
    lib = []
    rtp = variant != 'small'
    for s in sources():
        if not rtp and '_rtp_' in os.path.basename(s):
            continue
        o = os.path.join(out, os.path.basename(s)[:-3] + '.o')
        lib.append(o)
        jobs.append((s, o))
    main = {'drv': os.path.join(VERIF, 'driver', 'driver.cc'), 'cli': os.path.join(REPO, 'tools', 'h264nal.cc')}
    for w in what:
        jobs.append((main[w], os.path.join(out, 'main_%s.o' % w)))

    def one(j):
        if os.path.exists(j[1]):
            return None
        tmp = j[1] + '.%d.tmp' % os.getpid()
        rc, txt = _sh(base + ['-c', j[0], '-o', tmp])
        if rc != 0:
            return '%s\n%s' % (j[0], txt)
        os.rename(tmp, j[1])
        return None

    # the biggest first
    jobs.sort(key=lambda j: 0 if 'main_' in j[1] else 1)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        bad = [e for e in ex.map(one, jobs) if e]
    if bad:
        raise Infra('compilation failed:\n' + bad[0])
    for w in what:
        exe = os.path.join(out, w)
        if not os.path.exists(exe):
            tmp = exe + '.%d.tmp' % os.getpid()
            rc, txt = _sh(base + [os.path.join(out, 'main_%s.o' % w)] + lib + ['-o', tmp, '-lpthread'])
            if rc != 0:
                raise Infra('link failed:\n' + txt)
            os.rename(tmp, exe)
    return out


def program(variant):
    """"default", or "default:cli" for the command line tool"""
    v, _, what = variant.partition(':')
    what = what or 'drv'
    return os.path.join(build(v, ('cli' if what == 'tools' else what,)), what)


def starts(exe):
    """does this driver run at all here"""
    r = subprocess.run([exe], input=b'S\nabs\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    return r.returncode == 0 and r.stdout.count(b'\n') == 2


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='h264verif-')
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


_n = [0]
_nlock = threading.Lock()


def fresh(suffix=''):
    with _nlock:
        _n[0] += 1
        return os.path.join(scratch(), '%06d%s' % (_n[0], suffix))


def tlc(module, env=None, cfg=None, workers=1, timeout=700, args=(), heap='2500m', c1=True):
    md = fresh('.md')
    cmd = ['java', '-Xss128m', '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC']
    if c1:
        cmd.append('-XX:TieredStopAtLevel=1')
    cmd += ['-Djava.io.tmpdir=' + scratch(), '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', md,
            '-config', os.path.join(SPEC, (cfg or module) + '.cfg')] + list(args) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(ENV, **(env or {})), cwd=scratch())
    except subprocess.TimeoutExpired:
        shutil.rmtree(md, ignore_errors=True)
        return None, 'timeout'
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def states_of(txt):
    m = re.findall(r'^(\d+) states generated, (\d+) distinct', txt, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Stats:
    def __init__(self):
        self.lock = threading.Lock()
        self.states = 0        # distinct specification states visited
        self.transitions = 0   # specification steps taken
        self.events = 0        # implementation events compared
        self.sessions = 0
        self.by_op = {}
        self.samples = []
        self.models = []
        self.bytes = 0

    def add(self, gen, distinct):
        with self.lock:
            self.transitions += gen
            self.states += distinct


STATS = Stats()


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------
def generate(scenarios):
    """scenarios: list of lists of items -> list of {nals: [bytes], ok, kind}"""
    if not scenarios:
        return []
    k = max(1, min(JOBS, (len(scenarios) + 7) // 8))
    parts = [list(range(i, len(scenarios), k)) for i in range(k)]

    def run(idx):
        gin, gout = fresh('.in'), fresh('.out')
        with open(gin, 'w') as f:
            for i in idx:
                f.write(json.dumps({'items': scenarios[i]}) + '\n')
        for attempt in (1, 2):
            rc, txt = tlc('Gen', {'GEN_IN': gin, 'GEN_OUT': gout})
            if rc == 0 and 'GENERATED' in txt:
                break
        else:
            raise Infra('generation failed: ' + txt[-2000:])
        if 'GENFAIL' in txt:
            raise Infra('specification is not its own inverse: ' + re.findall(r'GENFAIL.*', txt)[0][:500])
        STATS.add(*states_of(txt))
        res = [json.loads(x) for x in open(gout)]
        os.remove(gin)
        os.remove(gout)
        return list(zip(idx, res))

    out = [None] * len(scenarios)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for part in ex.map(run, parts):
            for i, r in part:
                r['nals'] = [bytes(n) for n in r['nals']]
                out[i] = r
    return out


# --------------------------------------------------------------------------
# the driver
# --------------------------------------------------------------------------
class Crash:
    def __init__(self, session, index, what, detail):
        self.session, self.index, self.what, self.detail = session, index, what, detail


def run_driver(exe, sessions, limit=60):
    """Run sessions (lists of command lines) through the driver.  Returns
    (lines, where, crashes): the event lines and for each (session, index)."""
    lines, where, crashes = [], [], []
    todo = list(range(len(sessions)))
    pos = 0
    while pos < len(todo):
        batch = todo[pos:]
        cmds = [(s, i) for s in batch for i in range(len(sessions[s]))]
        errf = fresh('.err')
        with open(errf, 'wb') as ef:
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=ef, env=ENV)

            def feed():
                try:
                    for s, i in cmds:
                        p.stdin.write(sessions[s][i].encode() + b'\n')
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass

            th = threading.Thread(target=feed, daemon=True)
            th.start()
            got = 0
            timer = [time.time(), False]
            stop = threading.Event()

            def watch():
                while not stop.wait(1.0):
                    if time.time() - timer[0] > limit:
                        timer[1] = True
                        p.kill()
                        return

            wt = threading.Thread(target=watch, daemon=True)
            wt.start()
            broken = None
            for raw in p.stdout:
                timer[0] = time.time()
                if not raw.endswith(b'\n'):
                    break
                lines.append(raw)
                where.append(cmds[got])
                got += 1
            stop.set()
            rc = p.wait()
            th.join(5)
        if got == len(cmds) and rc == 0:
            os.remove(errf)
            break
        with open(errf, 'rb') as ef:
            ef.seek(0, 2)
            size = ef.tell()
            ef.seek(max(0, size - 6000))
            err = ef.read().decode('utf8', 'replace')
        os.remove(errf)
        if rc == 3 and 'unknown op' in err:
            raise Infra(err)
        if got >= len(cmds):
            got = len(cmds) - 1
        s, i = cmds[got]
        what = 'hang' if timer[1] else 'crash'
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*)', err)
        crashes.append(Crash(s, i, what, 'exit %s: %s' % (rc, m.group(1) if m else err[-300:].strip())))
        # drop the partial session from the trace and go on with the next one
        while where and where[-1][0] == s:
            where.pop()
            lines.pop()
        pos = todo.index(s) + 1
        if len(crashes) >= 20 or sum(c.what == 'hang' for c in crashes) >= 2:
            break
    return lines, where, crashes


def run_cli(exe, sessions, limit=60):
    """Commands "cli {json}" on the command line tool; same result as
    run_driver.  {args: [[option, value]], d: hex, in: file|stdin|missing|none,
    to: stdout|dash|file|bad}"""
    lines, where, crashes = [], [], []
    d = fresh('.cli')
    os.makedirs(d)
    for s, cmds in enumerate(sessions):
        for i, cmd in enumerate(cmds):
            if sum(c.what == 'hang' for c in crashes) >= 2:
                break
            k = json.loads(cmd.split(' ', 1)[1])
            data = bytes.fromhex(k['d'])
            argv = [exe]
            infile, outfile = os.path.join(d, 'in'), os.path.join(d, 'out')
            if k.get('dashed'):
                infile, outfile = os.path.join(d, '-in'), os.path.join(d, '-out')
            big = data
            with open(infile, 'wb') as f:
                if 'gap' in k:
                    # so many zeros more; the length field at pos counts them
                    at, count, pos, n = k['gap']
                    big = bytearray(data[:at])
                    if n:
                        big[pos:pos + n] = (int.from_bytes(big[pos:pos + n], 'big') + count).to_bytes(n, 'big')
                    f.write(big)
                    f.seek(count, 1)
                    f.write(data[at:])
                    if k['in'] == 'stdin':
                        big = bytes(big) + bytes(count) + data[at:]
                else:
                    f.write(data)
            if os.path.exists(outfile):
                os.remove(outfile)
            name = os.path.basename if k.get('dashed') else str
            ends = {'file': ['-i', name(infile)], 'stdin': ['-i', '-'], 'missing': ['-i', os.path.join(d, 'nosuch')], 'none': []}[k['in']]
            ends += {'stdout': [], 'dash': ['-o', '-'], 'file': ['-o', name(outfile)], 'bad': ['-o', os.path.join(d, 'no', 'such')]}[k['to']]
            opts = []
            for o, val in k['args']:
                opts += [o] if val == '' else ([o, val] if k.get('sep') else ['%s=%s' % (o, val)])
            # the position of the file among the options does not matter
            argv += (ends + opts) if k.get('first') else (opts + ends)
            try:
                p = subprocess.run(argv, input=big if k['in'] == 'stdin' else b'', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=limit, env=ENV, cwd=d)
            except subprocess.TimeoutExpired:
                crashes.append(Crash(s, i, 'hang', 'no answer in %d s' % limit))
                continue
            err = p.stderr.decode('latin1')
            if p.returncode < 0 or p.returncode == 99 or 'runtime error:' in err:
                m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*)', err)
                crashes.append(Crash(s, i, 'crash', 'exit %s: %s' % (p.returncode, m.group(1) if m else err[-300:])))
                continue
            out = p.stdout
            if sum(o in ('-d', '--debug') for o, _ in k['args']) > 1:
                # the options, shown for debugging
                out = re.sub(rb'\A(h264nal: \w+[^\n]* version\n|options\.\w+ = [^\n]*\n)*', b'', out)
            if k['to'] == 'file':
                if out:
                    out += b'(on stdout, not in the file)'
                elif os.path.exists(outfile):
                    out = open(outfile, 'rb').read()
                elif p.returncode <= 2:
                    out = b'(no file)'
            if os.path.basename(os.path.dirname(exe)).startswith('small-'):
                out = b''       # no rendering in this build
            e = {'op': 'cli', 'text': int(not os.path.basename(os.path.dirname(exe)).startswith('small-')), 'args': [{'o': o, 'v': val} for o, val in k['args']], 'd': list(data), 'in': k['in'], 'to': k['to'],
                 'rc': p.returncode, 'out': out.decode('latin1').split('\n')}
            if 'gap' in k:
                e['gap'] = k['gap'][:2]
            if p.returncode in (1, 2):
                m = re.search(r'(\d+) NAL unit\(s\) left unparsed', err)
                if m:
                    e['left'] = int(m.group(1))
                m = re.search(r'uses (\d+) unimplemented', err)
                if m:
                    e['un'] = int(m.group(1))
            lines.append(json.dumps(e).encode() + b'\n')
            where.append((s, i))
    shutil.rmtree(d, ignore_errors=True)
    return lines, where, crashes


class Mismatch:
    def __init__(self, session, index, aspect, impl, spec):
        self.session, self.index, self.aspect, self.impl, self.spec = session, index, aspect, impl, spec

    def __repr__(self):
        return '%s impl=%s spec=%s' % (self.aspect, self.impl, self.spec)


def parse_mismatches(txt):
    out = []
    for m in re.finditer(r'^"MISMATCH (.*)"$', txt, re.M):
        try:
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
        except ValueError:
            out.append({'line': 0, 'aspect': 'unreadable', 'impl': m.group(1), 'spec': ''})
    return out


def check_trace(lines, module='Conf', timeout=800, heap='2500m'):
    """-> list of {line, aspect, impl, spec}"""
    if not lines:
        return []
    path = fresh('.ndjson')
    with open(path, 'wb') as f:
        f.writelines(lines)
    for attempt in (1, 2):
        rc, txt = tlc(module, {'TRACE': path}, timeout=timeout, heap=heap)
        if rc == 0 and ('CONSUMED %d' % len(lines)) in txt:
            break
    else:
        gen, distinct = states_of(txt)
        mm = parse_mismatches(txt)
        if rc is None:
            raise Infra('TLC timed out on a trace of %d events' % len(lines))
        if 'OutOfMemory' in txt or 'Parsing or semantic analysis failed' in txt:
            raise Infra('TLC: ' + txt[-1500:])
        # the specification has no step for the event after the last state
        m = re.search(r'Error: (.*(?:\n.*){0,12})', txt)
        mm.append({'line': min(max(1, distinct), len(lines)), 'aspect': 'unmatched',
                   'impl': (m.group(1) if m else txt[-600:])[:900], 'spec': 'no step'})
        os.remove(path)
        return mm
    os.remove(path)
    STATS.add(*states_of(txt))
    return parse_mismatches(txt)


def run_tools(exe, sessions, limit=60):
    """Commands "split|sum|dpb {json}" on the scripts, with the command line
    tool of the same build."""
    lines, where, crashes = [], [], []
    exe = os.path.join(os.path.dirname(exe), 'cli')
    env = dict(ENV, PYTHONDONTWRITEBYTECODE='1')

    def script(name, args, d):
        return subprocess.run([sys.executable, os.path.join(REPO, 'tools', name)] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              timeout=limit, env=env, cwd=d)

    for s, cmds in enumerate(sessions):
        for i, cmd in enumerate(cmds):
            if sum(c.what == 'hang' for c in crashes) >= 2:
                break
            what, rest = cmd.split(' ', 1)
            k = json.loads(rest)
            d = fresh('.tool')
            os.makedirs(d)
            try:
                if what == 'split':
                    data = bytes.fromhex(k['d'])
                    base = os.path.join(d, k['base'])
                    src = base + k['ext']
                    if k['in'] != 'missing':
                        with open(src, 'wb') as f:
                            f.write(data)
                    p = script('h264nal-split.py', ['-i', src, '--h264nal-path', exe] + k.get('more', []), d)
                    files = []
                    for name in sorted(os.listdir(d), key=lambda x: (len(x), x)):
                        if name != os.path.basename(src):
                            files.append({'name': name, 'd': list(open(os.path.join(d, name), 'rb').read())})
                    if k['in'] != 'missing' and open(src, 'rb').read() != data:
                        files.append({'name': '(the input was changed)', 'd': []})
                    e = {'op': 'split', 'd': list(data), 'in': k['in'], 'base': k['base'], 'ext': k['ext'], 'rc': p.returncode, 'files': files}
                elif what == 'sum':
                    names, files = [], []
                    for j, x in enumerate(k['files']):
                        os.makedirs(os.path.join(d, x['dir']), exist_ok=True)
                        path = os.path.join(d, x['dir'], x['name'])
                        if not x.get('missing'):
                            with open(path, 'wb') as f:
                                f.write(bytes.fromhex(x['d']))
                        names.append(path)
                        q = subprocess.run([exe, '-i', path, '--as-one-line', '--add-resolution'], stdout=subprocess.PIPE,
                                           stderr=subprocess.PIPE, timeout=limit, env=env)
                        err = [t.strip() for t in q.stderr.decode('latin1').splitlines() if t.strip()]
                        files.append({'dir': x['dir'], 'name': x['name'], 'd': list(bytes.fromhex(x['d'])), 'rc': q.returncode, 'err': err})
                    out = os.path.join(d, 'out.csv')
                    if k.get('dirs'):
                        names.insert(1, d)      # directories are passed over
                    args = ['--h264nal', exe] + (['-q'] if k.get('q') else []) + (['-o', out] if k.get('o') else []) + names
                    p = script('h264nal-conformance.py', args, d)
                    text = open(out, newline='').read() if k.get('o') and os.path.exists(out) else p.stdout.decode('latin1')
                    rows = list(csv.DictReader(io.StringIO(text, newline='')))
                    rows = [{a: (b if isinstance(b, str) else repr(b)) for a, b in r.items() if a is not None} for r in rows]
                    e = {'op': 'sum', 'files': files, 'rows': rows, 'rc': p.returncode}
                else:
                    data = bytes.fromhex(k['d'])
                    src = os.path.join(d, 'in.264')
                    with open(src, 'wb') as f:
                        f.write(data)
                    out = os.path.join(d, 'out.csv')
                    p = script('h264nal-dpb_parse.py', ['-i', src, '--h264nal-path', exe] + (['-o', out] if k.get('o') else []), d)
                    text = open(out, newline='').read() if k.get('o') and os.path.exists(out) else p.stdout.decode('latin1')
                    split = lambda t: t.split(';') if t else []
                    rows = [{'num': [r['abs_frame'], r['gop'], r['gop_frame'], r['frame_num'], r['nal_ref_idc']], 'type': r['type'],
                             'used': r['ref'], 'refs': split(r['refs_used']), 'before': split(r['dpb_before_decode']),
                             'mmco': split(r['mmco']), 'after': split(r['dpb_after_mmco'])}
                            for r in csv.DictReader(io.StringIO(text, newline=''))]
                    e = {'op': 'dpb', 'd': list(data), 'rc': p.returncode, 'rows': rows}
            except subprocess.TimeoutExpired:
                crashes.append(Crash(s, i, 'hang', 'no answer in %d s' % limit))
                continue
            finally:
                shutil.rmtree(d, ignore_errors=True)
            lines.append(json.dumps(e).encode() + b'\n')
            where.append((s, i))
    return lines, where, crashes


RUNNERS = {'cli': run_cli, 'tools': run_tools}


def conform(exe, sessions, module='Conf', limit=60):
    """Run every session through the driver and validate the traces.
    -> (mismatches, crashes), session numbers as given."""
    if not sessions:
        return [], []
    # spread by weight
    weight = [sum(len(c) for c in s) + 300 * len(s) for s in sessions]
    k = max(1, min(JOBS, len(sessions)))
    shards = [[] for _ in range(k)]
    load = [0] * k
    for s in sorted(range(len(sessions)), key=lambda i: -weight[i]):
        j = load.index(min(load))
        shards[j].append(s)
        load[j] += weight[s]

    def run(ids):
        ids = sorted(ids)
        run1 = RUNNERS.get(os.path.basename(exe), run_driver)
        lines, where, crashes = run1(exe, [sessions[i] for i in ids], limit)
        mm = check_trace(lines, module)
        res = []
        for m in mm:
            ln = min(max(1, m['line']), len(where)) - 1
            s, i = where[ln]
            res.append(Mismatch(ids[s], i, m['aspect'], m['impl'], m['spec']))
        for c in crashes:
            c.session = ids[c.session]
        with STATS.lock:
            STATS.events += len(lines)
            STATS.sessions += len(ids)
            for s, i in where:
                op = re.sub(r'^(gap|rep):.* ', '', ' '.join(sessions[ids[s]][i].split(' ', 2)[:2])).split(' ')[0]
                STATS.by_op[op] = STATS.by_op.get(op, 0) + 1
        return res, crashes

    mism, crashes = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r, c in ex.map(run, [s for s in shards if s]):
            mism += r
            crashes += c
    return mism, crashes


# --------------------------------------------------------------------------
# small models
# --------------------------------------------------------------------------
def model(cfg, module=None, timeout=600, workers=JOBS, env=None, text=False, args=()):
    """Check a model; a failure is an error of the specification, not of the
    code: it makes the run unusable."""
    rc, txt = tlc(module or cfg, env, cfg=cfg, workers=workers, timeout=timeout, heap='6g', c1=False, args=args)
    if rc != 0:
        raise Infra('model %s: %s' % (cfg, txt[-2500:]))
    g, d = states_of(txt)
    if '-simulate' in args:
        m = re.search(r'number of states generated: (\d+)', txt)
        g = d = int(m.group(1)) if m else 0
    STATS.add(g, d)
    STATS.models.append({'model': cfg, 'states': d, 'transitions': g})
    return txt if text else (g, d)
