"""check <property> : decide one property on /repo's working tree.

quick:     one round of the property's plan
thorough:  rounds with new random choices until the time is used
Exit 0: everything explored conforms.  Exit 1: VIOLATION.  Exit 2: the
machinery could not run."""
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt  # noqa: E402
import plans  # noqa: E402
from table import TABLE  # noqa: E402


def known_findings(pid):
    """the findings recorded, and not repaired, for a property"""
    path = os.path.join(vt.VERIF, 'known-findings.txt')
    out = []
    for line in open(path):
        m = re.match(r'known: property=(\S+) id=(\S+) session=(.*?) what=(.*)$', line)
        if m and pid in m.group(1).split(','):
            out.append({'id': m.group(2), 'session': m.group(3).split(';'), 'what': m.group(4)})
    return out


class Found:
    def __init__(self, exe, variant, session, index, aspect, impl, spec, history):
        self.__dict__.update(locals())


def owned(entry, aspect):
    return any(re.search(p, aspect) for p in entry['aspects']) or aspect in ('unmatched', 'unreadable')


def sample(sessions, seed):
    import random
    r = random.Random(seed)
    out = []
    for s in r.sample(sessions, min(3, len(sessions))):
        out.append([c if len(c) < 200 else c[:200] + '...' for c in s[:6]])
    return out


def run_round(entry, ctx, found, other):
    vt.ENV['ASAN_OPTIONS'] = re.sub(r'(max_allocation_size_mb)=\d+', r'\1=%d' % entry.get('alloc', 2000), vt.ENV['ASAN_OPTIONS'])
    for variant, plan in entry['plans']:
        try:
            exe = vt.program(variant)
        except vt.Infra as e:
            if not entry.get('build_is_ours'):
                raise
            # this configuration does not build; the default one must, or
            # nothing can be said
            vt.program('default')
            vt.program('default:cli')
            found.append(Found(variant, variant, None, None, 'build', str(e)[-1500:], 'this configuration builds', []))
            return
        if variant == 'tsan' and not vt.starts(exe):
            continue    # the race detector does not run on this machine
        sessions = plan(ctx)
        mism, crashes = vt.conform(exe, sessions, limit=entry.get('limit', 60))
        if not vt.STATS.samples:
            vt.STATS.samples = sample(sessions, ctx.seed)
        for c in crashes:
            if c.what == 'hang':
                # only if it does it again
                if found or not vt.conform(exe, [sessions[c.session]], limit=entry.get('limit', 60))[1]:
                    continue
            found.append(Found(exe, variant, sessions[c.session], c.index, c.what, c.detail, 'an answer', []))
        for m in mism:
            f = Found(exe, variant, sessions[m.session], m.index, m.aspect, m.impl, m.spec, sessions)
            (found if owned(entry, m.aspect) else other).append(f)
        if found:
            return
    for fn in entry.get('extra', ()):
        fn(ctx, found)
        if found:
            return


def write_replay(pid, f, seed):
    os.makedirs(vt.REPLAYS, exist_ok=True)
    path = os.path.join(vt.REPLAYS, '%s-%d.json' % (pid, os.getpid()))
    cmds = f.session
    if cmds and f.index is not None:
        # without what comes after; only if that is enough to see it again
        cmds = f.session[:f.index + 1]
    with open(path, 'w') as o:
        json.dump({'property': pid, 'variant': f.variant, 'seed': seed, 'aspect': f.aspect, 'code': f.impl,
                   'specification': f.spec, 'session': cmds,
                   'how': './check --replay %s' % path}, o, indent=1)
    return path


def write_evidence(pid, entry, tier, seed, t0, nviol, rounds):
    s = vt.STATS
    os.makedirs(os.path.join(vt.VERIF, 'evidence'), exist_ok=True)
    cov = {
        'states': s.states,
        'transitions': s.transitions,
        'traces_validated_against_impl': s.sessions,
        'events_compared': s.events,
        'events_by_call': s.by_op,
        'models': s.models,
        'rounds': rounds,
        'samples': s.samples or ['(none)'],
        'rule': entry.get('rule', 'scenarios generated by TLC from spec/Gen.tla, mutated and framed; every recorded event is '
                                  'one step of spec/Conf.tla, evaluated and compared by TLC'),
    }
    cov.update(getattr(s, 'more', {}))
    with open(os.path.join(vt.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': entry['level'], 'coverage': cov,
                   'wall_s': round(time.time() - t0, 2), 'violations': nviol}, f, indent=1)


def replay(path):
    k = json.load(open(path))
    if not k.get('session'):
        print('replay by hand: ' + json.dumps(k)[:2000])
        return 0
    exe = vt.program(k['variant'])
    mism, crashes = vt.conform(exe, [k['session']])
    for c in crashes:
        print('%s at command %d: %s' % (c.what, c.index, c.detail))
    for m in mism:
        print('%s at command %d: code %s, specification %s' % (m.aspect, m.index, m.impl, m.spec))
    return 1 if mism or crashes else 0


def main(argv):
    if argv[0] == '--replay':
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    entry = TABLE[pid]
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', '700' if tier == 'thorough' else '0'))
    scale = 1.0 if tier == 'thorough' else entry.get('scale', 1.0)
    if 'VERIF_SCALE' in os.environ:
        scale = float(os.environ['VERIF_SCALE'])
    found, other = [], []
    for m in entry.get('models', ()):
        vt.model(*m['quick' if tier == 'quick' else 'thorough'])
    n = 0
    longest = 0
    while True:
        t1 = time.time()
        run_round(entry, plans.Ctx(seed, scale, n, tier), found, other)
        n += 1
        longest = max(longest, time.time() - t1)
        if found or tier == 'quick' or time.time() - t0 + longest > budget:
            break
    for k in known_findings(pid):
        exe = vt.program('default')
        mism, crashes = vt.conform(exe, [k['session']])
        if not mism and not crashes:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['id'] + ' ' + k['what']))
    write_evidence(pid, entry, tier, seed, t0, len(found), n)
    if other:
        asp = sorted({f.aspect for f in other})
        print('note: %d differences that belong to other properties (%s)' % (len(other), ', '.join(asp)[:300]))
    if found:
        # the smallest
        f = min(found, key=lambda f: len(json.dumps(f.session[:(f.index or 0) + 1])) if f.session else 0)  # noqa: E731
        for g in found[:5]:
            print('%s: code %s, specification %s' % (g.aspect, str(g.impl)[:300], str(g.spec)[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, write_replay(pid, f, seed)))
        return 1
    print('%s holds on everything explored: %d sessions, %d calls compared, %d specification steps, %.1f s'
          % (pid, vt.STATS.sessions, vt.STATS.events, vt.STATS.transitions, time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = 2
    try:
        for attempt in (1, 2):
            try:
                rc = main(sys.argv[1:])
                break
            except vt.Infra as e:
                print('machinery: %s' % str(e)[-3000:], file=sys.stderr)
                vt.STATS.__init__()
                rc = 2
            except Exception:
                traceback.print_exc()
                vt.STATS.__init__()
                rc = 2
    finally:
        vt.cleanup()
    sys.exit(rc)
