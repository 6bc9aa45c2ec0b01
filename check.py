#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--seed N]

Builds the harness from /repo's current working tree, runs the generated checks of one property, writes
evidence/ID.json and reports:
  exit 0  the property held on everything that was explored
  exit 1  it did not; a line VIOLATION property=ID replay=FILE is printed
  exit 3  the machinery failed, nothing is known
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')

# Properties whose harness is built with the race detector
RACE = {'C16', 'C23', 'C24'}
# Programs of the repository that a property runs: name -> (package, extra build flags)
PROGRAMS = {
    'C20': {'rest': ('./hieraserver/rest', ['-race'])},
    'C21': {'lookup': ('./lookup', [])},
    'C23': {'lookup': ('./lookup', [])},
    'C25': {'yaml2json': ('./yaml2json', [])},
    'C33': {'rest': ('./hieraserver/rest', [])},
    'C34': {'yaml2json': ('./yaml2json', [])},
}
QUICK_LIMIT, THOROUGH_LIMIT = 700, 5400

EXIT_HANG, EXIT_RACE = 4, 66


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Infra(Exception):
    pass


def goenv(scratch):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('HIERA_') or k in ('GOFLAGS', 'GODEBUG', 'GORACE'):
            del env[k]
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod -buildvcs=false', HOME='/root',
               TMPDIR=scratch, GOTMPDIR=scratch)
    env.setdefault('GOCACHE', '/root/.cache/go-build')
    return env


def build(pid, scratch):
    env = goenv(scratch)
    for f in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(HARNESS, f), os.path.join(scratch, f))
    exe = os.path.join(scratch, 'harness.test')
    cmd = ['go', 'test', '-c', '-vet=off', '-modfile', os.path.join(scratch, 'go.mod'), '-o', exe]
    if pid in RACE:
        cmd.append('-race')
    jobs = [(cmd + ['.'], HARNESS)]
    bindir = os.path.join(scratch, 'bin')
    os.mkdir(bindir)
    shutil.copy(os.path.join(REPO, 'go.mod'), os.path.join(scratch, 'repo.mod'))
    shutil.copy(os.path.join(REPO, 'go.sum'), os.path.join(scratch, 'repo.sum'))
    for name, (pkg, flags) in PROGRAMS.get(pid, {}).items():
        jobs.append((['go', 'build', '-modfile', os.path.join(scratch, 'repo.mod'), '-o', os.path.join(bindir, name)]
                     + flags + [pkg], REPO))
    procs = [(j, subprocess.Popen(j[0], cwd=j[1], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
             for j in jobs]
    for j, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise Infra('build failed: %s\n%s' % (' '.join(j[0]), out.decode(errors='replace')[-4000:]))
    return exe


def runbin(exe, scratch, extra, limit):
    """Runs the harness. Returns (rc or None on timeout, output)."""
    env = goenv(scratch)
    # The cases create many small files
    work = tempfile.mkdtemp(prefix='verif-w', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else scratch)
    # Strings of dgo cache their hash code without synchronization. All writers write the same word and no change to
    # hiera can prevent it so the race detector is told to ignore that function.
    sup = os.path.join(scratch, 'suppressions')
    with open(sup, 'w') as f:
        f.write('race:lyraproj/dgo/internal.(*hstring).HashCode\n')
    env.update(VERIF_SCRATCH=work, TMPDIR=work, VERIF_BIN=os.path.join(scratch, 'bin'),
               GORACE='halt_on_error=1 exitcode=%d suppressions=%s' % (EXIT_RACE, sup))
    env.update(extra)
    with open(os.path.join(scratch, 'out'), 'w+b') as out:
        p = subprocess.Popen([exe, '-test.run', '^TestProperty$', '-test.timeout', '0'], cwd=work, env=env, stdout=out,
                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        size = out.tell()
        out.seek(0, 2)
        size = out.tell()
        out.seek(max(0, size - 200000))
        text = out.read().decode(errors='replace')
        if size > 200000:
            out.seek(0)
            text = out.read(20000).decode(errors='replace') + '\n...\n' + text
    shutil.rmtree(work, ignore_errors=True)
    return rc, text


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def known_findings(pid):
    res = []
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS')) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) check=(\S+) case=(.*?) what=(.*)$', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), canonical(json.loads(m.group(3))), m.group(4)))
    return res


def write_replay(v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canonical(v['case']).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (v['property'], v['sub'], h))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1)
    return path


def report(v):
    path = write_replay(v)
    print('%s/%s: %s' % (v['property'], v['sub'], v['error'][:3000]))
    print('VIOLATION property=%s replay=%s' % (v['property'], path), flush=True)


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true', help='fill the build cache')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--replay')
    ap.add_argument('--cases')
    ap.add_argument('--sub')
    args = ap.parse_args()
    # Plugins are terminated with an interrupt, which isn't possible if this process has been started to ignore it
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if args.setup:
        return setup()
    pid = args.id
    if not pid:
        ap.error('an ID is required')
    started = time.time()
    limit = QUICK_LIMIT if args.tier == 'quick' else THOROUGH_LIMIT
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir='/tmp')
    os.chmod(scratch, 0o755)
    try:
        exe = build(pid, scratch)
        current, result = os.path.join(scratch, 'current.json'), os.path.join(scratch, 'result.json')
        if args.replay:
            v = load(args.replay)
            if v is None:
                raise Infra('cannot read %s' % args.replay)
            rc, out = runbin(exe, scratch, {'VERIF_REPLAY': os.path.abspath(args.replay), 'VERIF_TRIES': '20' if pid in RACE else '1'}, limit)
            print(out[-4000:])
            if rc == 0:
                return 0
            if rc == 3 or rc is None:
                raise Infra('replay failed')
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
            return 1
        extra = {'VERIF_PROP': pid, 'VERIF_TIER': args.tier, 'VERIF_SEED': args.seed, 'VERIF_RESULT': result,
                 'VERIF_CURRENT': current}
        if args.cases:
            extra['VERIF_CASES'] = args.cases
        if args.sub:
            extra['VERIF_SUB'] = args.sub
        rc, out = runbin(exe, scratch, extra, limit)
        res = load(result)
        if rc is None:
            raise Infra('time limit of %d s exceeded\n%s' % (limit, out[-3000:]))
        violations = []
        if res is None:
            violations = crashed(pid, exe, scratch, extra, rc, out, load(current))
        else:
            if res.get('infra'):
                raise Infra(res['infra'] + '\n' + out[-3000:])
            violations = res['violations'] or []
            if rc != 0 and not violations:
                raise Infra('exit status %d\n%s' % (rc, out[-3000:]))
        known = known_findings(pid)
        fresh, seen = [], []
        for v in violations:
            k = [w for s, c, w in known if s == v['sub'] and c == canonical(v['case'])]
            if k:
                seen.append(k[0])
            else:
                fresh.append(v)
        ev = res['evidence'] if res else {
            'property': pid, 'tier': args.tier, 'seed': int(args.seed), 'level': 'exploration',
            'coverage': {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'the run ended with the process',
                         'samples': [v['case'] for v in violations]}}
        ev['wall_s'] = round(time.time() - started, 2)
        ev['violations'] = len(fresh)
        if seen:
            ev['coverage']['known_findings'] = seen
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for w in seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
        for v in fresh:
            report(v)
        if fresh:
            return 1
        c = ev['coverage']
        print('%s: held on %d cases, %d of them distinct and non-trivial (%.1f s)' % (pid, c['evaluations'], c['distinct_nontrivial'], ev['wall_s']))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = tempfile.mkdtemp(prefix='verif-setup-', dir='/tmp')
    try:
        for pid in ['C01'] + sorted(RACE | set(PROGRAMS)):
            d = os.path.join(scratch, pid)
            os.mkdir(d)
            build(pid, d)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def crashed(pid, exe, scratch, extra, rc, out, cur):
    """The process died. Find out whether that was due to the case it was running and if so, shrink it."""
    log(out[:1500], '\n...\n', out[-1500:])
    if rc == 3 or cur is None:
        raise Infra('exit status %s' % rc)
    if rc == EXIT_RACE:
        ix = out.find('WARNING: DATA RACE')
        rep = out[ix:ix + 6000]
        if ix < 0 or REPO + '/' not in rep:
            raise Infra('data race outside of %s' % REPO)
        cur['error'] = rep
        cur['shrunk'] = False
        return [cur]
    env = dict(extra, VERIF_ISOLATE='1', VERIF_SUB=cur['sub'])
    result = env['VERIF_RESULT']
    irc, iout = runbin(exe, scratch, env, 400)
    res = load(result)
    if res and not res.get('infra') and res['violations']:
        return res['violations']
    # Isolation did not show it. Does it happen again for this case alone?
    p = os.path.join(scratch, 'crash.json')
    with open(p, 'w') as f:
        json.dump(cur, f)
    rrc, rout = runbin(exe, scratch, {'VERIF_REPLAY': p, 'VERIF_TRIES': '30'}, 200)
    if rrc not in (0, 3, None):
        cur['error'] = 'the process did not survive this case (exit status %s)\n%s' % (rrc, rout[:2500])
        return [cur]
    if pid in RACE and 'fatal error: ' in out and REPO + '/' in out:
        # A crash that depends on the schedule
        cur['error'] = out[out.find('fatal error: '):][:4000]
        return [cur]
    raise Infra('the process ended with status %s but the case does not reproduce that' % rc)


if __name__ == '__main__':
    try:
        rc = main()
    except Infra as e:
        log('ERROR: %s' % e)
        rc = 3
    sys.exit(rc)
