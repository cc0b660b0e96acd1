#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Builds the workers of a property from /repo's working tree, runs them over a
fixed list of cases (VERIF_SEED, VERIF_TIER), and decides: exit 0 if no
observed execution refutes the property, exit 1 with a VIOLATION line if one
does, exit 2 if there is no verdict.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from plans import PLANS  # noqa: E402

HARNESS = os.path.join(HERE, 'harness')
DOQ = 'github.com/kgantsov/doq/'
GO = '/opt/veriftools/go1.27.3/bin'


def env(scratch):
    e = dict(os.environ)
    e.update({
        'HOME': e.get('HOME', '/root'),
        'PATH': GO + ':' + e.get('PATH', '/usr/bin:/bin'),
        'GOTOOLCHAIN': 'local', 'GOFLAGS': '-mod=readonly', 'GOPROXY': 'off', 'GOWORK': 'off',
        'GOPATH': '/root/go', 'GOMODCACHE': '/root/go/pkg/mod', 'GOCACHE': '/root/.cache/go-build',
        'VERIF_SCRATCH': scratch, 'TMPDIR': scratch,
        'GOTRACEBACK': 'all',
    })
    return e


def fail(msg):
    print('NO VERDICT: ' + msg)
    sys.stdout.flush()
    sys.exit(2)


def build(spec, scratch):
    """builds a worker, returns the path of its binary"""
    name = spec['worker'] + ('-race' if spec.get('race') else '')
    out = os.path.join(scratch, name)
    cmd = ['go', 'build', '-tags', 'verif', '-o', out]
    if spec.get('race'):
        cmd.append('-race')
    overlay = spec.get('overlay')
    if overlay:
        replace = {}
        for dst, src in overlay.items():
            replace[os.path.join('/repo', dst)] = os.path.join(HARNESS, src)
        path = os.path.join(scratch, name + '-overlay.json')
        with open(path, 'w') as f:
            json.dump({'Replace': replace}, f)
        cmd += ['-overlay', path]
    cmd.append(spec.get('package') or './cmd/' + spec['worker'])
    p = subprocess.run(cmd, cwd=HARNESS, env=env(scratch), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        fail('the worker %s does not build:\n%s' % (name, p.stdout[-4000:]))
    return out


def build_server(scratch, race=False):
    """builds the server; files of the admin UI that are not in the tree are replaced by empty ones"""
    out = os.path.join(scratch, 'doq-race' if race else 'doq')
    empty = os.path.join(scratch, 'empty.html')
    with open(empty, 'w') as f:
        f.write('<html></html>\n')
    replace = {}
    with open('/repo/cmd/server/main.go') as f:
        wanted = re.findall(r'^//go:embed (.*)$', f.read(), re.M)
    for pattern in ' '.join(wanted).split():
        path = os.path.join('/repo/cmd/server', pattern.replace('*', 'empty.js'))
        if not glob.glob(os.path.join('/repo/cmd/server', pattern)):
            replace[path] = empty
    overlay = os.path.join(scratch, 'server-overlay.json')
    with open(overlay, 'w') as f:
        json.dump({'Replace': replace}, f)
    cmd = ['go', 'build', '-overlay', overlay, '-o', out] + (['-race'] if race else []) + ['./cmd/server']
    p = subprocess.run(cmd, cwd='/repo', env=env(scratch), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        fail('the server does not build:\n%s' % p.stdout[-4000:])
    return out


def own_frames(block):
    """function names of a stack, innermost first, that are doq's or the harness's"""
    out = []
    for line in block.split('\n'):
        if line.startswith(DOQ):
            out.append('doq:' + line[len(DOQ):])
        elif line.startswith('doqverif/') or line.startswith('main.'):
            out.append('harness:' + line)
    return out


def diagnose(code, err):
    """what the end of a worker means: ('crash'|'wedged'|None, message, trace)"""
    tail = err[-200000:]
    if 'WATCHDOG: no progress' in err:
        text = err[err.index('WATCHDOG: no progress'):]
        blocks = [b for b in text.split('\n\n') if b.startswith('goroutine ')]
        stuck = []
        for b in blocks:
            first = b.split('\n', 1)[0]
            frames = own_frames(b)
            if not frames or not frames[0].startswith('doq:'):
                continue
            if re.search(r'sync\.(RW)?Mutex|semacquire|running|runnable', first):
                stuck.append(b)
        if stuck:
            return 'wedged', 'no progress: code of doq blocks or spins forever', '\n\n'.join(stuck[:6])
        return None, 'no progress, and no sign of why', text[:6000]
    if 'WATCHDOG: no end' in err:
        text = err[err.index('WATCHDOG: no end'):]
        stuck = []
        for b in text.split('\n\n'):
            frames = own_frames(b)
            # an operation of doq that the harness called and that waits, in virtual time
            if frames and frames[0].startswith('doq:') and any(f.startswith('harness:') for f in frames):
                stuck.append(b)
        if stuck:
            return 'wedged', 'an operation does not return: code of doq waits for ever', '\n\n'.join(stuck[:6])
        return None, 'a case does not end, and no sign of why', text[:6000]
    m = re.search(r'^(panic: |fatal error: |unexpected fault address|SIGSEGV)', err, re.M)
    if m:
        text = err[m.start():]
        blocks = text.split('\n\n')
        head = blocks[0]
        if head.startswith('panic: harness:'):
            return None, head, text[:6000]
        running = [b for b in blocks if b.startswith('goroutine ')]
        if running:
            frames = own_frames(running[0])
            if frames and frames[0].startswith('doq:'):
                return 'crash', head.split('\n')[0] + ' in ' + frames[0][4:], text[:8000]
            if 'all goroutines are asleep' in head or 'concurrent map' in head:
                if any(f and f[0].startswith('doq:') for f in map(own_frames, running)):
                    return 'crash', head.split('\n')[0], text[:8000]
        return None, head[:2000], text[:6000]
    m = re.search(r'^\{"level":"fatal".*$', err, re.M)
    if m:
        return 'crash', 'the node ends itself: ' + m.group(0), tail[-3000:]
    if code < 0:
        return None, 'killed by signal %d' % -code, tail[-3000:]
    return None, 'exit code %d' % code, tail[-3000:]


def races(path):
    """the data races in the logs of the race detector: of doq, of others"""
    found, other = {}, 0
    folder, name = os.path.split(path)
    for f in sorted(os.listdir(folder)):
        if not f.startswith(name + '.'):
            continue
        with open(os.path.join(folder, f), errors='replace') as fh:
            text = fh.read()
        for block in text.split('=================='):
            if 'WARNING: DATA RACE' not in block:
                continue
            stacks = [own_frames('\n'.join(l.strip() for l in part.split('\n')))
                      for part in re.split(r'\n\s*\n', block)
                      if re.search(r'(?im)^(previous )?(atomic )?(read|write) at 0x', part)]
            inner = [st[0] if st else '' for st in stacks]
            if any(x.startswith('doq:') for x in inner) and not any(x.startswith('harness:') for x in inner):
                key = ' and '.join(sorted(re.sub(r'\(\)$|\([^()*]*\)$', '', x) or 'a library' for x in inner))
                found.setdefault(key, block.strip())
            else:
                other += 1
                if os.environ.get('VERIF_DEBUG'):
                    print('other race:', inner)
    return found, other


def run_shard(binary, spec, prop, shard, shards, tier, seed, scratch, only, stop):
    out = os.path.join(scratch, '%s-%d-%d.json' % (os.path.basename(binary), spec['index'], shard))
    for f in (out, out + '.case'):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [binary, '-prop', spec.get('prop', prop), '-seed', str(seed), '-shard', str(shard),
           '-shards', str(shards), '-tier', tier, '-out', out] + spec.get('args', [])
    if only is not None:
        cmd += ['-case', str(only)]
    e = env(os.path.join(scratch, 's%d-%d' % (spec['index'], shard)))
    os.makedirs(e['VERIF_SCRATCH'], exist_ok=True)
    e['GOMAXPROCS'] = str(spec.get('procs', 2))
    if spec.get('race'):
        for f in os.listdir(scratch):
            if f.startswith(os.path.basename(out) + '.race.'):
                os.unlink(os.path.join(scratch, f))
        e['GORACE'] = 'log_path=%s.race halt_on_error=0 exitcode=0 history_size=4' % out
    e.update(spec.get('env', {}))
    errpath = out + '.err'
    t0 = time.time()
    with open(errpath, 'wb') as ef:
        p = subprocess.Popen(cmd, cwd=e['VERIF_SCRATCH'], env=e, stdout=subprocess.DEVNULL, stderr=ef,
                             start_new_session=True)
        code = None
        while code is None and time.time() < stop():
            try:
                code = p.wait(timeout=min(1, max(0.01, stop() - time.time())))
            except subprocess.TimeoutExpired:
                pass
        if code is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    with open(errpath, 'rb') as ef:
        err = ef.read().decode('utf-8', 'replace')
    report = None
    if os.path.exists(out):
        with open(out) as f:
            report = json.load(f)
    case = -1
    if os.path.exists(out + '.case'):
        try:
            case = int(open(out + '.case').read() or -1)
        except ValueError:
            pass
    return {'code': code, 'err': err, 'report': report, 'case': case, 'cmd': cmd, 'shard': shard,
            'spec': spec, 'wall': time.time() - t0, 'out': out}


def known_findings(prop):
    """keys of the findings that are recorded and not repaired"""
    out = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = json.load(open(sys.argv[3]))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    plan = PLANS[prop]
    start = time.time()
    scratch = tempfile.mkdtemp(prefix='doqverif-')
    try:
        code = decide(prop, plan, tier, seed, scratch, start, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(prop, plan, tier, seed, scratch, start, replay):
    specs = []
    for i, s in enumerate(plan['runs']):
        s = dict(s)
        s['index'] = i
        if tier == 'thorough' or not s.get('thorough_only'):
            specs.append(s)
    if replay:
        specs = [s for s in specs if s['index'] == replay['run']]
        seed, tier = replay['seed'], replay['tier']
    binaries = {}
    for s in specs:
        key = (s['worker'], bool(s.get('race')))
        if key not in binaries:
            binaries[key] = build(s, scratch)
        s['binary'] = binaries[key]
        if s.get('server'):
            if 'server' not in binaries:
                binaries['server'] = build_server(scratch)
            s['env'] = dict(s.get('env', {}), DOQ_SERVER=binaries['server'])
    built = time.time()

    budget = 3 * 3600 if tier == 'thorough' else 840 - (built - start)
    deadline = built + budget
    results = []
    lock = threading.Lock()
    sem = threading.Semaphore(plan.get('parallel', 8))

    stop = [deadline]  # which comes sooner once a violation has been found that ends its shard

    def work(s, shard, shards, only=None):
        with sem:
            if stop[0] - time.time() < 5:
                return

            def run(case):
                return run_shard(s['binary'], s, prop, shard, shards, tier, seed, scratch, case, lambda: stop[0])

            def ends(r):
                return r['code'] not in (0, None) and diagnose(r['code'], r['err'])[0]

            r = run(only)
            # a stall must be reproducible to be believed: by its case alone, or by the same cases again
            if ends(r) == 'wedged' and deadline - time.time() > 90:
                r2 = run(r['case']) if r['case'] >= 0 else r
                if ends(r2) != 'wedged' and deadline - time.time() > 90 and only is None:
                    r2 = run(None)
                if ends(r2) != 'wedged':
                    r2['note'] = 'a stall that did not happen again'
                    r = r2
            with lock:
                results.append(r)
                if ends(r):
                    stop[0] = min(stop[0], time.time() + 60)

    threads = []
    for s in specs:
        if replay:
            threads.append(threading.Thread(target=work, args=(s, replay['shard'], replay['shards'], replay.get('case'))))
            continue
        shards = s.get('shards', 8)
        for shard in range(shards):
            threads.append(threading.Thread(target=work, args=(s, shard, shards)))
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    violations, problems, notes = [], [], []
    hashes = {}
    coverage = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'observed': {}}
    rules, assumptions, floors = [], [], {}
    if len(results) < len(threads):
        problems.append('not all shards ran in the time there was')
    for r in sorted(results, key=lambda r: (r['spec']['index'], r['shard'])):
        where = '%s shard %d' % (r['spec']['worker'], r['shard'])
        rep = r['report']
        if r.get('note'):
            notes.append(where + ': ' + r['note'])
        if r['code'] is None:
            problems.append(where + ': out of time in case %d' % r['case'])
        elif r['code'] != 0:
            kind, msg, trace = diagnose(r['code'], r['err'])
            if kind:
                violations.append((r, {'kind': kind, 'case': r['case'], 'msg': msg, 'trace': trace.split('\n')}))
            else:
                problems.append('%s, case %d: %s\n%s' % (where, r['case'], msg, trace[:3000]))
        if r['spec'].get('race'):
            found, other = races(r['out'] + '.race')
            coverage['observed']['other-races'] = coverage['observed'].get('other-races', 0) + other
            for key, block in found.items():
                violations.append((r, {'kind': 'race', 'case': -1, 'msg': 'data race: ' + key.replace('doq:', ''), 'trace': block.split('\n')}))
        if rep is None:
            if r['code'] == 0:
                problems.append(where + ': no report')
            continue
        coverage['evaluations'] += rep['evaluations']
        hashes.setdefault(r['spec']['index'], set()).update(rep['hashes'] or {})
        for k, v in (rep['counters'] or {}).items():
            coverage['observed'][k] = coverage['observed'].get(k, 0) + v
        for k, v in r['spec'].get('floors', rep['floors'] or {}).items():
            floors[k] = max(v, floors.get(k, 0))
        if rep['rule'] and rep['rule'] not in rules:
            rules.append(rep['rule'])
        for x in rep['assumptions'] or []:
            if x not in assumptions:
                assumptions.append(x)
        if len(coverage['samples']) < 2 and rep['samples']:
            coverage['samples'] += rep['samples'][:1]
        for v in rep['violations'] or []:
            if r['spec'].get('judge') == 'races':
                notes.append(where + ': not judged here: ' + v['msg'][:200])
            else:
                violations.append((r, v))
        for x in rep['inconclusive'] or []:
            notes.append(where + ': inconclusive: ' + x)
    coverage['distinct_nontrivial'] = sum(len(h) for h in hashes.values())
    coverage['rule'] = '; '.join(rules)
    inconclusive = coverage['observed'].get('inconclusive', 0)
    if not replay:
        for k, v in floors.items():
            have = coverage['observed'].get(k, 0)
            if have < v:
                problems.append('only %d of %d expected events %r were observed' % (have, v, k))
        if inconclusive * 5 > coverage['evaluations']:
            problems.append('%d of %d cases are inconclusive' % (inconclusive, coverage['evaluations']))

    known = known_findings(prop)
    reported = {}
    fresh = []
    for r, v in violations:
        key = v.get('key') or ''
        if key and key in known:
            reported.setdefault(key, v)
        else:
            fresh.append((r, v))

    wall = time.time() - start
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': coverage, 'assumptions': assumptions, 'wall_s': round(wall, 1),
        'violations': len(fresh),
    }
    coverage['build_s'] = round(built - start, 1)
    coverage['shards'] = len(results)
    if notes:
        coverage['notes'] = notes[:20]
    if not replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
        os.replace(path + '.tmp', path)

    print('%s: %d evaluations, %d distinct and non-trivial, build %.1f s, total %.1f s' % (
        prop, coverage['evaluations'], coverage['distinct_nontrivial'], built - start, wall))
    for k in sorted(coverage['observed']):
        print('  %s: %d' % (k, coverage['observed'][k]))
    for n in notes[:10]:
        print('note: ' + n)
    for key in reported:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    if fresh:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        for i, (r, v) in enumerate(fresh[:5]):
            path = os.path.join(HERE, 'replay', '%s-%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump({
                    'property': prop, 'run': r['spec']['index'], 'shard': r['shard'],
                    'shards': r['spec'].get('shards', 8), 'seed': seed, 'tier': tier,
                    'case': v.get('case') if v.get('case', -1) >= 0 else None,
                    'kind': v.get('kind'), 'message': v.get('msg'), 'trace': v.get('trace'),
                    'command': r['cmd'],
                    'again': 'python3 /verif/check.py %s --replay %s' % (prop, path),
                }, f, indent=1, ensure_ascii=False)
            print('%s: %s' % (v.get('kind'), (v.get('msg') or '')[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems:
        for p in problems[:8]:
            print('NO VERDICT: ' + p)
        return 2
    return 0


if __name__ == '__main__':
    main()
