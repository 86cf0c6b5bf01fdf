#!/usr/bin/env python3
"""Decides one property of /repo by bounded symbolic execution: check.py P07.

Builds the crate with the harness to LLVM IR, runs the executor over the property's jobs, replays
what it finds on the real crate, and writes evidence/<property>.json.
"""
import collections
import fcntl
import glob
import hashlib
import json
import os
import resource
import random
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402
from gen import Jobs  # noqa: E402

TARGET = os.path.join(HERE, 'target')
REPO = '/repo'
T0 = time.time()
IR_TARGET = 'x86_64-unknown-none'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
for k in ('CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'):
    ENV.pop(k, None)
if '/root/.cargo/bin' not in ENV.get('PATH', ''):
    ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '/usr/local/bin:/usr/bin:/bin')


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def build():
    """Everything in parallel: the executor, the native replay and the IR of the real code."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = [
        ('ir', HERE + '/harness/ir', dict(RUSTC_BOOTSTRAP='1', RUSTFLAGS='-C no-vectorize-loops -C no-vectorize-slp --cfg sqlparse_verif'),
         ['cargo', 'rustc', '--release', '--offline', '-Zbuild-std=core,alloc', '--target', IR_TARGET, '--', '--emit=llvm-ir']),
        ('replay', HERE + '/harness/replay', dict(RUSTFLAGS='--cfg sqlparse_verif'), ['cargo', 'build', '--release', '--offline']),
        ('engine', HERE + '/engine', {}, ['cargo', 'build', '--release', '--offline']),
    ]
    run = []
    for name, cwd, env, cmd in jobs:
        out = open(os.path.join(TARGET, name + '.log'), 'w')
        run.append((name, subprocess.Popen(cmd, cwd=cwd, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, name), **env), stdout=out, stderr=subprocess.STDOUT)))
    bad = [name for name, p in run if p.wait() != 0]
    if bad:
        for b in bad:
            sys.stderr.write(open(os.path.join(TARGET, b + '.log')).read()[-6000:])
        print('BUILD FAILED: ' + ', '.join(bad))
        sys.exit(2)
    lls = sorted(glob.glob(os.path.join(TARGET, 'ir', IR_TARGET, 'release', 'deps', 'irlib-*.ll')), key=os.path.getmtime)
    return os.path.join(TARGET, 'engine/release/symex'), os.path.join(TARGET, 'replay/release/replay'), lls[-1], lock


def limit():
    # a run that does not end may take all the memory there is
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def replay(binary, rows, timeout=120):
    """rows: (entry, params, hex, mode) -> outcome of each on the real crate, None if it hangs or dies"""
    res = [None] * len(rows)
    todo = list(range(len(rows)))
    while todo:
        inp = ''.join('%d\t%s\t%s\t%s\t%s\n' % (i, rows[i][0], ';'.join(str(x) for x in rows[i][1]), rows[i][2], rows[i][3]) for i in todo)
        try:
            r = subprocess.run([binary], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=limit)
            out = r.stdout
            hung = False
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b''
            hung = True
        done = set()
        restart = False
        for l in out.decode('utf-8', 'replace').splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j['id'] == '':
                restart = True
                continue
            res[int(j['id'])] = j
            done.add(int(j['id']))
        left = [i for i in todo if i not in done]
        if not left:
            break
        if restart and done:
            todo = left
            continue
        # the first that did not answer is the one that hangs or dies
        res[left[0]] = dict(end='hang' if hung else 'died', fails=[], trace=[], text='')
        todo = left[1:]
    return res


def spell(h, names):
    b = bytes.fromhex(h)
    o = b''
    i = 0
    while i < len(b):
        if b[i] == 1 and i + 2 < len(b):
            k = (b[i + 1] & 63) << 6 | (b[i + 2] & 63)
            t = names[k] if k < 1024 else names[k - 1024].lower() if k < 2048 else names[k - 2048].lower().capitalize()
            o += b' ' + t.encode() + b' '
            i += 3
        else:
            o += b[i:i + 1]
            i += 1
    return o.decode('utf-8', 'replace')


def known_findings(pid):
    # a check that also looks at the tree the way another one does sees that one's findings
    f = json.load(open(os.path.join(HERE, 'known_findings.json')))
    return sorted(f['findings'], key=lambda x: x['property'] != pid)


def matches(finding, v, text):
    if v['kind'] != 'fail' or props.base_code(v['code']) not in finding['codes']:
        return False
    if 'next' in finding and v['detail'] >> 32 & 0xffff not in [props.hash16(w) for w in finding['next']]:
        return False
    return re.search(finding['text'], text, re.S | re.I) is not None


def main():
    pid = sys.argv[1]
    if pid == '--build':
        build()
        return 0
    if pid == '--replay':
        v = json.load(open(sys.argv[2]))
        _, rp, _, _ = build()
        r = replay(rp, [(v['entry'], v['params'], v['input'], v['mode'])])[0]
        print(json.dumps(r, indent=1))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough' or '--thorough' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    engine, rp, ir, lock = build()
    log('built')
    # this run's files are its own
    work = os.path.join(HERE, 'work', '%s-%d' % (pid, os.getpid()))
    os.makedirs(work)
    irc = os.path.join(work, 'lib.ll')
    os.link(ir, irc)
    lock.close()
    try:
        return decide(pid, thorough, seed, engine, rp, irc, work)
    finally:
        for f in os.listdir(work):
            os.unlink(os.path.join(work, f))
        os.rmdir(work)


def decide(pid, thorough, seed, engine, rp, ir, work):
    subprocess.run([engine, 'slots', ir, work + '/slots.json'], check=True)
    names = json.load(open(work + '/slots.json'))
    p = props.PROPS[pid]
    J = Jobs(names, thorough, random.Random(seed))
    p['jobs'](J)
    lines = J.lines()
    if os.environ.get('VERIF_FAM'):
        lines = [l for l in lines if l.split(':')[0] in os.environ['VERIF_FAM'].split(',')]  # for trying out
    open(work + '/jobs', 'w').write('\n'.join(lines) + '\n')
    deadline = 3000 if thorough else 420
    log('%d jobs' % len(lines))
    r = subprocess.run([engine, 'run', ir, work + '/jobs', work + '/out.json', '--threads', str(os.cpu_count() or 8), '--deadline', str(deadline), '--samples', '2' if thorough else '1', '--terms', '4'],
                       stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        print('ENGINE FAILED')
        return 2
    o = json.load(open(work + '/out.json'))
    log('engine done: %.1f s' % o['total_s'])
    bid = {l.split('\t', 1)[0]: l for l in lines}

    # ---- the executor's runs are the machine's runs ----
    rows, want = [], []
    for j in o['jobs']:
        f = bid[j['id']].split('\t')
        for s in j['samples']:
            rows.append((f[1], s['params'], s['input'], 's'))
            want.append(s['trace'])
    got = replay(rp, rows, 300) if rows else []
    agree, disagree = 0, []
    for row, w, g in zip(rows, want, got):
        if not (g['end'] == 'ok' and g['trace'] == w) and len(disagree) < 100:
            # the executor starts every run from the initial state of the program's statics: so does a process of its own
            g = replay(rp, [row], 60)[0]
        if g['end'] == 'ok' and g['trace'] == w:
            agree += 1
        else:
            disagree.append((row, w, g))

    log('%d runs compared' % len(rows))

    # ---- counterexamples ----
    classes = collections.OrderedDict()
    for j in o['jobs']:
        f = bid[j['id']].split('\t')
        for v in j['viol']:
            if not props.counts(pid, v):
                continue
            # where a panic was raised tells panics apart; where a run that does not end was stopped says nothing
            key = (v['kind'], v['code'], v['detail'] if v['kind'] == 'fail' else v['stack'][:200] if v['kind'] == 'panic' else f[1])
            classes.setdefault(key, []).append((len(v['input']), v['input'], f[1], v))
    confirmed, unconfirmed, known = [], [], collections.Counter()
    findings = known_findings(pid)
    for key, vs in classes.items():
        vs.sort(key=lambda x: (x[0], x[1]))
        fresh = []
        for x in vs:
            text = spell(x[3]['input'], names)
            hit = [k for k in findings if matches(k, x[3], text)]
            if hit:
                known[hit[0]['id']] += 1
            else:
                fresh.append(x)
        if confirmed and time.time() - T0 > 500:
            break
        step = max(1, len(fresh) // 4)
        ok = None
        for _, h, entry, v in fresh[::step][:6]:
            modes = 's' if entry == 'main_place' else 'ts'
            rs = replay(rp, [(entry, v['params'], h, m) for m in modes], 20)
            good = [props.reproduces(v, r) for r in rs]
            if good[0]:
                ok = (v, entry, modes[0], rs[0])
                break
        if ok:
            confirmed.append(ok)
        elif fresh:
            unconfirmed.append((fresh[0][3], fresh[0][2], spell(fresh[0][1], names)))
    if os.environ.get('VERIF_DEBUG'):
        for v, e, t in unconfirmed:
            log('unconfirmed', e, v['kind'], v['code'], v['detail'], v['stack'][:80], repr(t))
        for (row, w, g) in disagree[:5]:
            log('disagree', row[0], row[1], repr(spell(row[2], names)), w, g)

    # ---- evidence ----
    undecided = [dict(job=j['id'], why=j['incomplete'] or j['errors'][0]) for j in o['jobs'] if j['incomplete'] or j['errors']]
    undecided += [dict(job=c.split(':')[0], why=c) for c in o['crashed']]
    src = {}
    for fn, (al, hit) in o['lines'].items():
        if '/repo/src/' in fn:
            src[os.path.basename(fn)] = '%d of %d lines' % (len(hit), len(al))
    fns = [f for f in o['functions'] if 'sql_parse' in f[0]]
    fam = collections.Counter(j['id'].rsplit(':', 1)[0] for j in o['jobs'])
    nsym = [sum(1 for e in bid[j['id']].split('\t')[6].split(' ') if e[:1] in 'BSC') + bid[j['id']].split('\t')[2].count('?') for j in o['jobs']]
    tot = lambda k: sum(j[k] for j in o['jobs'])
    space = 0
    for j in o['jobs']:
        n = 1
        for x in j['vars']:
            n *= x
        space += n
    samples = []
    for row, w in list(zip(rows, want))[:: max(1, len(rows) // 5)][:6]:
        samples.append(dict(entry=row[0], params=row[1], text=spell(row[2], names), trace=w))
    ev = dict(
        property=pid, tier='thorough' if thorough else 'quick', seed=seed, level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('steps'), traces_validated_against_impl=agree, samples=samples,
            jobs=len(o['jobs']), job_families=dict(fam), symbolic_parts=dict(collections.Counter(nsym)), inputs_covered=space,
            symbolic_branches=tot('forks'), queries=tot('queries'), sat=tot('sat'), unsat=tot('unsat'), solver_s=round(tot('solver_s'), 2),
            jobs_proved_exhaustive=sum(1 for j in o['jobs'] if j['proved']), term_obligations=tot('term_obl'), decisions_on_finite_domains=tot('decisions'),
            max_path_steps=max([j['max_path_steps'] for j in o['jobs']] or [0]),
            functions_encoded=len(fns), functions=[f[0][-90:] for f in sorted(fns, key=lambda f: -f[1])[:60]], repo_lines_executed=src,
            undecided_jobs=len(undecided), undecided=undecided[:20], engine_vs_machine_disagreements=len(disagree), unconfirmed_counterexamples=len(unconfirmed),
            unconfirmed=[dict(kind=v['kind'], code=v['code'], text=t) for v, e, t in unconfirmed[:5]],
            known_findings_seen=dict(known), engine_s=o['total_s'], bounds=p['bounds'],
        ),
        assumptions=props.ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=len(confirmed))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, pid), 'w'), indent=1)

    print('%s: %d jobs, %d paths, %d inputs covered, %d queries (%.1f s solver), %d runs validated natively, %d undecided' % (pid, len(o['jobs']), tot('paths'), space, tot('queries'), tot('solver_s'), agree, len(undecided)))
    for k in findings:
        if k['property'] == pid or known[k['id']]:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for old in glob.glob('%s/evidence/%s-violation-*.json' % (HERE, pid)):
        os.unlink(old)
    confirmed.sort(key=lambda c: len(c[0]['input']))
    for i, (v, entry, mode, r) in enumerate(confirmed[:20]):
        path = '%s/evidence/%s-violation-%d.json' % (HERE, pid, i)
        json.dump(dict(property=pid, entry=entry, params=v['params'], input=v['input'], mode=mode, kind=v['kind'], code=v['code'], detail=v['detail'], meaning=props.meaning(v),
                       stack=v['stack'], text=spell(v['input'], names), native=r, replay='python3 check.py --replay ' + path), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('   %s: %r %s' % (props.meaning(v), spell(v['input'], names), v['params']))
    if confirmed:
        return 1
    if disagree:
        row, w, g = disagree[0]
        print('the executor and the machine disagree on %d of %d runs, for example %s %s %r: %s, natively %s' % (len(disagree), len(rows), row[0], row[1], spell(row[2], names), w, g))
        return 2
    if not o['jobs'] or len(undecided) * 2 > len(o['jobs']):
        print('most jobs are undecided, for example %s' % (undecided[:1],))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
