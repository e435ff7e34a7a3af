#!/usr/bin/env python3
"""Decide one property of /repo's current tree by static analysis.

usage: check.py <property id> [--thorough] | --setup | --all

Exit 0: every obligation of the property is discharged (or is a listed known
finding).  Exit 1, with a VIOLATION line: some construct breaks it, or the
analysis could not decide it.
"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

import fcntl
import hashlib
import json
import resource
import shutil
import signal
import subprocess
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MSV_REPO', '/repo')
CACHE = os.path.join(HERE, '.cache')
TC = 'nightly'
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)


def sh(cmd, env=None, **kw):
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(['rustc', '+' + TC, '--print', 'sysroot']).stdout.strip()


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_driver():
    src = os.path.join(HERE, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + h)
    with Lock('driver.lock'):
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            r = sh(['rustc', '+' + TC, '-O', '--edition', '2021', src, '-o', tmp])
            if r.returncode:
                print(r.stdout[-4000:])
                raise SystemExit('the MIR exporter does not build')
            os.rename(tmp, out)
    return out


def dump(driver, overflow=False):
    """export the type-checked program of /repo's current tree"""
    from msv.prog import Program
    lockfile = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(lockfile) and os.path.exists('/opt/vp/Cargo.lock.saved'):
        shutil.copy('/opt/vp/Cargo.lock.saved', lockfile)   # ignored by git; as /opt/vp/build.sh does
    os.makedirs(CACHE, exist_ok=True)
    with Lock('target.lock'):
        tmp = tempfile.mkdtemp(prefix='dump', dir=CACHE)
        try:
            out = os.path.join(tmp, 'm.json')
            target = os.path.join(CACHE, 'target')
            # cargo notices changes by mtime only: forget everything about the crate itself
            for d in ('debug/.fingerprint', 'debug/build', 'debug/deps', 'debug'):
                dd = os.path.join(target, d)
                for x in os.listdir(dd) if os.path.isdir(dd) else []:
                    if x == 'minisign' or x.startswith(('minisign-', 'libminisign')):
                        y = os.path.join(dd, x)
                        shutil.rmtree(y, ignore_errors=True) if os.path.isdir(y) else os.unlink(y)
            env = dict(os.environ)
            env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), RUSTC_WORKSPACE_WRAPPER=driver, MSV_CRATE='minisign',
                       MSV_OUT=out, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
                       CARGO_INCREMENTAL='0', RUSTC_WRAPPER='', MSV_OVERFLOW='on' if overflow else 'off')
            env.pop('RUSTFLAGS', None)
            r = sh(['cargo', '+' + TC, 'check', '--offline', '--lib', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], env=env, cwd=tmp)
            if r.returncode or not os.path.exists(out):
                print(r.stdout[-6000:])
                print('the analysed crate could not be exported')
                raise SystemExit(2)
            return Program(out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def known():
    p = os.path.join(HERE, 'known-findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


class Deadline(BaseException):
    pass


LIMIT_S = 600          # seconds; 840 for a thorough run


def run_one(pid, prog, tier, dumper):
    from msv import base, rules
    t0 = time.time()
    ctx = base.Ctx(prog, tier)
    ctx.dumper = dumper
    gap = None

    def late(*_):
        raise Deadline()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT_S if tier == 'quick' else 840)
    try:
        rules.RULES[pid](ctx)
    except Deadline:
        gap = 'the analysis did not finish within the time limit on this code'
    except base.Gap as g:
        gap = str(g)
    except Exception as x:
        traceback.print_exc()
        gap = 'the analysis failed on this code: %s: %s' % (type(x).__name__, x)
    signal.alarm(0)
    if gap is not None:
        # fail closed: what could not be decided is not reported as holding
        ctx.violations.append(('(analysis)', 'the property could be decided', gap))
        ctx.obls.append(('(analysis)', 'the property could be decided', False))
    if not ctx.obls:
        ctx.violations.append(('(analysis)', 'some obligation was analysed', ''))
    kf = [k for k in known() if k['property'] == pid and k.get('status') == 'open']
    new = []
    for v in ctx.violations:
        m = [k for k in kf if k['construct'] == v[0] and k['what'] == v[1]]
        if m:
            print('KNOWN-FINDING: property=%s %s: not true that %s' % (pid, v[0], v[1]))
        else:
            new.append(v)
    rule = rules.RULES[pid].__doc__ or ''
    kinds = {}
    for c, w, h in ctx.obls:
        k = kinds.setdefault('%s: %s' % (c, w), [0, 0])
        k[0] += 1
        k[1] += bool(h)
    done = sum(1 for o in ctx.obls if o[2])
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': ' '.join(rule.split()),
            'obligations': len(ctx.obls), 'discharged': done,
            'obligation_kinds': {k: {'decided': a, 'holding': b} for k, (a, b) in sorted(kinds.items())},
            'roots_analysed': sorted({'%s (%d result states, %d abstract steps)' % r for r in ctx.runs}),
            'functions_analysed': sorted(ctx.fns),
            'basic_blocks_analysed': len(ctx.blocks), 'abstract_steps': ctx.steps,
            'calls_without_model': ctx.unmodelled, 'notes': ctx.notes,
        },
        'assumptions': ASSUMPTIONS + getattr(ctx, 'assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
    if new:
        with open(rp, 'w') as f:
            f.write('property %s is broken in %s\nreproduce: cd /verif && python3 check.py %s\n\n' % (pid, REPO, pid))
            for c, w, d in new:
                f.write('construct: %s\nnot established: %s\ndetail: %s\n\n' % (c, w, d))
        for c, w, d in new[:40]:
            print('  %s: not established: %s  %s' % (c, w, d[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    elif os.path.exists(rp):
        os.unlink(rp)
    if ctx.unmodelled:
        print('  note: %d calls without a model: %s' % (len(ctx.unmodelled), ', '.join(list(ctx.unmodelled)[:5])))
    print('%s: %d of %d obligations hold, %d functions, %.1f s' % (pid, done, len(ctx.obls), len(ctx.fns), time.time() - t0))
    return 1 if new else 0


ASSUMPTIONS = [
    'rustc %s builds the same program from the same source as the toolchain used for release' % TC,
    'the models of the standard library and of ct-codecs, getrandom, rpassword and scrypt (msv/models.py) describe them correctly',
    'the crate-local primitives SHA-512, BLAKE2b, scalar reduction and curve arithmetic are taken as functions of their inputs (C29 is not claimed)',
]


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    driver = build_driver()
    cache = {}

    def dumper(overflow):
        if overflow not in cache:
            cache[overflow] = dump(driver, overflow)
        return cache[overflow]
    if '--setup' in sys.argv:
        dumper(False)
        print('exporter built, program exported')
        return 0
    from msv import rules
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    if '--all' in sys.argv:
        a = sorted(rules.RULES)
    prog = dumper(False)
    rc = 0
    for pid in a:
        rc |= run_one(pid, prog, tier, dumper)
    return rc


if __name__ == '__main__':
    sys.exit(main())
