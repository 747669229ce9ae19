"""Runs the obligations of one property against /repo's current tree.

Back ends
  kani   contract harnesses compiled into the real crate (cfg md_verif), CBMC
  verus  functions extracted mechanically from /repo on every run
Both replay what they find natively against the real code (cargo test, same
harness bodies, kani::any() read from the counterexample).
"""
import json, os, re, subprocess, sys, time, shutil, fcntl, signal
from checks import CHECKS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MD_RECOVER_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HOOKS = ['root', 'md', 'md_array', 'md_device', 'md_superblock', 'md_superblock_0', 'block_device', 'reader',
         'ext4', 'ext4_fs', 'ext4_file', 'ext4_directory', 'ext4_inode']
MODULES = dict(root='verif', md='md::verif', md_array='md::array::verif', md_device='md::device::device::verif',
               md_superblock='md::superblock::verif', md_superblock_0='md::superblock::version_0::verif', block_device='block_device::verif',
               reader='block_device::reader::verif', ext4='ext4::verif', ext4_fs='ext4::fs::verif',
               ext4_file='ext4::file::verif', ext4_directory='ext4::directory::verif',
               ext4_inode='ext4::inode::verif')
BUDGET = float(os.environ.get('VERIF_BUDGET', '840'))


def log(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.violations = []      # (what, replay path, found input?)
        self.proved = []          # harness / function records
        self.bounded = []
        self.explored = []        # native exploration (only when undecided)
        self.undecided = []
        self.cmds = []
        self.trusted = []
        self.notes = []
        self.errors = []
        self.todo = 1
        self.built = []

    def left(self):
        return (BUDGET if self.tier == 'quick' else 6 * BUDGET) - (time.time() - self.t0)


def sh(cmd, cwd=None, env=None, timeout=None):
    """Run, return (rc or None on timeout, output). Kills the whole group."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except FileNotFoundError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def hook_dir(pid, unit):
    """The hook files of one unit: common root + the unit's harness modules."""
    d = os.path.join(BUILD, 'hooks', pid + '-' + unit['dir'].replace('/', '_'))
    os.makedirs(d, exist_ok=True)
    src = os.path.join(VERIF, 'kani', unit['dir'])
    for h in HOOKS:
        text = ''
        if h == 'root':
            for c in ('root.rs', 'division.rs', 'crc.rs', 'chrono.rs'):
                text += open(os.path.join(VERIF, 'kani', 'common', c)).read()
        for extra in unit.get('with', {}).get(h, []):
            text += open(os.path.join(VERIF, 'kani', extra)).read()
        f = os.path.join(src, h + '.rs')
        if os.path.exists(f):
            text += open(f).read()
        write_if_changed(os.path.join(d, h + '.rs'), text)
    return d


def harness_names(unit):
    names = []
    src = os.path.join(VERIF, 'kani', unit['dir'])
    for h in HOOKS:
        f = os.path.join(src, h + '.rs')
        if os.path.exists(f):
            text = open(f).read()
            for m in re.finditer(r'contract!\s*\{(?:[^{}]|\{[^{}]*\})*?\bfn\s+(\w+)\s*\(\)', text):
                names.append(MODULES[h] + '::' + submodule(text, m.start()) + m.group(1))
    return names


def explored_names(unit):
    names = []
    for h in HOOKS:
        f = os.path.join(VERIF, 'kani', unit['dir'], h + '.rs')
        if os.path.exists(f):
            for m in re.finditer(r'explored!\s*\{\s*fn\s+(\w+)\s*\(\)', open(f).read()):
                names.append(MODULES[h] + '::' + (submodule(open(f).read(), m.start())) + m.group(1))
    return names


def submodule(text, at):
    """`name::` if the harness at `at` stands inside a module of its hook file."""
    m = None
    for m in re.finditer(r'^mod (\w+) \{', text[:at], re.M):
        pass
    if m and not re.search(r'^\}', text[m.end():at], re.M):
        return m.group(1) + '::'
    return ''


# the features name core::io::CustomOwner, whose destructor is stubbed (root.rs)
KANI_FLAGS = '--cfg md_verif -Zcrate-attr=feature(core_io_internals,core_io,allocator_api)'
KANI = ['cargo', 'kani', '--no-assertion-reach-checks', '-Z', 'stubbing', '-Z', 'function-contracts', '-Z', 'unstable-options']


def kani_env(d):
    return {'MD_RECOVER_VERIF': d, 'RUSTFLAGS': KANI_FLAGS, 'CARGO_NET_OFFLINE': 'true',
            'CARGO_TERM_COLOR': 'never'}


def kani_target(run):
    return os.path.join(BUILD, 'kani')


def run_kani(run, unit, only=None, unwind=None, timeout=None, playback=False):
    d = hook_dir(run.pid, unit)
    out_json = os.path.join(BUILD, 'json', '%s-%s.json' % (run.pid, unit['dir'].replace('/', '_')))
    os.makedirs(os.path.dirname(out_json), exist_ok=True)
    if os.path.exists(out_json):
        os.remove(out_json)
    cmd = list(KANI) + ['--target-dir', kani_target(run), '--export-json', out_json]
    ht = unit.get('harness_timeout', 600)
    if run.tier == 'thorough':
        ht *= 4
    ht = max(30, min(ht, int(run.left()) - 260))
    cmd += ['--harness-timeout', '%ds' % ht]
    if playback:
        cmd += ['-Z', 'concrete-playback', '--concrete-playback', 'print']
    else:
        cmd += ['-j', str(unit.get('jobs', 8)), '--output-format', 'terse']
    for h in (only or []):
        cmd += ['--harness', h, '--exact'] if '::' in h else ['--harness', h]
    if unwind:
        cmd += ['--unwind', str(unwind)]
    cmd += unit.get('flags', [])
    t = time.time()
    # leave time to settle what the verifier does not decide
    reserve = 200 if run.tier == 'quick' else 600
    rc, out = sh(cmd, cwd=REPO, env=kani_env(d), timeout=timeout or max(60, run.left() - reserve))
    run.cmds.append('MD_RECOVER_VERIF=%s RUSTFLAGS="%s" %s   (in %s)' % (d, KANI_FLAGS, ' '.join(cmd), REPO))
    res = None
    if os.path.exists(out_json):
        try:
            res = json.load(open(out_json))
        except Exception:
            res = None
    return rc, out, res, time.time() - t


def collect(res):
    """harness -> record"""
    recs = {}
    if not res:
        return recs
    stats = {c['harness_id']: c.get('cbmc_stats') or {} for c in res.get('cbmc', [])}
    for r in res.get('verification_results', {}).get('results', []):
        checks = r.get('checks') or []
        fails, undet, covers_bad, ok, covers_ok = [], [], [], 0, 0
        for c in checks:
            st = c['status'].lower()
            cat = (c.get('category') or '').lower()
            desc = c.get('description') or ''
            if cat == 'cover':
                if st == 'satisfied':
                    covers_ok += 1
                else:
                    covers_bad.append(desc + ' @' + loc(c))
            elif st in ('failure', 'failed'):
                if cat == 'unwind' or 'unwinding assertion' in desc:
                    undet.append('unwinding: ' + desc)
                elif cat == 'unsupported_construct' or 'is not currently supported by Kani' in desc:
                    undet.append('unsupported: ' + desc)
                else:
                    fails.append(c)
            elif st in ('success', 'unreachable'):
                ok += 1
            else:
                undet.append(st + ': ' + desc)
        recs[r['harness_id']] = dict(
            name=r['harness_id'], status=r.get('status'), ms=r.get('duration_ms', 0), checks=len(checks),
            ok=ok, fails=fails, undet=undet, covers_bad=covers_bad, covers_ok=covers_ok,
            solver_s=stats.get(r['harness_id'], {}).get('runtime_decision_procedure_s', 0) or 0)
    return recs


def loc(c):
    l = c.get('location') or {}
    return '%s:%s' % (l.get('file'), l.get('line'))


def native(run, unit, harness, env, timeout):
    d = hook_dir(run.pid, unit)
    e = {'MD_RECOVER_VERIF': d, 'RUSTFLAGS': '--cfg md_verif', 'CARGO_NET_OFFLINE': 'true',
         'VERIF_SEED': str(run.seed), 'RUST_BACKTRACE': '0'}
    e.update(env)
    cmd = ['cargo', 'test', '--target-dir', os.path.join(BUILD, 'native'), '--',
           '--exact', harness, '--nocapture', '--test-threads', '1']
    return sh(cmd, cwd=REPO, env=e, timeout=timeout)


def playback_bytes(out):
    """The concrete values Kani prints, as one byte string (first failing check)."""
    best = None
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        body = re.sub(r'//.*', '', m.group(1))
        bs = bytearray()
        for v in re.finditer(r'vec!\[([^\]]*)\]', body):
            bs += bytes(int(x) for x in v.group(1).split(',') if x.strip())
        yield bytes(bs)


def save_replay(run, name, text):
    d = os.path.join(BUILD, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (run.pid, re.sub(r'\W+', '_', name)))
    with open(p, 'w') as f:
        f.write(text)
    return p


def describe(fails):
    return '\n'.join('  %s: %s\n      at %s in %s' % (c.get('category'), c.get('description'), loc(c), c.get('function'))
                     for c in fails[:8])


def confirm(run, unit, rec):
    """A failed obligation: get the counterexample, replay it on the real code."""
    text = 'property %s\nobligation(s) failed in %s (unit %s)\n%s\n' % (run.pid, rec['name'], unit['dir'], describe(rec['fails']))
    found = False
    if run.left() > 60:
        rc, out, _, _ = run_kani(run, unit, only=[rec['name']], playback=True,
                                 timeout=max(60, min(300, run.left() - 40)))
        for bs in playback_bytes(out):
            rc, o = native(run, unit, rec['name'], {'VERIF_REPLAY': bs.hex()}, max(60, min(240, run.left())))
            if rc is None or 'VERIF-HANG' in o or 'VERIF-REPLAY: failed' in o:
                found = True
                text += '\ninput (bytes of the harness values, in order): %s\n' % bs.hex()
                text += 'replayed on the real code with:\n  cd %s && MD_RECOVER_VERIF=%s RUSTFLAGS="--cfg md_verif" VERIF_REPLAY=%s cargo test --target-dir %s -- --exact %s --nocapture\n' % (
                    REPO, hook_dir(run.pid, unit), bs.hex(), os.path.join(BUILD, 'native'), rec['name'])
                text += '\n' + tail(o)
                break
            text += '\n(an input of the verifier, %s, did not reproduce natively)\n' % bs.hex()
    if not found and run.left() > 45:
        found, t2 = explore(run, unit, rec['name'])
        text += t2
    p = save_replay(run, rec['name'], text)
    run.violations.append((rec['name'], p, found))


def tail(s, n=40):
    return '\n'.join(s.splitlines()[-n:])


def explore(run, unit, name):
    """Bounded: seeded search of the harness' input space on the real code."""
    iters = unit.get('iters', 20000) * (10 if run.tier == 'thorough' else 1)
    share = (run.left() - 20) / max(1, run.todo)
    rc, o = native(run, unit, name, {'VERIF_ITERS': str(iters), 'VERIF_SECONDS': str(int(max(3, min(60, share / 2))))},
                   max(30, min(200, share)))
    m = re.search(r'VERIF-INPUT: (\w*)', o)
    if m:
        return True, '\nseeded search found input %s\n%s\n' % (m.group(1), tail(o))
    m = re.search(r'VERIF-EXPLORED: tried=(\d+) nontrivial=(\d+)', o)
    if m:
        run.explored.append(dict(harness=name, tried=int(m.group(1)), met_precondition=int(m.group(2))))
    return False, '\nseeded search found no failing input\n%s\n' % tail(o, 12)


def kani_unit(run, unit):
    """True if the unit gave an answer; False if it could not be built."""
    rc, out, res, secs = run_kani(run, unit)
    recs = collect(res)
    if not recs:
        text = tail(out, 30)
        if re.search(r'error(\[E\d+\])?:', out) and 'Checking harness' not in out:
            run.notes.append('unit %s does not compile against the current tree' % unit['dir'])
            log('# unit %s does not build:\n%s' % (unit['dir'], text))
            return False
        run.notes.append('unit %s gave no result (timeout or tool failure)' % unit['dir'])
        log('# unit %s: no result (rc=%s)\n%s' % (unit['dir'], rc, text))
        if rc is not None:
            return False
        for n in harness_names(unit):
            run.undecided.append((unit, dict(name=n, why='the verifier ran out of time', fails=[], undet=[])))
        return True
    expected = set(harness_names(unit))
    got = set(recs)
    missing = expected - got
    for r in sorted(recs.values(), key=lambda r: r['name']):
        short = r['name'].split('::')[-1]
        status = 'ok' if not r['fails'] and not r['undet'] and r['checks'] and not r['covers_bad'] else \
            'FAILED' if r['fails'] else 'undecided'
        log('# %-55s %-9s %4d obligations %6.1fs' % (short, status, r['checks'], r['ms'] / 1000))
        if r['fails']:
            log(describe(r['fails']))
            continue
        bounded = unit.get('bounded', {})
        rec = dict(harness=r['name'], obligations=r['checks'] - r['covers_ok'] - len(r['covers_bad']), discharged=r['ok'],
                   reachability_checks=r['covers_ok'], seconds=round(r['ms'] / 1000, 2), solver_s=round(r['solver_s'], 3),
                   backend='kani 0.68 / cbmc 6.11 (%s)' % unit.get('solver', 'cadical'))
        if status == 'undecided':
            r['why'] = '; '.join((r['undet'] + ['unreachable: ' + x for x in r['covers_bad']])[:3]) or \
                'no result (%s)' % r['status']
            run.undecided.append((unit, r))
        elif bounded is True or short in bounded or '*' in bounded:
            rec['bound'] = unit.get('bound', '') if bounded is True else bounded.get(short, bounded.get('*'))
            run.bounded.append(rec)
        else:
            run.proved.append(rec)
    for m in sorted(missing):
        run.undecided.append((unit, dict(name=m, why='harness did not finish', fails=[], undet=[])))
    for r in recs.values():
        if r['fails']:
            if len(run.violations) < 2:
                confirm(run, unit, r)
            else:
                run.violations.append((r['name'], run.violations[0][1], run.violations[0][2]))
    return True


def settle_undecided(run):
    """Obligations the back end could not decide (loop bound, timeout, construct
    outside its subset): retry with a larger loop bound, then fall back to a
    bounded native search. Never counted as proved."""
    todo, run.undecided = run.undecided, []
    for n, (unit, r) in enumerate(todo):
        run.todo = len(todo) - n
        full = r['name']
        log('# undecided: %s (%s)' % (full, r.get('why')))
        why = r.get('why', '')
        if 'unwinding' in why and run.left() > 200 and '::' in full:
            rc, out, res, _ = run_kani(run, unit, only=[full], unwind=unit.get('retry_unwind', 40),
                                       timeout=min(300, run.left() - 120))
            rr = collect(res).get(full)
            if rr and rr['fails']:
                confirm(run, unit, rr)
                continue
            if rr and rr['checks'] and not rr['undet'] and not rr['covers_bad']:
                run.bounded.append(dict(harness=full, obligations=rr['checks'], discharged=rr['ok'],
                                        bound='retried with loop bound %d' % unit.get('retry_unwind', 40)))
                continue
        if run.left() > 60 and '::' in full:
            found, text = explore(run, unit, full)
            if found:
                p = save_replay(run, full, 'property %s\nundecided by the verifier (%s); bounded search on the real code:\n%s'
                                % (run.pid, why, text))
                run.violations.append((full, p, True))
                continue
        run.undecided.append((unit, r))


def native_builds(run, unit):
    e = {'MD_RECOVER_VERIF': hook_dir(run.pid, unit), 'RUSTFLAGS': '--cfg md_verif', 'CARGO_NET_OFFLINE': 'true'}
    rc, out = sh(['cargo', 'test', '--no-run', '--target-dir', os.path.join(BUILD, 'native')], cwd=REPO, env=e, timeout=300)
    if rc != 0:
        log('# unit %s does not build natively either:\n%s' % (unit['dir'], tail(out, 30)))
    return rc == 0


def setup():
    """Warm the build directories (dependencies only matter)."""
    run = Run('C26' if 'C26' in CHECKS else 'C11')
    os.makedirs(BUILD, exist_ok=True)
    d = hook_dir('setup', dict(dir='empty'))
    rc, out = sh(list(KANI) + ['--target-dir', kani_target(run), '--only-codegen'], cwd=REPO, env=kani_env(d), timeout=800)
    log(tail(out, 3))
    e = {'MD_RECOVER_VERIF': d, 'RUSTFLAGS': '--cfg md_verif', 'CARGO_NET_OFFLINE': 'true'}
    rc2, out = sh(['cargo', 'test', '--no-run', '--target-dir', os.path.join(BUILD, 'native')], cwd=REPO, env=e, timeout=800)
    log(tail(out, 3))
    return 0 if rc == 0 and rc2 == 0 else 1


def cross_check(run, unit):
    """Bounded: every harness of the unit, executed on sampled inputs against the
    real code (the assumed contracts of dependencies replaced by the real thing)."""
    secs = 1 if run.tier == 'quick' else 20
    d = hook_dir(run.pid, unit)
    names = [n for n in harness_names(unit) if n.split('::')[-1] not in unit.get('no_sampling', [])]
    names += [n for n in explored_names(unit)]
    if not names or run.left() < 40:
        return
    e = {'MD_RECOVER_VERIF': d, 'RUSTFLAGS': '--cfg md_verif', 'CARGO_NET_OFFLINE': 'true', 'RUST_BACKTRACE': '0',
         'VERIF_SEED': str(run.seed), 'VERIF_ITERS': str(unit.get('iters', 20000)), 'VERIF_SECONDS': str(secs)}
    cmd = ['cargo', 'test', '--target-dir', os.path.join(BUILD, 'native'), '--',
           '--exact', *names, '--nocapture', '--test-threads', '1']
    rc, o = sh(cmd, cwd=REPO, env=e, timeout=max(40, min(200, run.left() - 15)))
    for part in re.split(r'^test (?=\S+ \.\.\. )', o, flags=re.M)[1:]:
        name = part.split()[0]
        m = re.search(r'VERIF-EXPLORED: tried=(\d+) nontrivial=(\d+)', part)
        bad = re.search(r'VERIF-INPUT: (\w*)', part)
        if bad:
            log('# %s fails on a sampled input' % name)
            p = save_replay(run, name, 'property %s\ncontract %s, executed on the real code, fails for input %s\n%s\n%s' % (
                run.pid, name, bad.group(1), replay_cmd(d, name, bad.group(1)), tail(part)))
            run.violations.append((name, p, True))
            return
        if m:
            run.explored.append(dict(harness=name, tried=int(m.group(1)), met_precondition=int(m.group(2))))


def replay_cmd(d, name, hexed):
    return 'replay: cd %s && MD_RECOVER_VERIF=%s RUSTFLAGS="--cfg md_verif" VERIF_REPLAY=%s cargo test --target-dir %s -- --exact %s --nocapture' % (
        REPO, d, hexed, os.path.join(BUILD, 'native'), name)


def main(argv):
    pid = argv[0]
    spec = CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    run = Run(pid)
    decided = True
    for unit in spec.get('verus', []):
        import verus_backend
        if not verus_backend.run(run, unit):
            decided = False
    for unit in spec.get('units', []):
        if unit.get('native_only'):
            # executed only: a witness search beside the proofs, or a stand-in
            if native_builds(run, unit):
                run.built.append(unit)
            elif not run.built:
                decided = False
                run.errors.append('unit %s does not build' % unit['dir'])
            continue
        alternatives = [unit] + unit.get('fallback', [])
        if unit.get('thorough_only') and run.tier != 'thorough':
            continue
        for a in alternatives:
            if kani_unit(run, a):
                run.built.append(a)
                break
        else:
            # outside the verifier's reach as it stands: bounded native search
            if native_builds(run, unit):
                run.built.append(unit)
                for n in harness_names(unit):
                    run.undecided.append((unit, dict(name=n, why='the verifier gave no result for the unit', fails=[], undet=[])))
            elif not unit.get('optional'):
                decided = False
                run.errors.append('unit %s could not be decided' % unit['dir'])
    settle_undecided(run)
    for unit in run.built:
        # (also looks for a failing input where the verifier gave none)
        if not any(found for _, _, found in run.violations):
            cross_check(run, unit)
    if any(found for _, _, found in run.violations):
        run.violations = [v for v in run.violations if v[2]]
    write_evidence(run, spec)
    for p, found in dict.fromkeys((p, found) for _, p, found in run.violations):
        log('VIOLATION property=%s replay=%s%s' % (pid, p, '' if found else ' no-failing-input-found'))
    if run.violations:
        return 1
    known(pid)
    if not decided:
        log('no answer: ' + '; '.join(run.errors))
        return 2
    return 0


def known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                log('KNOWN-FINDING: property=%s %s' % (pid, m.group(2)))


COMMON_TRUST = [
    'Kani 0.68 / CBMC 6.11 translation of MIR and its SAT back end',
    'std (Vec, slices, Option, Result, io traits) as compiled; its unsafe code is executed symbolically, not trusted',
    'allocation never fails',
    'destroying the payload of an io::Error has no observable effect (core::io::CustomOwner::drop is stubbed)',
]


def write_evidence(run, spec):
    ob = sum(r['obligations'] for r in run.proved)
    di = sum(r['discharged'] for r in run.proved)
    cov = dict(
        obligations=ob + len(run.violations) + len(run.undecided),
        discharged=di,
        checker_cmd='; '.join(run.cmds[:4]) or 'none',
        trusted_base=(COMMON_TRUST if spec.get('units') else []) + (spec.get('trusted') or []) + run.trusted,
        functions_under_contract=spec.get('functions', []),
        proved=run.proved,
        bounded=run.bounded,
        bounded_obligations=sum(r.get('obligations', 0) for r in run.bounded),
        undecided=[dict(harness=r['name'], why=r.get('why')) for _, r in run.undecided],
        native_exploration=run.explored,
        solver_s=round(sum(r.get('solver_s', 0) for r in run.proved + run.bounded), 2),
        notes=run.notes,
        explanation=spec.get('explanation', ''),
    )
    ev = dict(property=run.pid, tier=run.tier if run.tier in ('quick', 'thorough') else 'quick', seed=run.seed,
              level=spec['level'], coverage=cov, assumptions=spec.get('assumptions', []),
              wall_s=round(time.time() - run.t0, 1), violations=len(run.violations))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, run.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
