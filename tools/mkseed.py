#!/usr/bin/env python3
"""mkseed.py SPEC.py : writes /verif/seeded/<id>/ from a description and confirms it.

SPEC defines: id, property, needs, breaks, edits=[(file, old, new)], module (directory or
file under src whose module gets the demonstration as a child test module), demo (rust)."""
import os, subprocess, sys, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
out = '/verif/seeded/' + spec['id']
os.makedirs(out, exist_ok=True)
work = tempfile.mkdtemp(prefix='seed-')
try:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['cp', '-a', '/repo/.', work], check=True)
    for f, old, new in spec['edits']:
        p = os.path.join(work, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.run(['git', 'diff'], cwd=work, capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(d)
    open(out + '/demo.rs', 'w').write(spec['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# Compiles the demonstration into a scratch copy of the crate and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r Cargo.toml Cargo.lock src "$work"/ || exit 2
cp "$here/demo.rs" "$work/src/planted_demo.rs"
printf '\\n#[cfg(test)]\\n#[path = "%%s/src/planted_demo.rs"]\\nmod planted_demo;\\n' "$work" >> "$work/%s"
cd "$work" || exit 2
out=$(CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" timeout 280 cargo test --offline planted_demo 2>&1)
echo "$out" | tail -30
echo "$out" | grep -q 'test result: ok. [1-9][0-9]* passed; 0 failed'
''' % spec['module'])
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(out + '/meta.json', 'w'), indent=1)
    if subprocess.run(['grep', '-q', '', out + '/patch.diff']).returncode: sys.exit('empty patch')
    def test(where):
        r = subprocess.run('CARGO_NET_OFFLINE=true cargo test --offline 2>&1 | grep -E "^test result|^error|warning: unused" ; exit ${PIPESTATUS[0]}', shell=True, cwd=where, capture_output=True, text=True, executable='/bin/bash')
        return r.stdout.strip().replace('\n', ' ')
    def demo(where):
        r = subprocess.run([out + '/demo.sh'], cwd=where, capture_output=True, text=True)
        return r.returncode, r.stdout[-2500:]
    print(spec['id'], 'tests with patch:', test(work))
    a, t = demo('/repo'); print('demo unpatched:', a); 
    if a: print(t)
    b, t2 = demo(work); print('demo patched:', b, 'panicked' if b and 'panicked' in t2 else t2)
    base = subprocess.run(['git','-C','/repo','log','--reverse','--format=%H'],capture_output=True,text=True).stdout.split()[0]
    for l in d.splitlines():
        if l.startswith('-') and not l.startswith('---') and l.strip('- '):
            f = [x for x in spec['edits']]
            ok = any(subprocess.run(['git','-C','/repo','show',base+':'+x[0]],capture_output=True,text=True).stdout.find(l[1:]) >= 0 for x in f)
            if not ok: print('NOT ORIGINAL LINE:', l)
finally:
    shutil.rmtree(work)
