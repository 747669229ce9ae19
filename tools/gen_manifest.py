"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
NOT_APPLICABLE = {}
m = dict(version=1, setup_cmd='bin/setup', hooks=dict(
    guard='cfg(md_verif)',
    enable='MD_RECOVER_VERIF=<dir with the harness modules> RUSTFLAGS="--cfg md_verif" cargo kani / cargo test (tools/runner.py)',
    source_commits=HOOKS), checks=[], not_applicable=[])
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(
            property=i, quick_cmd='bin/check %s' % i, thorough_cmd='VERIF_TIER=thorough bin/check %s' % i,
            evidence_file='evidence/%s.json' % i,
            technique=c.get('technique', 'contract harnesses on the real code discharged by Kani/CBMC'
                            + ('; lemmas by Verus' if c.get('verus') else '')),
            level=c['level'], level_note=c['level_note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
m['notes'] = 'See DESIGN.md. Every check is a run of tools/runner.py: contract harnesses compiled into /repo\'s crate under cfg(md_verif).'
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
