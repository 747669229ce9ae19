"""Lemma files (verus/*.rs): no code of /repo in them, so a failure is an error
of the machinery, never a violation."""
import json, os, re, time


def run(run, unit):
    from runner import VERIF, sh, log
    path = os.path.join(VERIF, 'verus', unit['file'])
    text = re.sub(r'//.*', '', open(path).read())
    if re.search(r'\b(assume|admit|external_body|axiom)\b', text):
        run.errors.append('%s contains an unproved assumption' % unit['file'])
        return False
    t = time.time()
    cmd = ['verus', '--output-json', '--time', path]
    run.cmds.append(' '.join(cmd))
    rc, out = sh(cmd, timeout=300, cwd='/tmp')
    secs = time.time() - t
    m = re.search(r'"verified":\s*(\d+),\s*"errors":\s*(\d+)', out)
    names = re.findall(r'proof fn (\w+)', text)
    if rc == 0 and m and int(m.group(2)) == 0 and int(m.group(1)) >= len(names) > 0:
        for n in names:
            run.proved.append(dict(harness='lemma ' + n, obligations=1, discharged=1, backend='verus / z3',
                                   seconds=round(secs / len(names), 2), solver_s=0))
        log('# %-55s ok        %4d lemmas %6.1fs' % (unit['file'], len(names), secs))
        return True
    run.errors.append('%s: verus did not accept the lemmas: %s' % (unit['file'], out[-400:]))
    return False
