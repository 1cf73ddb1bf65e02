"""seed(id, prop, edits, cases, needs, breaks): write /verif/seeded/<id> from edits made in the
worktree /tmp/wt. edits: [(file, old, new)], cases: [(name, eu source, expected json | 'ERROR')]."""
import json, os, shutil, subprocess

def seed(id, prop, edits, cases, needs, breaks, demo=None, kit='demo-kit'):
    wt = '/tmp/wt'
    head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    subprocess.run(['git', '-C', wt, 'checkout', '-q', '-f', head], check=True)
    for f, old, new in edits:
        p = f'{wt}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = f'/verif/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
    if demo is None:
        for f in os.listdir(f'/verif/tools/{kit}'):
            shutil.copy(f'/verif/tools/{kit}/{f}', d)
    else:
        for f, t in demo.items():
            open(f'{d}/{f}', 'w').write(t)
    for name, src, out in cases:
        open(f'{d}/{name}.eu', 'w').write(src)
        open(f'{d}/{name}.out', 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
