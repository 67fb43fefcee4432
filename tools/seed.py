#!/usr/bin/env python3
"""seed.py SPEC.py: builds and confirms one planted bug from a spec defining
id, prop, needs, breaks, edits=[(path, old, new)], demo (Rust source), pty (bool).
Confirms in a scratch copy of /repo: applies, builds, stable tests pass, demo ok / fails."""
import sys, os, subprocess, shutil, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
out = '%s/seeded/%s' % (R, ns['id'])
S = '/tmp/seed-scratch'
if not os.path.exists(S):
    subprocess.check_call(['cp', '-a', '/repo', S])
def sh(c, **k): return subprocess.run(c, shell=True, cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd')
os.makedirs(out, exist_ok=True)
demo = '// ' + ns['breaks'] + '\n' + ('mod pty;\n' if ns.get('pty') else '') + ns['demo']
open(out + '/demo.rs', 'w').write(demo)
shutil.copy(R + '/tools/seed/demo.sh', out + '/demo.sh'); os.chmod(out + '/demo.sh', 0o755)
if ns.get('pty'): shutil.copy(R + '/tools/seed/pty.rs', out)
json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(out + '/meta.json', 'w'), indent=1)
r = sh('bash %s/demo.sh' % out)
if r.returncode: print('DEMO FAILS UNCHANGED', r.returncode, '\n'.join([l for l in r.stdout.splitlines() if 'error' in l or 'panicked' in l or l.startswith('  ') and '-->' in l and 'demo' in l][:8]), r.stdout[-700:]); sys.exit(1)
for p, o, n in ns['edits']:
    s = open(S + '/' + p).read()
    assert s.count(o) == 1, (p, s.count(o), o)
    open(S + '/' + p, 'w').write(s.replace(o, n))
d = sh('git diff'); open(out + '/patch.diff', 'w').write(d.stdout)
r = sh('bash %s/demo.sh' % out)
print('demo with patch:', r.returncode, r.stdout[-400:])
bad = r.returncode in (0, 2)
t = sh('cargo test --workspace --no-fail-fast --offline', env=dict(os.environ, RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only'))
print('tests:', t.returncode, [l for l in t.stdout.splitlines() if 'FAILED' in l or 'error' in l][:5])
base = subprocess.run(['git', '-C', '/repo', 'diff', 'c4cb939', 'HEAD', '--', 'src'], capture_output=True, text=True).stdout
added = {l[1:] for l in base.splitlines() if l.startswith('+')}
mine = [l[1:] for l in d.stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
if mine and all(l in added for l in mine): print('WARNING: only touches lines added by own commits')
sh('git checkout -q -- .')
print('KEPT' if not bad and t.returncode == 0 else 'REJECTED')
if bad or t.returncode: shutil.rmtree(out)
