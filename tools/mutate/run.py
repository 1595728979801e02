#!/usr/bin/env python3
"""run.py LANE NLANES OUT [--all]: for the mutants of this lane: repository's tests, then the checks close to the file
(--all: then all checks) until one fails.
Works in a private copy of /repo and /verif below /tmp/mut/LANE (paths rewritten), removed by hand afterwards."""
import json, subprocess, sys, os, random, time
lane, nl, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
base = f'/tmp/mut/{lane}'
repo, ver = base + '/repo', base + '/verif'
if not os.path.isdir(base):
    os.makedirs(base)
    subprocess.run(f'cp -a /repo {repo}; git clone -q /verif {ver}; mkdir -p {ver}/harness/target; '
                   f'grep -rl "/repo" {ver}/harness --include=Cargo.toml | xargs sed -i "s#\\"/repo\\"#\\"{repo}\\"#"', shell=True, check=True)
ORDER = {'circuit.rs': 'C06 C05 C17', 'commitment.rs': 'C13 C20', 'encryption.rs': 'C02 C03 C04 C09 C10 C22 C20 C11 C01 C05 C21', 'keygen.rs': 'C07 C08 C20 C11 C01 C03',
         'saver_groth16.rs': 'C05 C17 C20', 'setup.rs': 'C14 C17', 'utils.rs': 'C12 C18 C14 C15', 'serde_utils.rs': 'C15'}
ALL = [f'C{i:02}' for i in range(1, 24)]
muts = [json.loads(l) for l in subprocess.run(['python3', '/verif/tools/mutate/mutants.py', repo], capture_output=True, text=True).stdout.splitlines()]
random.Random(7).shuffle(muts)
done = set()
import glob
for f in glob.glob(os.path.dirname(out) + '/mut*.jsonl'): done |= {json.loads(l)['id'] for l in open(f)}
env = dict(os.environ, CARGO_NET_OFFLINE='true', VERIF_SEED='1', VERIF_TIER='quick', CARGO_BUILD_JOBS='4')
def sh(cmd, cwd, t, e=env):
    try: return subprocess.run(cmd, cwd=cwd, shell=True, env=e, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
for m in muts[lane::nl]:
    if m['id'] in done: continue
    subprocess.run('git checkout -q -- .', cwd=repo, shell=True)
    p = f"{repo}/src/{m['file']}"
    L = open(p).read().split('\n'); assert L[m['line']] == m['old']; L[m['line']] = m['new']; open(p, 'w').write('\n'.join(L))
    t0 = time.time(); res = {**m}
    r = sh('cargo check --offline -q', repo, 300)
    if r is None or r.returncode: res['result'] = 'nocompile'
    else:
        r = sh('timeout 200 cargo test --offline --release --lib -q -- --test-threads 4', repo, 600)
        if r is None or r.returncode: res['result'] = 'tests'
        else:
            res['result'] = 'SURVIVED'; order = ORDER[m['file']].split() + (ALL if '--all' in sys.argv else [])
            for c in order:
                r = sh(f'bash {ver}/run.sh {c}', ver, 900)
                if r is None: res['result'] = f'timeout {c}'; break
                if r.returncode == 1: res['result'] = f'caught {c}'; break
                if r.returncode: res['result'] = f'rc{r.returncode} {c}'; res['text'] = r.stdout[-1500:]; break
            subprocess.run(f'rm -rf {base}/verif/replays', shell=True)
    res['s'] = round(time.time() - t0)
    open(out, 'a').write(json.dumps(res) + '\n')
    subprocess.run('git checkout -q -- .', cwd=repo, shell=True)
