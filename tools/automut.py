#!/usr/bin/env python3
"""automut.py: developer's tool. Small syntactic changes all over openraft/src, each built in a scratch copy and searched
with `raftsim survey`. Prints which ones no oracle notices. Nothing registered in MANIFEST.json uses it.
  automut.py gen OUT.jsonl            all candidate changes
  automut.py run IN.jsonl W N RUNS    worker W of N (scratch copy /tmp/am/wW), results appended to /tmp/am/res.jsonl"""
import glob, json, os, re, subprocess, sys, random
SRC = '/repo/openraft/src'
SKIP = re.compile(r'test|docs/|compat/|testing|/impls/|feature_serde|type_config|async_runtime|error|display|log_state_reader_ext|summary|macros|declare|base|serde|^entry/|node.rs|alias')
OPS = [
    (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
    (r'\bif !', 'if '), (r'\.next_index\(\)', '.next_index().saturating_sub(1)'), (r'\bis_ok\(\)', 'is_err()'), (r'\bis_err\(\)', 'is_ok()'),
    (r'\.is_empty\(\)', '.len() == 1'), (r'\bfirst\(\)', 'last()'), (r'\blast\(\)', 'first()'),
    (r'\bcommitted\(\)', 'last_log_id()'), (r'\blast_log_id\(\)', 'committed()'), (r'\beffective\(\)', 'committed()'),
    (r'\* 2\b', ''), (r'\breturn;', ';'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'),
    (r'\bSome\((\w+)\)$', 'None'), (r'\.\.=', '..'), (r'\bif (?!let)([^{]+) \{$', r'if false && (\1) {'), (r'\bif (?!let)([^{]+) \{$', r'if true || (\1) {'),
]
def files():
    for f in sorted(glob.glob(SRC + '/**/*.rs', recursive=True)):
        r = f[len(SRC) + 1:]
        if not SKIP.search(r): yield r
def gen(out):
    n = 0
    with open(out, 'w') as o:
        for r in files():
            L = open(f'{SRC}/{r}').read().split('\n')
            end = next((i for i, l in enumerate(L) if '#[cfg(test)]' in l and i + 1 < len(L) and L[i + 1].rstrip().endswith('{') and 'mod' in L[i + 1]), len(L))
            infmt = False
            skip_until = -1
            for i, l in enumerate(L[:end]):
                s = l.strip()
                if 'impl' in s and ('Display for' in s or 'Debug for' in s): infmt = True
                if infmt:
                    if l.startswith('}'): infmt = False
                    continue
                if i <= skip_until: continue
                if re.match(r'(tracing::\w+!|debug_assert\w*!|assert\w*!|unreachable!|panic!)\(', s):
                    j = i
                    while not L[j].rstrip().endswith((';', ')')) or (L[j].count('(') < L[j].count(')') and False): j += 1
                    d = 0
                    for j in range(i, min(i + 20, end)):
                        d += L[j].count('(') - L[j].count(')')
                        if d <= 0: break
                    skip_until = j
                    continue
                if not s or s.startswith(('//', '#', 'use ', 'pub use', 'where', 'impl', 'fn ', 'pub fn', 'pub(crate) fn', '"')): continue
                for a, b in OPS:
                    for m in re.finditer(a, l):
                        if '//' in l[:m.start()]: continue
                        nl = l[:m.start()] + m.expand(b) + l[m.end():]
                        o.write(json.dumps(dict(f=r, i=i, old=l, new=nl)) + '\n'); n += 1
                # a statement dropped
                if re.match(r'(self|let _ =|\w+(\.\w+)+(\(| = )|\w+\.\w+ = |\*\w+)', s) and s.endswith(';') and s.count('(') == s.count(')'):
                    o.write(json.dumps(dict(f=r, i=i, old=l, new=re.match(r'\s*', l).group() + '{}')) + '\n'); n += 1
    print(n)
def run(inp, w, n, runs):
    D = f'/tmp/am/w{w}'
    env = dict(os.environ, CARGO_TARGET_DIR=D + '/target', RUSTUP_TOOLCHAIN='nightly-2024-07-02', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='32')
    sh = lambda c, **k: subprocess.run(c, shell=True, env=env, capture_output=True, text=True, errors='replace', **k)
    os.makedirs(D, exist_ok=True)
    if not os.path.isdir(D + '/repo'): sh(f'git clone -q /repo {D}/repo')
    sh(f"git -C {D}/repo checkout -q -- .; git -C {D}/repo pull -q; rsync -rc --exclude target --exclude Cargo.toml /verif/sim/ {D}/sim/; sed 's#../../repo/#{D}/repo/#' /verif/sim/Cargo.toml > {D}/sim/Cargo.toml")
    todo = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists('/tmp/am/res.jsonl'):
        for l in open('/tmp/am/res.jsonl'):
            d = json.loads(l); done.add((d['f'], d['i'], d['new']))
    for k, m in enumerate(todo):
        if k % n != w or (m['f'], m['i'], m['new']) in done: continue
        p = f"{D}/repo/openraft/src/{m['f']}"
        t = open(p).read(); L = t.split('\n')
        assert L[m['i']] == m['old'], m
        L[m['i']] = m['new']
        open(p, 'w').write('\n'.join(L))
        b = sh(f'cd {D}/sim && cargo build --release --offline')
        if b.returncode != 0: res = 'nobuild'
        else:
            try:
                r = sh(f'cd {D} && {D}/target/release/raftsim survey --property all --runs {runs} --seed {random.randrange(1000, 10**6)} --jobs 3', timeout=400)
                v = [re.sub(r'^\s*', '', x)[:160] for x in r.stdout.split('\n') if re.match(r' *\d+ \[', x) and 'own uncommitted membership' not in x]
                res = v[:5] if v else ('quiet' if 'runs in' in r.stdout else 'crash ' + (r.stdout + r.stderr)[-300:])
            except subprocess.TimeoutExpired: res = 'timeout'
        open(p, 'w').write(t)
        with open('/tmp/am/res.jsonl', 'a') as o: o.write(json.dumps(dict(m, res=res)) + '\n')
if sys.argv[1] == 'gen': gen(sys.argv[2])
else: run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
