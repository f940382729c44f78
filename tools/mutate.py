#!/usr/bin/env python3
"""usage: mutate.py N SEED [FILE-SUBSTRING]   N small random changes of the library, one after the other, in a scratch
clone; those which compile and pass the existing tests are shown to every check until one objects.
Results: /tmp/mut/results.jsonl. Nothing in /repo or /verif is touched."""
import json, os, random, re, subprocess, sys, time
T = '/tmp/mut'
REPO = T + '/repo'
ROOT = T + '/root'
sh = lambda c, t=900, **k: subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)

def setup():
    os.makedirs(ROOT, exist_ok=True)
    if not os.path.isdir(REPO):
        sh(f'git clone -q /repo {REPO}')
    sh(f'git -C {REPO} checkout -q -- .; git -C {REPO} pull -q')
    os.makedirs(ROOT + '/sim', exist_ok=True)
    sh(f'(cd /verif/sim && tar --exclude=./target -cf - .) | tar -xf - -C {ROOT}/sim')
    sh(f'cp /verif/known_findings.json /verif/properties.jsonl {ROOT}/')
    sh(f"grep -rl '\"/repo/' {ROOT}/sim --include=Cargo.toml --include=Cargo.lock --exclude-dir=target | xargs sed -i 's#\"/repo/#\"{REPO}/#'")

def code_lines(path, text):
    """the lines worth changing: in the derive macro, those inside quote! blocks"""
    lines = text.split('\n')
    ok = set()
    if '/validators-derive/' not in path:
        for i, l in enumerate(lines):
            if '#[cfg(test)]' in l: break
            ok.add(i)
        return ok
    depth = None
    d = 0
    for i, l in enumerate(lines):
        if depth is None and re.search(r'quote!\s*\{', l):
            depth = d
        elif depth is not None:
            ok.add(i)
        d += l.count('{') - l.count('}')
        if depth is not None and d <= depth:
            depth = None
    return ok

def muts(l):
    s = l.strip()
    if not s or s.startswith(('//', '#[', 'use ', 'impl', 'pub fn', 'fn ', 'type ', 'where', 'pub use', 'mod ', 'pub mod', '#![', '///', 'extern')):
        return []
    out = []
    def rep(pat, new, n=0):
        for m in re.finditer(pat, l):
            r = l[:m.start()] + m.expand(new) + l[m.end():]
            if r != l: out.append(r)
    rep(r' < ', ' <= '); rep(r' <= ', ' < '); rep(r' > ', ' >= '); rep(r' >= ', ' > ')
    rep(r' == ', ' != '); rep(r' != ', ' == ')
    rep(r' && ', ' || '); rep(r' \|\| ', ' && ')
    rep(r' \+ 1\b', ''); rep(r' - 1\b', ''); rep(r' \+= 1\b', ' += 2'); rep(r'\.\.=', '..')
    for m in re.finditer(r'(?<![\w.#\'"])(\d{1,5})(?![\w."\'])', l):
        for v in (int(m.group(1)) + 1, int(m.group(1)) - 1):
            if v >= 0: out.append(l[:m.start()] + str(v) + l[m.end():])
    rep(r'\btrue\b', 'false'); rep(r'\bfalse\b', 'true')
    rep(r'if !', 'if '); rep(r'if (?!let|!)(\w)', r'if !\1')
    rep(r'\bbreak\b', 'continue'); rep(r'\bcontinue\b', 'break')
    rep(r'Some\((\w+)\)(?!\s*=)', 'None')
    rep(r'#error_path::(\w+)Must\b', r'#error_path::\1Disallow'); rep(r'#error_path::(\w+)Disallow\b', r'#error_path::\1Must')
    rep(r'::TooLong', '::TooShort') ; rep(r'::TooShort', '::TooLong'); rep(r'::TooLarge', '::TooSmall'); rep(r'::TooSmall', '::TooLarge')
    for m in re.finditer(r"b'(.)'", l):
        out.append(l[:m.start()] + "b'%s'" % chr(ord(m.group(1)) + 1) + l[m.end():]) if m.group(1) not in "\\&~" else None
    rep(r'\.is_ok\(\)', '.is_err()'); rep(r'\.is_some\(\)', '.is_none()'); rep(r'\.is_none\(\)', '.is_some()'); rep(r'\.is_empty\(\)', '.len() <= 1')
    rep(r'\.trim\(\)', ''); rep(r'\.to_lowercase\(\)', '.to_uppercase()'); rep(r'lowercase', 'uppercase'); rep(r'uppercase', 'lowercase')
    rep(r'starts_with', 'ends_with'); rep(r'ends_with', 'starts_with'); rep(r'strip_prefix', 'strip_suffix'); rep(r'\bfind\(', 'rfind('); rep(r'\brfind\(', 'find(')
    rep(r'\.chars\(\)\.count\(\)', '.len()'); rep(r'\bMIN\b', 'MAX'); rep(r'\bu128\b', 'u64'); rep(r'\bi128\b', 'i64'); rep(r'\bf64\b', 'f32'); rep(r' as u64', ' as u32'); rep(r'\bu64\b', 'u32'); rep(r'\bi64\b','i32')
    if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'static', 'const', '}')) and s.count('(') == s.count(')'):
        out.append(re.sub(r'\S.*', '', l) + '{}')
    if s.startswith('return Err(') and s.endswith(');'):
        out.append(re.sub(r'\S.*', '', l) + '{}')
    return [o for o in out if o != l]

def sites(only):
    r = []
    for base in ('validators/src', 'validators-derive/src'):
        for d, _, fs in os.walk(f'{REPO}/{base}'):
            for f in fs:
                p = f'{d}/{f}'
                if f.endswith('.rs') and only in p:
                    t = open(p).read()
                    ok = code_lines(p, t)
                    for i, l in enumerate(t.split('\n')):
                        if i in ok:
                            for m in muts(l):
                                r.append((p, i, l, m))
    return r

ORDER = {'line': 'C01', 'text': 'C01', 'regex': 'C01', 'length': 'C01', 'base': 'C01', 'integer': 'C02', 'number': 'C02', 'boolean': 'C02', 'bit': 'C02', 'byte': 'C02',
         'domain': 'C03', 'host': 'C03', 'ip': 'C03', 'mac': 'C03', 'uuid': 'C03', 'email': 'C04', 'url': 'C04', 'phone': 'C04', 'semver': 'C04', 'json': 'C04', 'result': 'C07', 'errors': 'C12', 'rocket': 'C14', 'axum': 'C14'}
def order(path):
    first = [v for k, v in ORDER.items() if k in path.split('/repo/')[1]]
    all_ = ['C05', 'C09', 'C12', 'C03', 'C04', 'C01', 'C02', 'C07', 'C13', 'C08', 'C06', 'C11', 'C10', 'C14']
    return first[:1] + [p for p in all_ if p not in first[:1]]

RUNS = {'C01': 8000, 'C02': 12000, 'C03': 10000, 'C04': 8000}
def one(path, i, old, new):
    rel = path.split('/repo/')[1]
    t = open(path).read().split('\n')
    assert t[i] == old
    t[i] = new
    open(path, 'w').write('\n'.join(t))
    rec = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip())
    s = time.time()
    try:
        env = f'. /opt/vp/env.sh >/dev/null 2>&1; cd {REPO}; export CARGO_TARGET_DIR={T}/target CARGO_NET_OFFLINE=true; '
        try:
            r = sh(env + 'cargo test --offline --all-features --workspace --no-run', 400)
            if r.returncode: rec['end'] = 'does not compile'; return rec
            r = sh(env + 'timeout 120 cargo test --offline --all-features --workspace', 300)
            if r.returncode: rec['end'] = 'tests'; return rec
            r = sh(f'cd {ROOT}/sim && cargo build -p vsim --offline', 600)
        except subprocess.TimeoutExpired:
            rec['end'] = 'timeout'; return rec
        if r.returncode: rec['end'] = 'sim does not compile'; rec['err'] = r.stderr[-600:]; return rec
        for p in order(path):
            try: os.remove(T + '/stop')
            except FileNotFoundError: pass
            try:
                r = sh(f'cd {ROOT}/sim && VSIM_FAST={T}/stop VSIM_ROOT={ROOT} VSIM_RUNS={RUNS.get(p, 5000)} ./target/debug/vsim check {p}', 600)
            except subprocess.TimeoutExpired:
                rec['end'] = p + ' timeout'; return rec
            if r.returncode:
                rec['end'] = p
                rec['how'] = [l for l in r.stdout.split('\n') if l.startswith('  ')][:1]
                return rec
        rec['end'] = 'SURVIVED'
        return rec
    finally:
        rec['s'] = int(time.time() - s)
        sh(f'git -C {REPO} checkout -q -- .')

if __name__ == '__main__':
    n, seed, only = int(sys.argv[1]), int(sys.argv[2]), (sys.argv[3] if len(sys.argv) > 3 else '')
    setup()
    random.seed(seed)
    by = {}
    for x in sites(only):
        by.setdefault(x[0], []).append(x)
    print(sum(len(v) for v in by.values()), 'possible changes in', len(by), 'files')
    files = list(by)
    for _ in range(n):
        # half of the weight by file, half by size
        f = random.choice(files) if random.random() < .5 else random.choices(files, [len(by[f]) for f in files])[0]
        x = random.choice(by[f])
        rec = one(*x)
        print(json.dumps(rec), flush=True)
        open(T + '/results.jsonl', 'a').write(json.dumps(rec) + '\n')
