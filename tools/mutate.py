#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py gen OUT.json [cap per file] | tests OUT.json SLOTS | checks OUT.json SLOTS FRACTION
gen lists small changes of /repo's sources; tests keeps those that build and pass the stable tests;
checks runs the checks on those until one reports a violation. Works on copies in /tmp/mut, never on /repo."""
import re, sys, os, json, subprocess, shutil, random, threading, queue, signal
REPO, WORK = '/repo', '/tmp/mut'
os.environ['VERIF_SEED'] = os.environ.get('VERIF_SEED', '1')
OPS = [
    (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'),
    (r'(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])', lambda m: str(int(m.group(0)) + 1)),
    (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\bif !', 'if '), (r'\bif (?!let|!)', 'if !'),
    (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'\bSome\((?=\w+\))', lambda m: 'None.or('),
    (r'\.clone\(\)', None), (r'\boffset\b', 'length'), (r'\blength\b', 'offset'), (r'\.start\(\)', ''),
    (r'\.is_empty\(\)', '.len() == 1'), (r'\.unwrap_or\((\w+)\)', None),
    (r'\bold_indent\b', 'indent_settings.indent'), (r'\bnew_range\b', 'range'), (r'\bindent\b', 'tab_spaces'),
    (r'\bnext_offset\(\)', 'offset'), (r'\ballow_(\w+): \w+', None), (r'\bany_characters\b', 'tag'),
    (r'\bErr\(err\) =>', 'Err(err) if false =>'), (r'\bunwrap_or\(0\)', 'unwrap_or(1)'),
    (r"'([^'\\])'", lambda m: "'%s'" % ('z' if m.group(1) != 'z' else 'y')),
    (r'"([^"\\]+)"', lambda m: '"%s"' % (m.group(1) + 'q')),
    (r'\binverted\b', '(!inverted)'), (r'\bopt_error\b', 'None'), (r'\bstate\.clone\(\)', 'TokenizerState::new()'),
    (r'^(\s*)(?!let|return|use|mod|type|pub|extern)([\w.*\[\]&]+(\(|\.| [+-]?= ).*;)$', lambda m: m.group(1) + '{}'),
    (r'\|= ', '&= '), (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'\.rfind\(', '.find('), (r'\.last\(\)', '.first()'),
    (r'\.first\(\)', '.last()'), (r'\.rev\(\)', ''), (r'\.find\(', '.rfind('), (r'trim_end', 'trim_start'), (r'trim_start', 'trim_end'),
    (r'\.len\(\)', '.len().saturating_sub(1)'), (r'\.chars\(\)', '.chars().skip(1)'), (r'\bis_whitespace\b', 'is_alphanumeric'),
]
LOCK = threading.Lock()
def sh(cmd, cwd, timeout=900):
    with subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True) as p:
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return 124, ''
def gen(out, cap):
    files = subprocess.run('git ls-files src assets', cwd=REPO, shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
    ms = []
    for f in files:
        if not f.endswith('.rs') or f.endswith('verif.rs'): continue
        lines = open(f'{REPO}/{f}').read().split('\n')
        mine = []
        for i, l in enumerate(lines):
            if l.strip().startswith('#[cfg(test)]') and i + 1 < len(lines) and 'mod' in lines[i + 1]: break
            if l.strip().startswith('//') or not l.strip() or l.strip().startswith('#[') or 'piston_meta_verif' in l or l.strip().startswith('use '): continue
            for pat, rep in OPS:
                if rep is None: continue
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():]
                    if pat.startswith('^'): new = rep(m)
                    if new != l: mine.append({'file': f, 'line': i, 'old': l, 'new': new})
        random.Random(f).shuffle(mine)
        ms += mine[:cap if f.endswith('/rules.rs') else 10**9]
        print(f, len(mine))
    json.dump(ms, open(out, 'w'), indent=0)
    print(len(ms))
def slots(ms, n, prepare, work):
    q = queue.Queue()
    for m in ms: q.put(m)
    def loop(k):
        d = prepare(k)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            p = f'{d}/repo/{m["file"]}'
            orig = open(p).read()
            ls = orig.split('\n')
            assert ls[m['line']] == m['old'], m
            ls[m['line']] = m['new']
            open(p, 'w').write('\n'.join(ls))
            try: work(d, m)
            finally: open(p, 'w').write(orig)
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
def copy(k):
    d = f'{WORK}/s{k}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f'cp -a {REPO} {d}/repo', '/')
    return d
def tests(out, n):
    ms = json.load(open(out))
    stable = set(map(str, json.load(open('/opt/vp/BASELINE.json')).get('stable', []))) if False else None
    def work(d, m):
        rc, o = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/repo/target; for m in $MANIFESTS; do cargo test --manifest-path %s/repo/${m#/repo/} --no-fail-fast --offline -- --test-threads 4 || exit 1; done' % (d, d), d + '/repo', 120)
        m['tests'] = 'pass' if rc == 0 else ('hang' if rc == 124 else ('build' if 'could not compile' in o else 'fail'))
    slots([m for m in ms if 'tests' not in m], n, copy, work)
    json.dump(ms, open(out, 'w'), indent=0)
    c = {}
    for m in ms: c[m['tests']] = c.get(m['tests'], 0) + 1
    print(c)
ORDER = {
 'convert': 'C06 C13 C14 C07 C09', 'rules.rs': 'C08 C06 C12 C07 C09 C01', 'json': 'C10', 'parse_error': 'C11 C12', 'parse_error_handler': 'C11',
 'optimize': 'C05 C20', 'fast_select': 'C05 C04 C24', 'lines': 'C18 C19 C12', 'number': 'C16 C12', 'text': 'C17', 'search': 'C15', 'separate_by': 'C21 C01 C04 C03',
 'select': 'C01 C04 C24', 'src/lib.rs': 'C01 C25 C04 C23', 'node': 'C02 C03 C04', 'tag': 'C01 C02 C04', 'until': 'C01 C03 C02 C04', 'not': 'C01 C04',
}
def checks(out, n, frac, only):
    ms = json.load(open(out))
    man = json.load(open('/verif/MANIFEST.json'))
    ids = [c['property'] if 'property' in c else c['property_id'] for c in man['checks']]
    def prepare(k):
        d = copy(k)
        sh(f'mkdir {d}/verif; cp -a /verif/harness /verif/run.sh /verif/known-findings.txt /verif/target {d}/verif/; sed -i "s#/repo#{d}/repo#g" {d}/verif/run.sh {d}/verif/harness/Cargo.toml', '/')
        sh(f'sed -i "s/^debug = 1/debug = 0/; s/^incremental = false/incremental = true/; s/^codegen-units.*/codegen-units = 32/" {d}/verif/harness/Cargo.toml', '/')
        rc, o = sh('./run.sh build', d + '/verif')
        print(d, rc, o[-300:], flush=True)
        return d
    def work(d, m):
        first = ''
        for k, v in ORDER.items():
            if k in m['file']: first = v
        order = first.split() + [i for i in 'C01 C02 C04 C03 C05 C06 C18 C19 C20 C21 C24'.split()] + ids
        seen = []
        m['caught'] = None
        for p in order:
            if p in seen: continue
            seen.append(p)
            rc, o = sh(f'HARNESS_FRACTION={frac} timeout 600 ./run.sh check {p} quick', d + '/verif')
            if rc == 1 and 'VIOLATION' in o: m['caught'] = p; break
            if rc != 0: m['odd'] = m.get('odd', '') + f' {p}:{rc}'; 
            if rc == 2 and 'could not compile' in o: m['caught'] = 'nobuild'; break
        with LOCK: json.dump(ms, open(out, 'w'), indent=0)
        print(m['caught'] or 'SURVIVES', m['file'], m['line'] + 1, m['old'].strip(), '=>', m['new'].strip(), m.get('odd', ''), flush=True)
    todo = [m for m in ms if m.get('tests') == 'pass' and (m.get('caught') is None if only else 'caught' not in m)]
    slots(todo, n, prepare, work)
    json.dump(ms, open(out, 'w'), indent=0)
    print(len(todo), 'run,', sum(1 for m in todo if not m['caught']), 'survive')
if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'gen': gen(a[2], int(a[3]) if len(a) > 3 else 10**9)
    if a[1] == 'tests': tests(a[2], int(a[3]))
    if a[1] == 'checks': checks(a[2], int(a[3]), a[4], len(a) > 5)
