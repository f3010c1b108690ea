#!/usr/bin/env python3
"""Mutation campaign: small changes of /repo's sources in private copies (user namespace + bind mounts), each run through
the repository's tests and then through the quick checks of the properties that concern the changed file. Survivors point
to gaps of the checks (or are equivalent).
usage: mutate.py list | run N_WORKERS LOG [filter] [sample]"""
import os, random, re, subprocess, sys, threading, queue, json, shutil
REPO, VERIF, W = '/repo', '/verif', '/tmp/mut'
PROPS = {
    'bwt': 'C01 C02 C26 C18 C25', 'count_lexparse': 'C10 C28 C18 C25', 'count_r': 'C14 C28 C26 C18 C25', 'count_runs': 'C14 C18 C25',
    'count_sigma': 'C14 C28 C18 C25', 'count_z': 'C09 C28 C18 C25', 'entropy': 'C13 C28 C26 C18 C25', 'entropy_kmer': 'C13 C28 C26 C18 C25',
    'enumerate': 'C23 C26 C25', 'enumerate_lexparse': 'C10', 'escape': 'C17 C26 C27 C18 C25', 'generator_kmer': 'C23 C25',
    'is_stringattractor': 'C12 C26 C18 C25', 'lyndonfactorization': 'C04 C28 C18 C25', 'lyndonwords': 'C23 C25', 'mtf': 'C16 C27 C18 C25',
    'mus': 'C11 C28 C18 C25', 'randomstring': 'C24 C25 C18', 'reverse': 'C19 C27 C18 C25', 'rle': 'C15 C27 C18 C25', 'word': 'C20 C21 C22 C25',
}
CORE = 'C08 C05 C06 C03 C04 C07 C02 C01 C14 C23 C31 C32 C09 C10 C11 C30'
WORD = 'C20 C21 C22 C06 C29 C32'
IO = 'C30 C18 C25 C04 C19'
OPS = [
    (r'(?<![<=>!-])<(?![<=])(?=\s)', ['<=']), (r'<=', ['<']), (r'(?<![=>-])>(?![>=])(?=\s)', ['>=']), (r'(?<![=])>=', ['>']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']), (r'\+=', ['-=']), (r'-=', ['+=']),
    (r'<<', ['>>']), (r'>>', ['<<']), (r' & ', [' | ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\.\.=', ['..']), (r'\.\.(?![=.])', ['..=']),
    (r'(?<![\w.])(\d+)(?![\w.])', ['+1', '-1']),
    (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\.rev\(\)', ['']), (r'\bif (?!let)', ['if !', 'if true || ', 'if false && ']),
    (r'\busize\b', ['u16', 'u8']), (r'\bu64\b', ['u16']), (r'\bu32\b', ['u16', 'u8']), (r'\bi32\b', ['i16']),
    (r'\bwrite_all\(', ['write(']), (r'\?;', ['.ok();']), (r'\bbreak\b', ['continue']), (r'\bcontinue\b', ['break']),
]
def files():
    out = []
    for d in ('src', 'src/bin'):
        for f in sorted(os.listdir(f'{REPO}/{d}')):
            if f.endswith('.rs') and f != 'lib.rs':
                out.append(f'{d}/{f}')
    return out
def props(f):
    b = os.path.basename(f)[:-3]
    if f == 'src/core.rs': return CORE
    if f == 'src/word.rs': return WORD
    if f == 'src/io.rs': return IO
    return PROPS[b]
def mutants():
    out = []
    for f in files():
        depth_test = False
        for i, l in enumerate(open(f'{REPO}/{f}').read().split('\n')):
            s = l.strip()
            if '#[cfg(test)]' in l or re.match(r'\s*#\[test\]', l): depth_test = True
            if depth_test and re.match(r'^}', l): depth_test = False; continue
            if depth_test: continue
            if not s or s.startswith(('//', '*', '/*', '#', 'use ', 'info!', 'debug!', 'assert', 'debug_assert', 'extern', 'pub mod')): continue
            code = l.split('//')[0]
            # type positions: skip generics by requiring blanks around < and > (regexes do)
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    if code[:m.start()].count('"') % 2: continue
                    for r in reps:
                        if r in ('+1', '-1') and m.re.pattern.startswith('(?<![\\w.])(\\d'):
                            v = int(m.group(0)) + int(r)
                            if v < 0: continue
                            r2 = str(v)
                        else: r2 = r
                        out.append((f, i, code[:m.start()] + r2 + code[m.end():]))
            if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const', 'static', 'type', '}')):
                out.append((f, i, ''))
    return out
def sh(cmd, to, env=None):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=to)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 'timeout', ''
def worker(n, q, log, lock):
    d = f'{W}/w{n}'
    os.makedirs(d, exist_ok=True)
    for src, dst in ((REPO, 'repo'), (VERIF, 'verif')):
        sh(f'rsync -a --delete --exclude harness/target --exclude seeded {src}/ {d}/{dst}/ || (rm -rf {d}/{dst}; cp -a {src} {d}/{dst})', 600)
    ns = lambda c: f"unshare -Urm bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && {c}'"
    while True:
        try: f, i, new = q.get_nowait()
        except queue.Empty: return
        path = f'{d}/repo/{f}'
        orig = open(f'{REPO}/{f}').read()
        ls = orig.split('\n'); old = ls[i]; ls[i] = new
        open(path, 'w').write('\n'.join(ls))
        res, why = None, ''
        rc, o = sh(ns('cd /repo && CARGO_INCREMENTAL=1 cargo build --offline -q 2>&1 | tail -5; exit ${PIPESTATUS[0]}'), 300)
        if rc != 0: res = 'nobuild'
        if not res:
            rc, o = sh(ns('cd /repo && CARGO_INCREMENTAL=1 timeout 120 cargo test --workspace --offline -q -- --test-threads 4 >/dev/null 2>&1'), 200)
            if rc != 0: res = 'testfail'
        if not res:
            res = 'SURVIVED'
            for p in (props(f).split() + (['C32'] if 'bin' in f else [])):
                rc, o = sh(ns(f'cd /verif && VERIF_SEED=1 timeout 300 ./check.sh {p} quick 2>&1'), 320)
                if rc == 1:
                    res = 'killed ' + p; why = next((x for x in o.split('\n') if 'fails:' in x), '')[:150]; break
                if rc != 0:
                    res = f'noanswer {p} rc={rc}'; why = o[-300:].replace('\n', ' | ')
        open(path, 'w').write(orig)
        with lock:
            log.write(json.dumps(dict(res=res, file=f, line=i + 1, old=old.strip(), new=new.strip(), why=why)) + '\n'); log.flush()
if __name__ == '__main__':
    ms = mutants()
    if sys.argv[1] == 'list':
        from collections import Counter
        print(len(ms), Counter(m[0] for m in ms)); sys.exit()
    nw, lp = int(sys.argv[2]), sys.argv[3]
    if len(sys.argv) > 4 and sys.argv[4]: ms = [m for m in ms if re.search(sys.argv[4], m[0])]
    random.Random(7).shuffle(ms)
    if len(sys.argv) > 5: ms = ms[:int(sys.argv[5])]
    done = set()
    if os.path.exists(lp):
        for l in open(lp):
            r = json.loads(l); done.add((r['file'], r['line'], r['new']))
    q = queue.Queue()
    for m in ms:
        if (m[0], m[1] + 1, m[2].strip()) not in done: q.put(m)
    print(q.qsize(), 'mutants'); log = open(lp, 'a'); lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, log, lock)) for k in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
