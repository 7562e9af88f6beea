#!/usr/bin/env python3
"""Mutation sweep: small textual changes to the library's non-test code, each judged first by
the simulations (a fraction of the quick budget), then, if none objects, by the repository's
own tests. What survives both is a gap to look at (or an equivalent change).

  mutate.py gen OUT.jsonl [file...]         list mutants
  mutate.py run IN.jsonl OUT.jsonl N [K]    judge a random sample of N with K workers (in /tmp/mut)
"""
import json, os, random, re, shutil, subprocess, sys, time, threading, queue, fnmatch

REPO = '/repo'
MAP = [
    ('src/body.rs', 'C01 C03 C04 C05 C02 C06 C07 C17 C13 C21'),
    ('src/request.rs', 'C19 C18 C25 C06 C14 C08 C01 C02 C04 C13 C20 C23 C17'),
    ('src/response.rs', 'C19 C06 C14 C08 C09 C01 C02 C04 C13 C20 C23 C17'),
    ('src/trailers.rs', 'C08 C14'),
    ('src/upgrade/*', 'C09 C10'),
    ('src/headers/header_value.rs', 'C27 C14 C13 C16 C15 C20'),
    ('src/headers/*', 'C14 C13 C27 C16 C15 C08 C20'),
    ('src/hyperium_http.rs', 'C13 C25'),
    ('src/trace/trace_context.rs', 'C12 C15'),
    ('src/trace/*', 'C16 C15'),
    ('src/utils/date.rs', 'C11 C15'),
    ('src/utils/mod.rs', 'C22 C16 C15'),
    ('src/other/date.rs', 'C11 C15'),
    ('src/other/retry_after.rs', 'C11 C15'),
    ('src/other/expect.rs', 'C20 C15'),
    ('src/cache/age.rs', 'C20 C15 C11'),
    ('src/cache/expires.rs', 'C11 C15'),
    ('src/conditional/*since.rs', 'C11 C15'),
    ('src/conditional/last_modified.rs', 'C11 C15'),
    ('src/conditional/etag.rs', 'C20 C16 C15'),
    ('src/mime/*', 'C24 C16 C06 C07 C15 C04 C22'),
    ('src/method.rs', 'C23 C13 C16'),
    ('src/version.rs', 'C23 C13'),
    ('src/status_code.rs', 'C23 C13 C04'),
    ('src/status.rs', 'C21 C04'),
    ('src/error.rs', 'C21 C04 C03 C12'),
    ('src/extensions.rs', 'C19'),
    ('src/server/*', 'C16 C15'),
    ('src/proxies/*', 'C18 C16 C15'),
    ('src/security/mod.rs', 'C26 C16'),
    ('src/security/*', 'C16 C26 C15 C11'),
    ('src/cache/*', 'C16 C15 C11'),
    ('src/conditional/*', 'C16 C15 C11'),
    ('src/content/content*', 'C20 C15 C24'),
    ('src/content/*', 'C22 C16 C15 C20'),
    ('src/transfer/transfer*', 'C20 C15'),
    ('src/transfer/*', 'C22 C16 C15 C20'),
    ('src/auth/*', 'C20 C15 C16'),
    ('src/other/*', 'C20 C15 C16'),
    ('src/parse_utils.rs', 'C16 C15 C18 C22 C20'),
    ('src/macros.rs', 'C21 C20 C15 C16 C14'),
]
def props(f):
    for pat, p in MAP:
        if fnmatch.fnmatch(f, pat):
            return p.split()
    return []

SWAPS = [
    (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
    (r' < ', ' > '), (r' > ', ' < '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '),
    (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \+= ', ' = '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'),
    (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'!(?=[a-z(])(?<!\w!)', ''), (r'\.trim\(\)', ''), (r'\.trim_start\(\)', ''),
    (r'\.trim_end\(\)', ''), (r'\.rev\(\)', ''), (r'\.to_ascii_lowercase\(\)', '.to_owned()'), (r'\.to_lowercase\(\)', '.to_owned()'),
    (r'\.last\(\)', '.first()'), (r'\.first\(\)', '.last()'), (r'\.next\(\)', '.last()'), (r'\.all\(', '.any('), (r'\.any\(', '.all('),
    (r'eq_ignore_ascii_case\(([^()]*)\)', r'eq(\1)'), (r'\.skip_while\(', '.take_while('), (r'\.take_while\(', '.skip_while('),
    (r'\.starts_with\(', '.ends_with('), (r'\.ends_with\(', '.starts_with('), (r'\.insert\(', '.append('), (r'\.append\(', '.insert('),
    (r'checked_add', 'saturating_add'), (r'checked_sub', 'saturating_sub'), (r'saturating_sub', 'wrapping_sub'),
    (r'\.\.=', '..'), (r'\.find\(', '.rfind('), (r'\.rfind\(', '.find('), (r'\.splitn\(', '.rsplitn('), (r'\.position\(', '.rposition('),
    (r'None =>', 'None if false =>'), (r'\?;', '.ok();'), (r'Some\(([a-z_]+)\)$', 'None'),
    (r'\bOk\(None\)', 'Ok(Some(Default::default()))'), (r'return Ok\(None\)', 'return Err(crate::Error::from_str(400, "x"))'),
    (r'\bBadRequest\b', 'InternalServerError'), (r'\b400\b', '500'),
    (r'\.take\(\)', '.clone()'), (r'\.push\(', '.insert(0, '), (r'\.pop\(\)', '.first().cloned()'),
    (r'BYTE_STREAM', 'PLAIN'), (r'\.nth\((\d)\)', r'.nth(\1 + 1)'), (r'Poll::Ready\(Ok\(0\)\)', 'Poll::Pending'),
    (r'\.filter\(.*?\)\)?$', ''), (r'\.swap_remove\(', '.remove('), (r'\.contains\(', '.ends_with('),
]
def mutants(path):
    src = open(os.path.join(REPO, path)).read().split('\n')
    out = []
    for n, l in enumerate(src):
        if l.strip().startswith(('#[cfg(test)]', '#[test]')):
            break
        t = l.strip()
        if not t or t.startswith(('//', '#[', '#!', 'use ', 'pub use', 'mod ', 'pub mod', 'pub(crate) use')):
            continue
        code = l.split(' // ')[0]
        is_sig = re.match(r'\s*(pub(\([a-z]+\))? )?(async )?(const )?(fn|struct|enum|impl|trait|type)\b', code)
        # outside of string literals where simple
        def spans(pat):
            for m in re.finditer(pat, code):
                yield m
        seen = set()
        def add(new, what):
            if new != l and new not in seen:
                seen.add(new)
                out.append({'file': path, 'line': n + 1, 'old': l, 'new': new, 'what': what})
        if is_sig:
            continue
        for pat, rep in SWAPS:
            for m in spans(pat):
                add(code[:m.start()] + m.expand(rep) + code[m.end():], f'{m.group(0).strip()} -> {rep.strip()}')
        for m in spans(r'(?<![\w.#])(\d[\d_]*)(?![\w.])'):
            v = int(m.group(1).replace('_', ''))
            for w in (v + 1, v - 1):
                if w >= 0:
                    add(code[:m.start()] + str(w) + code[m.end():], f'{v} -> {w}')
        for m in spans(r'"((?:[^"\\]|\\.)+)"'):
            s = m.group(1)
            if re.fullmatch(r'[ -~]+', s) and not re.search(r'bail!|ensure!|ensure_eq!|format_err!|new_adhoc', code) and 'expect' not in code and 'panic' not in code and 'unwrap' not in code:
                c = s[:-1] if len(s) > 1 and s[-2] != '\\' else s + 'x'
                if '{' not in s:
                    add(code[:m.start()] + '"' + c + '"' + code[m.end():], 'string')
        for m in spans(r"'(.)'"):
            add(code[:m.start()] + "'" + ('!' if m.group(1) != '!' else '#') + "'" + code[m.end():], 'char')
        if re.match(r'\s*if .*\{$', code) and ' let ' not in code:
            c = re.sub(r'if .*\{$', 'if true {', code); add(c, 'if true')
            c = re.sub(r'if .*\{$', 'if false {', code); add(c, 'if false')
        if re.match(r'\s*\} else if .*\{$', code) and ' let ' not in code:
            add(re.sub(r'if .*\{$', 'if false {', code), 'else if false')
        if re.match(r'\s*while .*\{$', code) and ' let ' not in code:
            add(re.sub(r'while .*\{$', 'while false {', code), 'while false')
        if t.endswith(';') and not t.startswith(('let ', 'return', 'pub ', 'const ', '}', ')', '.', 'static ', 'type ')):
            # whole statement on one line: delete it
            if code.count('(') == code.count(')'):
                add('', 'delete statement')
        if t in ('break;', 'continue;'):
            add('', 'delete ' + t)
            add(l.replace('continue;', 'break;') if 'continue' in l else l.replace('break;', 'continue;'), 'loop')
        if re.match(r'\s*("[^"]+"|[A-Z]\w*(::\w+)*(\(.*?\))?|b?\'.\'|\d+) =>.*,$', code) and code.count('(') == code.count(')') and code.count('{') == code.count('}'):
            add('', 'delete match arm')
    return out

def gen(out, files):
    if not files:
        files = subprocess.check_output(['git', '-C', REPO, 'ls-files', 'src'], text=True).split()
    n = 0
    with open(out, 'w') as f:
        for p in files:
            if not props(p):
                continue
            for m in mutants(p):
                f.write(json.dumps(m) + '\n'); n += 1
    print(n, 'mutants')

ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', VERIF_NO_MINIMISE='1', VERIF_SEED='7',
           PATH='/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin')
COUNTS = dict(C01=25000, C02=20000, C03=18000, C04=20000, C05=18000, C06=25000, C07=12000, C08=20000, C09=15000, C10=14000,
              C11=15000, C12=25000, C13=20000, C14=6000, C15=20000, C16=12000, C17=25000, C18=20000, C19=15000, C20=20000, C21=20000, C22=20000, C23=20000, C24=20000, C25=15000, C26=20000, C27=20000)
def sh(cmd, cwd, env, timeout, out=None):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate()
            return 'timeout', ''
    except OSError as e:
        return 'oserror', str(e)
class W:
    def __init__(self, k):
        self.d = f'/tmp/mut/w{k}'
        if os.path.isdir(self.d):
            shutil.rmtree(self.d)
        os.makedirs(self.d)
        subprocess.check_call(['git', 'clone', '-q', REPO, self.d + '/repo'])
        shutil.copy(REPO + '/Cargo.lock', self.d + '/repo/Cargo.lock') if os.path.exists(REPO + '/Cargo.lock') else None
        shutil.copytree('/verif/sim', self.d + '/sim')
        shutil.copy('/verif/known-findings.txt', self.d)
        p = self.d + '/sim/Cargo.toml'
        s = open(p).read().replace('path = "/repo"', f'path = "{self.d}/repo"')
        open(p, 'w').write(s)
        self.simenv = dict(ENV, CARGO_TARGET_DIR=self.d + '/st', VERIF_ROOT=self.d, CARGO_BUILD_JOBS='4', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_INCREMENTAL='true')
        self.tenv = dict(ENV, CARGO_TARGET_DIR=self.d + '/rt', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_BUILD_JOBS='3')
        rc, o = sh(['cargo', 'build', '--release', '--offline', '--locked'], self.d + '/sim', self.simenv, 900)
        assert rc == 0, o
    def tests(self):
        rc, o = sh(['cargo', 'test', '--workspace', '--features', 'hyperium_http,unstable', '--offline', '--no-fail-fast', '--lib', '--tests', '--', '--test-threads', '4'], self.d + '/repo', self.tenv, 400)
        if rc != 0:
            return rc
        rc, o = sh(['cargo', 'test', '--workspace', '--features', 'hyperium_http,unstable', '--offline', '--doc', '--', '--test-threads', '4'], self.d + '/repo', self.tenv, 400)
        return rc
    def judge(self, m):
        f = self.d + '/repo/' + m['file']
        orig = open(f).read()
        ls = orig.split('\n')
        assert ls[m['line'] - 1] == m['old'], m
        ls[m['line'] - 1] = m['new']
        open(f, 'w').write('\n'.join(ls))
        try:
            rc, o = sh(['cargo', 'check', '--features', 'hyperium_http,unstable', '--offline', '--lib'], self.d + '/repo', self.tenv, 300)
            if rc != 0:
                return 'nobuild', ''
            rc, o = sh(['cargo', 'build', '--release', '--offline', '--locked'], self.d + '/sim', self.simenv, 600)
            if rc != 0:
                return 'nobuild-sim', o[-300:]
            for p in props(m['file']):
                rc, o = sh([self.d + '/st/release/simcheck', 'worker', p, '7', '0', '1', str(COUNTS[p]), '60'], self.d, self.simenv, 100)
                if rc != 0:
                    return 'caught', f'{p} exit {rc}'
                v = [x for x in o.split('\n') if x.startswith('V ')]
                if v:
                    v = json.loads(v[0][2:])
                    return 'caught', f"{p} {v['class']} run {v['index']}"
            rc = self.tests()
            return ('tests', '') if rc != 0 else ('SURVIVED', '')
        finally:
            open(f, 'w').write(orig)

def run(inp, out, n, k):
    ms = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    ms = [m for m in ms if (m['file'], m['line'], m['new']) not in done][:n]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    def loop(i):
        w = W(i)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            t = time.time()
            try:
                r, d = w.judge(m)
            except Exception as e:
                r, d = 'error', repr(e)[:200]
            with lock:
                with open(out, 'a') as f:
                    f.write(json.dumps(dict(m, result=r, detail=d, secs=round(time.time() - t, 1))) + '\n')
    ts = [threading.Thread(target=loop, args=(i,)) for i in range(k)]
    [t.start() for t in ts]; [t.join() for t in ts]

if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]) if len(sys.argv) > 5 else 4)
