#!/usr/bin/env python3
"""Random small changes of the sources, to find what the checks miss: mutate.py SEED N LOG.
A change that builds, passes the stable tests and changes the outcome of some
source of the corpus of differ.mjs is run through the checks until one
catches it. Needs /repo and /verif to be lab copies (it rewrites /repo)."""
import json, os, random, resource, re, subprocess, sys, time
WORK = os.environ['MUT_WORK']
SRC = '/repo/giron/src/'
FILES = ['parser/syntax.rs'] * 1  + ['parser/parser.rs'] * 12 + ['token/punctuators.rs'] * 1 + ['token/value.rs'] * 1  + ['token/token.rs'] * 1 + ['estree/estree.rs'] * 4 + ['errors/errors.rs'] * 1  + ['lib.rs'] * 1 + ['scanner/scanner.rs'] * 6 + ['scanner/reader.rs'] * 1  + ['codepoint/codepoint.rs'] * 1  + ['span/mod.rs'] * 1 + ['span/span.rs'] * 1
def sh(*cmd, timeout=900, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    class R: returncode = 124; stdout = ''
    try: R.stdout, _ = p.communicate(timeout=timeout); R.returncode = p.returncode
    except subprocess.TimeoutExpired: pass
    try: os.killpg(p.pid, 9)
    except ProcessLookupError: pass
    p.wait()
    return R
KW = ['"let"', '"of"', '"in"', '"async"', '"await"', '"yield"', '"static"', '"get"', '"set"', '"as"', '"from"', '"default"', '"("', '")"', '"{"', '"}"', '"["', '"]"', '","', '";"', '"="', '"..."', '"*"', '":"']
def ops(r, line):
    out = []
    def sub(pat, rep):
        for m in re.finditer(pat, line):
            new = line[:m.start()] + (rep(m) if callable(rep) else rep) + line[m.end():]
            if new != line: out.append(new)
    sub(r'\btrue\b', 'false'); sub(r'\bfalse\b', 'true')
    sub(r'LexGoal::Div', 'LexGoal::RegExp'); sub(r'LexGoal::RegExp', 'LexGoal::Div')
    sub(r'==', '!='); sub(r'!=', '=='); sub(r'&&', '||'); sub(r'\|\|(?! )', '&&'); sub(r' \|\| ', ' && ')
    sub(r' < ', ' <= '); sub(r' > ', ' >= '); sub(r' <= ', ' < '); sub(r' >= ', ' > '); sub(r' \+ 1', ' + 2'); sub(r' - 1', ' - 2'); sub(r'\+= 1', '+= 2'); sub(r'\+= 1', '-= 1')
    sub(r'(?<![=\w])!(?=[a-z])', ''); sub(r'\bif (?=self|this|cp|[a-z])', 'if !'); sub(r'while (?=self|this|[a-z])', 'while !')
    sub(r'\| \'[^|]*?\'(?= \||$| =>)', ''); sub(r'\| "[^|]*?"(?= \||$| =>)', '')
    sub(r'\b\d+\b', lambda m: str(int(m[0]) + r.choice([-1, 1])) if int(m[0]) > 0 else '1')
    sub(r"'\\u\{([0-9A-F]+)\}'", lambda m: "'\\u{%X}'" % (int(m[1], 16) + r.choice([1, 2])))
    sub(r'"[^"]{1,12}"', lambda m: r.choice(KW)); sub(r'"\w+"', lambda m: '"x"')
    sub(r' if [^=]*(?= =>)', ''); sub(r'\bSome\((\w+)\)(?!.*=>)', 'None'); sub(r'Some\(\_\)', 'None')
    sub(r'has_(in|yield|await|return)\b', lambda m: 'has_' + r.choice(['in', 'yield', 'await', 'return'])); sub(r'self\.params\.has_\w+', lambda m: r.choice(['true', 'false']))
    sub(r'with_in\(true, &mut ([\w:]+)\)', lambda m: 'with_in(false, &mut ' + m[1] + ')')
    sub(r'parse_assignment_expr\b', 'parse_expression'); sub(r'parse_expression\b', 'parse_assignment_expr'); sub(r'parse_statement\b', 'parse_stmt_list_item'); sub(r'parse_stmt_list_item\b', 'parse_statement')
    sub(r'parse_unary_expr\b', 'parse_update_expr'); sub(r'parse_lhs_expr\b', 'parse_member_expr'); sub(r'parse_binding_id\b', 'parse_id_ref'); sub(r'\.start\b', '.end'); sub(r'\.end\b', '.start'); sub(r'last_end', 'marker()')
    sub(r'raw\b', 'value'); sub(r'value\b', 'raw'); sub(r'peek\(\)', 'peek2().0'); sub(r'lookahead\((\d)\)', lambda m: 'lookahead(%d)' % (int(m[1]) + 1))
    sub(r'is_id_start', 'is_id_continue'); sub(r'is_id_continue', 'is_id_start'); sub(r'\.clone\(\)', ''); sub(r'ErrorType::\w+', 'ErrorType::UnexpectedEOS')
    s = line.strip()
    if s.endswith(';') and not s.startswith(('let ', 'use ', 'return', 'mod ', 'pub ', '}', ')')) and s.count('(') == s.count(')'): out += [''] * 4
    if re.match(r'^[\w.]+(\(.*\))?\?;$', s): out += [''] * 3
    return out
def mutants(r):
    while True:
        f = r.choice(FILES); lines = open(SRC + f).read().split('\n')
        for cut, l in enumerate(lines):
            if '#[cfg(test)]' in l: lines_n = cut; break
        else: lines_n = len(lines)
        i = r.randrange(lines_n); l = lines[i]
        if l.strip().startswith(('//', '#', 'use ')): continue
        o = ops(r, l)
        k = r.random()
        if k < 0.12 and i + 1 < lines_n:  # swap with the next statement
            a, b = l, lines[i + 1]
            if a.strip().endswith(';') and b.strip().endswith(';') and not a.strip().startswith(('}', 'use', 'return')): yield f, i, a + ' / ' + b, '\n'.join(lines[:i] + [b, a] + lines[i + 2:]), 'swap'; continue
        if k < 0.2:  # remove the next `X => ...,` arm
            m = re.match(r'^(\s*).*=> .*,$', l)
            if m: yield f, i, l, '\n'.join(lines[:i] + lines[i + 1:]), '(arm removed)'; continue
        if not o: continue
        n = r.choice(o)
        yield f, i, l, '\n'.join(lines[:i] + [n] + lines[i + 1:]), n
def main():
    seed, count, log = int(sys.argv[1]), int(sys.argv[2]), open(sys.argv[3], 'a')
    def say(*a):
        print(*a, flush=True); print(*a, file=log, flush=True)
    r = random.Random(seed); g = mutants(r); seen = set(); done = 0; stat = {}
    base = open(WORK + '/base.txt').read().split('\n')
    order = ['C12', 'C16', 'C19', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C13', 'C14', 'C15', 'C17', 'C18', 'C20', 'C22', 'C01', 'C02', 'C03', 'C21']
    env = {**os.environ, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'CARGO_NET_OFFLINE': 'true', 'RUSTUP_TOOLCHAIN': 'stable'}
    while done < count:
        f, i, old, text, new = next(g)
        if (f, i, new) in seen: continue
        seen.add((f, i, new))
        sh('git', '-C', '/repo', 'checkout', '-q', '--', '.')
        open(SRC + f, 'w').write(text)
        try:
            what = f"{f}:{i+1} {old.strip()!r} -> {new.strip()!r}"
            stat['tried'] = stat.get('tried', 0) + 1
            if stat['tried'] % 50 == 0: say('STAT', stat)
            if sh('cargo', 'check', '--offline', '-q', '-p', 'giron', cwd='/repo', env=env).returncode: stat['build'] = stat.get('build', 0) + 1; continue
            t = sh('cargo', 'test', '--workspace', '--offline', '--', '--skip', 'test_static_semantics', cwd='/repo', env=env, timeout=60, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
            if t.returncode: stat['tests'] = stat.get('tests', 0) + 1; continue
            if sh('cargo', 'build', '--release', '--offline', '--locked', '-q', cwd='/verif/driver', env=env).returncode: continue
            done += 1
            d = sh('node', 'tools/differ.mjs', WORK + '/now.txt', cwd='/verif', env=env, timeout=300)
            if d.returncode: diffs = ['(differ failed) ' + d.stdout[-100:].replace('\n', ' ')]
            else:
                now = open(WORK + '/now.txt').read().split('\n'); diffs = sorted((a[13:] for a, b in zip(base, now) if a != b), key=len)
            if not diffs: say('SAME', what); continue
            sample = ' | '.join(x[:60] for x in diffs[:3])
            if len(diffs) > 2000: say('MANY', what, len(diffs)); continue
            caught = []
            for c in order:
                x = sh('node', 'checks/run.mjs', c, 'quick', cwd='/verif', env=env)
                if x.returncode == 1 and 'VIOLATION' in x.stdout: caught.append(c); break
                if x.returncode not in (0, 1): caught.append(f'{c}:rc{x.returncode}')
            say('CAUGHT' if caught else 'MISSED', ','.join(caught), what, len(diffs), sample)
        finally:
            sh('git', '-C', '/repo', 'checkout', '-q', '--', '.')
main()
