"""Type-level rules: programs that must (or must not) compile against the current headers.

Every rejected program has an accepted twin that differs only in the construct under test, so that a failure to compile for
another reason (a broken header, a renamed member) is an error of the analysis and not a pass."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
CXX = 'clang++-18'


def cc(repo, tmp, name, code, flags=()):
    f = os.path.join(tmp, re.sub(r'\W', '_', name) + '.cc')
    open(f, 'w').write(code)
    r = subprocess.run([CXX, '-std=c++17', '-fsyntax-only', '-w', '-ferror-limit=20', '-I' + os.path.join(repo, 'code/include')] + list(flags) + [f], capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def errs(out):
    r = []
    for l in out.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            r.append((m.group(1), int(m.group(2)), m.group(3)))
    return r


def rule(name, prelude, must=(), mustnot=(), what=''):
    """must: [(name, code)]; mustnot: [(name, bad code, accepted twin)]"""
    def run(repo, tmp, tier):
        viol, er = [], []
        jobs = []
        for n, c in must:
            jobs.append(('must', n, c, None))
        for n, bad, good in mustnot:
            jobs.append(('not', n, bad, good))

        def one(j):
            k, n, a, b = j
            d = os.path.join(tmp, re.sub(r'\W', '_', name + n))
            os.makedirs(d, exist_ok=True)
            ok, out = cc(repo, d, n, prelude + '\n' + a)
            ok2, out2 = (True, '') if b is None else cc(repo, d, n + '_twin', prelude + '\n' + b)
            return j, ok, out, ok2, out2
        base, bout = cc(repo, tmp, name + '_prelude', prelude)
        if not base:
            er.append('rule %s: the headers do not compile: %s' % (name, bout[:600]))
        else:
            with ThreadPoolExecutor(8) as ex:
                for (k, n, a, b), ok, out, ok2, out2 in ex.map(one, jobs):
                    loc = [[p.replace(repo + '/', ''), l, m] for p, l, m in errs(out)][:6]
                    if k == 'must' and not ok:
                        viol.append(dict(kind='rule', rule=name, entry=n, msg='must compile: ' + n, loc=loc or [['?', 0, out[:200]]]))
                    if k == 'not':
                        if not ok2:
                            er.append('rule %s: the accepted twin of %s does not compile: %s' % (name, n, out2[:500]))
                        elif ok:
                            viol.append(dict(kind='rule', rule=name, entry=n, msg='must be rejected: ' + n, loc=[['witness', 0, a.strip()[-160:]]]))
        return dict(rule=name, what=what, instances=len(must) + len(mustnot), must_compile=[m[0] for m in must], must_be_rejected=[m[0] for m in mustnot], viol=viol, errors=er)
    run.__name__ = name
    return run
