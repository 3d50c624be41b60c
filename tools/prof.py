"""dev helper: prof.py SRCS ENTRY [seconds] -- where the analysis of one entry spends its time, and what it is looking at"""
import cProfile, pstats, sys, signal, tempfile, collections
sys.path.insert(0, '/verif/engine')
import runner, absint, lin
tmp = tempfile.mkdtemp(prefix='vf.')
m = runner.compile_ir(sys.argv[1].split(','), tmp=tmp)
lin.NAMES.clear(); lin._ADDR.clear()
e = absint.Engine(m, None)
cnt = collections.Counter()
old = absint.Engine.push_alt
def pa(s, n, atoms, ln, work):
    cnt[(s.cur if hasattr(s, 'cur') else '', ln, n.frames[-1].func.name[-40:])] += 1
    return old(s, n, atoms, ln, work)
absint.Engine.push_alt = pa


def h(*a):
    raise KeyboardInterrupt
signal.signal(signal.SIGALRM, h)
signal.alarm(int(sys.argv[3]) if len(sys.argv) > 3 else 40)
pr = cProfile.Profile()
pr.enable()
try:
    e.analyze(sys.argv[2])
except BaseException as x:
    print(repr(x)[:200])
pr.disable()
print('steps', e.steps, 'paths', e.paths, 'forks', e.nforks, 'loops', e.loopfix)
for k, v in cnt.most_common(14):
    print(v, k[1:])
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
