"""Compile a driver against /repo's current sources to IR and run the interpreter on its entries."""
import os, re, subprocess, sys, time, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irparse, absint, lin
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def compile_ir(srcs, defs=(), tmp=None, passes='function(sroa,early-cse)'):
    """srcs: driver/repo sources; linked into one module"""
    outs = []
    procs = []
    for i, src in enumerate(srcs):
        o = os.path.join(tmp, 'm%d.ll' % i)
        cmd = ['clang++-18', '-std=c++17', '-fno-access-control', '-fno-threadsafe-statics', '-I' + REPO + '/code/include', '-I' + ROOT + '/drivers',
               '-O1', '-fno-vectorize', '-fno-unroll-loops', '-fno-builtin', '-fno-delete-null-pointer-checks', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w', '-emit-llvm', '-S', '-o', o, src] + ['-D' + d for d in defs]
        procs.append((src, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for src, o, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError('%s does not compile:\n%s' % (src, out[:4000]))
        outs.append(o)
    if len(outs) > 1:
        l = os.path.join(tmp, 'link.ll')
        rc, out = sh(['llvm-link-18', '-S', '-o', l] + outs)
        if rc:
            raise BuildError(out[:3000])
    else:
        l = outs[0]
    f = os.path.join(tmp, 'f.ll')
    rc, out = sh(['opt-18', '-passes=' + passes, '-S', '-o', f, l])
    if rc:
        raise BuildError(out[:3000])
    return irparse.parse_module(open(f).read())


def entries(mod, prefix='chk_'):
    return [n for n in mod.funcs if n.startswith(prefix)]


def analyse(mod, entry, opts=None):
    lin.NAMES.clear()
    lin._ADDR.clear()
    e = absint.Engine(mod, opts)
    t = time.time()
    err = None
    try:
        e.analyze(entry)
    except absint.Unsupported as x:
        err = 'unsupported: %s' % x
    except absint.Budget as x:
        err = 'budget: %s' % x
    except RecursionError as x:
        err = 'recursion'
    e.err = err
    e.wall = time.time() - t
    return e


if __name__ == '__main__':
    src = sys.argv[1].split(',')
    tmp = tempfile.mkdtemp(prefix='vf.')
    m = compile_ir(src, tmp=tmp)
    shutil.rmtree(tmp)
    for en in entries(m, os.environ.get("VFP", "chk_")):
        if len(sys.argv) > 2 and not re.search(sys.argv[2], en):
            continue
        try:
            e = analyse(m, en)
        except Exception:
            import traceback
            traceback.print_exc()
            print('==', en, 'INTERNAL ERROR')
            continue
        print('== %s: %.1fs steps=%d paths=%d forks=%d loops=%d memops=%d oblig=%s reached=%s kills=%s err=%s' % (en, e.wall, e.steps, e.paths, e.nforks, e.loopfix, e.memops, e.oblig, e.reached, e.kills, e.err))
        for v in e.viol:
            print('  VIOL', v['kind'], v['msg'])
            for l in v['loc']:
                print('      at %s:%s %s' % l)
            for l in v['path']:
                print('      |', l)
