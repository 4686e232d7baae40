#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)generate /verif/seeded/<ID>/ from tools/seeds/*.py definitions, as diffs against /repo HEAD."""
import os, sys, json, subprocess, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, srcs=(), mesh=False):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, srcs=srcs, mesh=mesh)
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right, nonzero otherwise.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
M=/usr/lib/x86_64-linux-gnu/openmpi
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_plm_rsh_agent=true
g++ -std=c++14 -w -O1 -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY -include "$d/compat.hpp" -I"$PWD/src" -I/usr/include/trilinos -I$M/include -I$M/include/openmpi "$d/demo.cpp" @SRCS@ -o "$t/demo" -ltrilinos_epetra -ltrilinos_kokkoskernels -ltrilinos_kokkosalgorithms -ltrilinos_kokkoscontainers -ltrilinos_kokkoscore -ltrilinos_sacado -ltrilinos_teuchoskokkoscomm -ltrilinos_teuchoskokkoscompat -ltrilinos_teuchosremainder -ltrilinos_teuchosnumerics -ltrilinos_teuchoscomm -ltrilinos_teuchosparameterlist -ltrilinos_teuchosparser -ltrilinos_teuchoscore -L$M/lib -lmpi_cxx -lmpi || exit 3
cd "$t" && timeout 60 ./demo
'''
PRE = '''#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <vector>
#include <Kokkos_Core.hpp>
static int bad=0;
static void near(const char* w,double a,double b,double tol=1e-9){ if(!(std::fabs(a-b)<=tol*(1+std::fabs(b)))){ printf("%s: got %.17g, expected %.17g\\n",w,a,b); bad=1; } }
static void expect(const char* w,bool c){ if(!c){ printf("%s\\n",w); bad=1; } }
'''
POST = '''
int main(int argc,char**argv){ Kokkos::initialize(argc,argv); run(); fflush(stdout); _Exit(bad); }
'''
def main():
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')): exec(compile(open(f).read(), f, 'exec'), dict(seed=seed))
    want = sys.argv[1:] or sorted(SEEDS)
    wt = tempfile.mkdtemp(prefix='seedwt'); shutil.rmtree(wt)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'])
    try:
        for i in want:
            s = SEEDS[i]; subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
            for f, old, new, *nth in s['edits']:
                p = os.path.join(wt, f); t = open(p).read()
                if nth:  # the nth occurrence, from 0
                    a = t.split(old)
                    if len(a) <= nth[0] + 1: print('!!', i, f, 'matches', len(a) - 1); break
                    k = nth[0] + 1; open(p, 'w').write(old.join(a[:k]) + new + old.join(a[k:])); continue
                if t.count(old) != 1: print('!!', i, f, 'matches', t.count(old)); break
                open(p, 'w').write(t.replace(old, new))
            else:
                d = os.path.join(V, 'seeded', i); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', wt, 'diff']).decode())
                sh = DEMO_SH.replace('-I"$PWD/src"', '-I"$d" -I"$d/overlay" -I"$PWD/src"') if s['mesh'] else DEMO_SH
                open(d + '/demo.sh', 'w').write(sh.replace('@SRCS@', ' '.join('"$PWD/%s"' % x for x in s['srcs']))); os.chmod(d + '/demo.sh', 0o755)
                open(d + '/demo.cpp', 'w').write((PRE + '#include "sxmain.hpp"\n' if s['mesh'] else PRE) + s['demo'] + POST)
                if s['mesh']:
                    shutil.copytree(V + '/engine/overlay', d + '/overlay')
                    for h in ('sxmesh', 'sxmat', 'sxell', 'sxcrs', 'sxcrit', 'sxth', 'sxtm', 'sxem', 'sxmass', 'sxtime', 'sxvms', 'sxpl', 'sxsolve', 'sxprob', 'sxtrans', 'sxparab'):
                        if os.path.exists(V + '/harness/%s.hpp' % h): shutil.copy(V + '/harness/%s.hpp' % h, d)
                    shutil.copy(V + '/tools/seeds/sxmain_concrete.hpp', d + '/sxmain.hpp')
                shutil.copy(V + '/engine/compat.hpp', d)
                json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])
main()
