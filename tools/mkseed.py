#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY GROUP < demo body on stdin is demo.cpp; the patch is taken from the
scratch tree given by SEED_TREE (default /tmp/seedrepo).  Copies a self-contained kit beside it."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
def kit(sid, group, cpp, harness='demo', inp=None):
    d = '%s/seeded/%s' % (V, sid)
    os.makedirs(d, exist_ok=True)
    k = d + '/kit'
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k)
    shutil.copytree(V + '/stubs', k + '/stubs', ignore=shutil.ignore_patterns('__pycache__'))
    for f in glob.glob(V + '/harness/*.hpp') + [V + '/harness/sim.cpp', V + '/harness/sim.syms']:
        shutil.copy(f, k)
    for f in ('sym.h', 'replay.cpp'):
        shutil.copy(V + '/engine/' + f, k)
    open(d + '/demo.cpp', 'w').write(cpp)
    G = check.GROUPS[group]
    helpers = [f for f in G['harness'] if 'SYM_HARNESS(' not in open(V + '/' + f).read() and not f.endswith('/sim.cpp')]
    for f in helpers:
        shutil.copy(V + '/' + f, k)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Compiles the real sources of the working tree in the current directory with demo.cpp (stand-ins for ROS in kit/).
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
python3 "$D/kit/stubs/gen.py" "$R" "$T/gen" || exit 2
I="-I$D/kit -I$D/kit/stubs/include -I$T/gen %s -isystem /usr/include/urdfdom"
F="-std=c++20 -O0 -w -ffp-contract=off -DVERIF_SYM=1 -DVERIF_REPLAY=1 -pthread"
i=0
for s in %s "$D/demo.cpp"%s "$D/kit/sim.cpp" "$D/kit/replay.cpp"; do
  i=$((i+1))
  ( clang++ $F $I -c "$s" -o "$T/$i.o" && objcopy --redefine-syms="$D/kit/sim.syms" "$T/$i.o" ) &
done
wait
clang++ "$T"/*.o %s -lpthread -o "$T/demo" || exit 2
: > "$T/empty"
cd "$T" && timeout 120 ./demo %s "%s"
''' % (' '.join('-I$R/%s/include' % p for p in check.PKGS), ' '.join('"$R/%s"' % s for s in G['repo']), ''.join(' "$D/kit/%s"' % os.path.basename(f) for f in helpers), ' '.join(G.get('libs', [])), harness, '$D/input' if inp else '$T/empty'))
    if inp:
        shutil.copy(inp, d + '/input')
    os.chmod(d + '/demo.sh', 0o755)
    return d
if __name__ == '__main__':
    if sys.argv[1] == '--found':
        # --found DIR ID NEEDS BREAKS: DIR has patch.diff, prop, and the input HARNESS.N.input that shows the failure
        _, _, src, sid, needs, breaks = sys.argv
        prop = open(src + '/prop').read().strip()
        inp = sorted(glob.glob(src + '/*.input'))[0]
        h = os.path.basename(inp).split('.')[0]
        group = [r['g'] for r in check.PROPS[prop]['runs'] if r['h'] == h][0]
        cpp = [f for f in check.GROUPS[group]['harness'] if __import__('re').search(r'\b%s\b' % h, open(V + '/' + f).read())]
        d = kit(sid, group, open(V + '/' + cpp[0]).read(), h, inp)
        shutil.copy(src + '/patch.diff', d)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        sys.exit(0)
    sid, prop, group, needs, breaks = sys.argv[1:6]
    tree = os.environ.get('SEED_TREE', '/tmp/seedrepo')
    diff = subprocess.run(['git', '-C', tree, 'diff', '--no-color'], stdout=subprocess.PIPE, text=True).stdout
    assert diff.strip(), 'no change in ' + tree
    d = kit(sid, group, sys.stdin.read())
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
