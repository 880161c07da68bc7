"""Development tool: mkseed.py FILE... where FILE defines
id, property, needs, breaks, edits=[(path, old, new)], demo (C++ main body or whole program).
Writes seeded/<id>/ after checking in a scratch copy that it applies; see tools/seedtest.sh."""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for fn in sys.argv[1:]:
    ns = {}
    exec(open(fn).read(), ns)
    t = tempfile.mkdtemp()
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % t, shell=True, check=True)
        subprocess.run('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % t, shell=True, check=True)
        for path, old, new in ns['edits']:
            p = os.path.join(t, path)
            s = open(p).read()
            if old not in s:
                sys.exit('%s: text not found in %s:\n%s' % (fn, path, old))
            n = ns.get('count', 1)
            if n != 'all' and s.count(old) != 1:
                sys.stderr.write('%s: %d occurrences, first is replaced\n' % (fn, s.count(old)))
            s = s.replace(old, new) if n == 'all' else s.replace(old, new, 1)
            open(p, 'w').write(s)
        d = os.path.join(H, 'seeded', ns['id'])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run('git diff', shell=True, cwd=t, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(t)
    demo = ns['demo']
    if 'int main' not in demo:
        demo = '#define STANDALONE_ETR\n#include "include/etr.hpp"\n#include <cstdio>\nusing namespace etr;\n' + ns.get('pre', '') + 'int main() {\n' + demo + '\n  return 0;\n}\n'
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# Compiles demo.cpp against the headers in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
g++ -std=c++20 -g %s-I "$PWD" "$here/demo.cpp" -o "$out/demo" || exit 2
cd "$out" && timeout 60 ./demo
''' % ns.get('flags', ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', ns['id'])
