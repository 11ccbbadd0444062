# mkseed.py < spec: spec = dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text (main returns 0 if fine)); writes /verif/seeded/<id>
import sys, os, json, subprocess
spec = eval(sys.stdin.read())
for s in spec if isinstance(spec, list) else [spec]:
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True); base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[-1]
    files = sorted({e[0] for e in s['edits']}); w = '/tmp/mkseed'; subprocess.run(['rm', '-rf', '/tmp/mkseed']); subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, o, n in s['edits']:
        t = open(f'{w}/{f}', newline='').read()
        if '\r\n' in t: o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
        assert t.count(o) == 1, (s['id'], t.count(o), o); open(f'{w}/{f}', 'w', newline='').write(t.replace(o, n))
    diff = subprocess.check_output(['git', '-C', w, 'diff']); open(d + '/patch.diff', 'wb').write(diff)
    orig = tot = 0; old = []; cur = None; ln = 0
    import re
    for l in diff.decode().split('\n'):
        if l.startswith('--- a/'): cur = l[6:].strip()
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l)[1])
        elif l.startswith('-') and not l.startswith('---'): old.append((cur, ln)); ln += 1
        elif l.startswith(' '): ln += 1
    for f, k in old:
        b = subprocess.check_output(['git', '-C', w, 'blame', '-s', '-l', '-L', f'{k},{k}', 'HEAD', '--', f], text=True).split()[0].lstrip('^'); tot += 1; orig += base.startswith(b)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo: builds demo.cpp against the current tree in a scratch folder and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++ -std=c++20 -O1 -w -include optional -include iostream -I. "$d/demo.cpp" $(find geomc -name '*.cpp') -o "$t/demo" || exit 3
timeout 100 "$t/demo"
'''); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'], f'{orig}/{tot} changed lines are original')
subprocess.run(['rm', '-rf', '/tmp/mkseed'])
