# fixes.py PROP FILE [--try] < [(old,new,msg)...]: apply each edit to FILE in /repo; without --try commit each as its own fix
import sys, subprocess
prop, f = sys.argv[1:3]; dry = '--try' in sys.argv
for old, new, msg in eval(sys.stdin.read()):
    s = open(f, newline='').read()
    if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    assert s.count(old) == 1, (s.count(old), msg, old)
    open(f, 'w', newline='').write(s.replace(old, new))
    if not dry and msg: print(subprocess.check_output(['bash', '/verif/tools/fix.sh', prop, msg], text=True), end='')
