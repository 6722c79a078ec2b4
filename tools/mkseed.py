#!/usr/bin/env python3
# mkseed.py ID PROPERTY FILE NEEDS BREAKS PKG  < old/new blocks separated by lines "====" ; several edits by "----"
# makes /verif/seeded/ID/{patch.diff,meta.json,demo.sh}; the demo test is seeded/ID/demo_test.go.txt (written separately)
import sys, json, subprocess, os, tempfile, shutil
sid, prop, fn, needs, breaks, pkg = sys.argv[1:7]
tags = sys.argv[7] if len(sys.argv) > 7 else ''
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
R = tempfile.mkdtemp(prefix='mkseed.')  # edits are made in a scratch clone
subprocess.check_call(['git', 'clone', '-q', '/repo', R])
for ed in sys.stdin.read().split('\n----\n'):
    f = fn
    if ed.startswith('@@'):
        f, ed = ed[2:].split('\n', 1)
    old, new = ed.split('\n====\n')
    old, new = old.strip('\n'), new.strip('\n')
    s = open(R + '/' + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(R + '/' + f, 'w').write(s.replace(old, new))
p = subprocess.check_output(['git', '-C', R, 'diff'])
open(d + '/patch.diff', 'wb').write(p)
shutil.rmtree(R)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
tg = f' -tags {tags}' if tags else ''
cd = ''
rp = pkg
if pkg.startswith('kem/mkem'):
    pass
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0: the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
r=$PWD
printf '{{"Replace": {{"%s/{pkg}/zz_demo_test.go": "%s/demo_test.go"}}}}' "$r" "$here" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1{tg} -run TestDemo ./{pkg}
''')
os.chmod(d + '/demo.sh', 0o755)
