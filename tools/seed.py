"""Create and confirm a planted bug in a scratch clone (/tmp/w/wt, never /repo).
mk(id, prop, edits=[(file, old, new)...], demo=C++ text of main(), sources=[...], needs=, breaks=)"""
import os, sys, json, subprocess, shutil
WT = '/tmp/w/wt'
SEEDED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# cwd: /repo. Compiles demo.cpp with the repository's sources in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo_XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
flags="-std=c++17 -O1 -w -include cstdint -I/opt/vp/deps/rapidjson-shim -I$repo/source -fno-access-control"
pids=()
objs=()
for s in "$here/demo.cpp" %s; do
  o="$d/$(echo "$s" | md5sum | cut -c1-12).o"
  objs+=("$o")
  g++ $flags -DJSON_SCHEMA_PATH="\\"$d\\"" -c "$s" -o "$o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 98; done
g++ "${objs[@]}" -o "$d/demo" -lstdc++fs || exit 98
cd "$d" && timeout 60 ./demo
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def reset():
    sh('git fetch -q origin && git reset -q --hard origin/HEAD && git checkout -q -- .', WT)


def mk(id, prop, edits, demo, sources, needs, breaks, check=True, force=False, test=True):
    d = os.path.join(SEEDED, id)
    if os.path.exists(os.path.join(d, 'meta.json')) and not force:
        print(id, 'exists')
        return
    reset()
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.path.join(WT, f)
            s = open(p).read()
            assert s.count(old) == 1, '%s: %d matches of %r in %s' % (id, s.count(old), old[:60], f)
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', 'diff'], cwd=WT, capture_output=True, text=True).stdout
        assert patch.strip()
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % ' '.join('source/' + s for s in sources))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        rc, out = sh('bash %s/demo.sh' % d, WT)
        assert rc not in (0, 98, 99), '%s: demo passes with the change (rc %d) %s' % (id, rc, out[-600:])
        print(id, 'demo with change: rc', rc, out[-150:].strip().replace('\n', ' | '))
        if test:
            rc, out = sh('bash /tmp/w/test_wt.sh /tmp/w/owt.json')
            r = json.load(open('/tmp/w/owt.json'))
            assert len(r['passed']) == 247 and not r['failed'], '%s: tests: %s' % (id, (r['failed'][:3], out[-300:]))
        caught = None
        if check:
            caught = chk(prop)
        reset()
        rc, out = sh('bash %s/demo.sh' % d, WT)
        assert rc == 0, '%s: demo fails on the unchanged tree: %d %s' % (id, rc, out[-600:])
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(id, 'CONFIRMED; caught:', caught)
    except AssertionError as e:
        print('FAILED', e)
        shutil.rmtree(d, ignore_errors=True)
        reset()


def chk(prop):
    rc, out = sh('python3-vt /verif/check.py --property %s --tier quick' % prop, '/verif', dict(os.environ, VERIF_REPO=WT, VERIF_SEED='1', VERIF_TIER='quick'))
    return rc, [l[:260] for l in out.split('\n') if l.startswith('failed') or 'VIOLATION' in l or 'obligations' in l]


def run(id):
    """run the property's check on an already recorded seed"""
    reset()
    m = json.load(open(os.path.join(SEEDED, id, 'meta.json')))
    rc, out = sh('git apply %s' % os.path.join(SEEDED, id, 'patch.diff'), WT)
    if rc:
        print(id, 'patch does not apply', out[:200])
        return
    print(id, m['property'], chk(m['property']))
    reset()


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    for i in ids:
        run(i)
