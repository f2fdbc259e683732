"""Development aid: every distinct violation class of a run: python3 tools/viol.py ID [seed] [lines]"""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
seed = sys.argv[2] if len(sys.argv) > 2 else '1'
sys.path.insert(0, V + '/tools')
import vbuild
for kind in ('asan', 'tsan'):
    h = vbuild.write_harness_ninja(kind)
    n = ('p_tsan_' if kind == 'tsan' else 'p_') + pid.lower()
    if os.path.exists(V + '/harness/%s.cpp' % n):
        b = subprocess.run(['ninja', '-C', h, n], capture_output=True, text=True)
        if b.returncode:
            L = b.stdout.split('\n')
            sys.exit('\n'.join(x[:200] for i, x in enumerate(L) if any('error:' in y or 'undefined ref' in y for y in L[max(0, i - 2):i + 1]))[:4000])
for f in glob.glob(V + '/out/%s*' % pid):
    shutil.rmtree(f)
subprocess.run(['python3', V + '/check.py', pid, '--seed', seed, '--keep'], stdout=open('/tmp/viol.out', 'w'), stderr=subprocess.STDOUT)
seen = {}
for f in glob.glob(V + '/out/**/*.viol', recursive=True):
    if '/%s' % pid not in f:
        continue
    for l in open(f, errors='replace'):
        try:
            v = json.loads(l)
        except Exception:
            continue
        key = v.get('key', 'CRASH ' + str(v)[:80])
        k = key + ' | ' + re.sub(r'-?\b[0-9][0-9a-fx.e+-]*\b', '#', v.get('input', ''))[:110]
        if ':' in key and not key.startswith('known:'):
            k = key
        seen.setdefault(k, []).append(v)
for k, v in sorted(seen.items(), key=lambda x: -len(x[1]))[:int(sys.argv[3]) if len(sys.argv) > 3 else 25]:
    print(len(v), k, '\n      ', v[0].get('detail', v[0].get('seen', ''))[:220].replace('\n', ' '))
print(subprocess.run(['tail', '-n', '6', '/tmp/viol.out'], capture_output=True, text=True).stdout[-1500:])
