#!/usr/bin/env python3
"""seed(id, prop, [(file, old, new), ...], needs, breaks, demo_cpp): write /verif/seeded/<id>/ from edits to /repo's HEAD."""
import json, os, subprocess, sys, tempfile
REPO = '/repo'
SH = '''#!/bin/bash
# builds the program beside this file against the library in /repo/_build; 0 when the property holds in it
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O0 -w -I/repo/include -I/repo/_build/include "$here/demo.cpp" -o "$tmp/demo" \\
  -L/repo/_build -Wl,-rpath,/repo/_build -ldynd -ldyndt -lpthread || exit 3
cd "$tmp" && timeout 120 ./demo
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <dynd/array.hpp>
#include <dynd/callable.hpp>
#include <dynd/exceptions.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/type.hpp>
using namespace dynd;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)
#define EXPECT_THROW(e) do { bool threw_ = false; try { (void)(e); } catch (const std::exception &) { threw_ = true; } catch (const dynd_exception &) { threw_ = true; } EXPECT(threw_ && #e); } while (0)
'''
def seed(id, prop, edits, needs, breaks, demo, pre=''):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + f], text=True)
        if s.count(old) != 1:
            sys.exit(f'{id}: {f}: {s.count(old)} matches of {old!r}')
        files[f] = s.replace(old, new)
    with tempfile.TemporaryDirectory() as t:
        for f, s in files.items():
            for side in 'ab':
                p = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + f], text=True) if side == 'a' else s)
        out = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True).stdout
    out = '\n'.join(out.split('\n'))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cpp', 'w').write(PRE + pre + '\nint main() {\n' + demo.strip('\n') + '\n  return bad;\n}\n')
    open(d + '/demo.sh', 'w').write(SH)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['git', '-C', REPO, 'apply', '--check', d + '/patch.diff'], capture_output=True, text=True)
    print(id, 'ok' if r.returncode == 0 else r.stderr)
