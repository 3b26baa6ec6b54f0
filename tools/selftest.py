#!/usr/bin/env python3
"""setup_cmd: nothing has to be prepared; check that the tools the checks need are present and that the explorer works."""
import subprocess, sys, tempfile, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w = tempfile.mkdtemp(dir='/tmp')
try:
    open(w + '/t.cpp', 'w').write('''#include "mc.hpp"
int main(int c, char** v) { std::vector<mc::Scenario> s; s.push_back({"t", []{ int a = mc::choose(3), b = mc::choose(a + 2), d = mc::choose(2), e = mc::choose(2), f = mc::choose(3); mc::state(a * 100 + b); if (a == 2 && b == 3 && d && e && f == 2) mc::fail("planted", "x"); if (a == 1 && b == 2 && f == 1 && !e && !d) abort(); }}); return mc::mainLoop(c, v, s); }''')
    subprocess.check_call(['g++', '-std=c++17', '-O1', '-I' + V + '/harness', w + '/t.cpp', '-o', w + '/t'])
    subprocess.check_call([w + '/t', '--work', w, '--out', w + '/o.json'], stderr=subprocess.DEVNULL)
    d = json.load(open(w + '/o.json'))
    assert d['executions'] == 9 * 12, d['executions']
    assert d['states'] == 9, d['states']
    assert sorted(x['key'] for x in d['violations']) == ['planted', 't:crash:signal6'], d['violations']
    print('explorer self-test passed')
finally:
    shutil.rmtree(w)
