"""helper used while planting bugs: seed(id, property, [(file, old, new)...], demo body, needs, breaks)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDR = '''#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include <cmath>
#include <cstdio>
#include <iostream>
#include <set>
#include <map>
#include <vector>
using namespace geometrycentral; using namespace geometrycentral::surface;
#define REQ(c) do { if(!(c)) { printf("FAILED: %s\\n", #c); return 1; } } while(0)
'''
def seed(id, prop, edits, demo, needs, breaks, hdr=HDR):
    try:
        for f, a, b in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a))
            open(p, 'w').write(s.replace(a, b))
    except Exception:
        subprocess.call(['git', '-C', '/repo', 'checkout', '--', '.'])
        raise
    subprocess.check_call(['python3', V + '/bin/seed.py', 'new', id])
    d = V + '/seeded/' + id
    open(d + '/demo.cpp', 'w').write(hdr + demo)
    open(d + '/demo.sh', 'w').write(open(V + '/bin/demo_template.sh').read())
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
