#!/usr/bin/env python3
# addfix.py "subject without fix:" PROP "what failed"
import json, sys, os, subprocess
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fixed.json')
d = json.load(open(p)); d[sys.argv[1].replace('fix: ', '', 1)] = [sys.argv[2], sys.argv[3]]; json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
subprocess.call([sys.executable, os.path.join(os.path.dirname(p), 'fixed.py')])
