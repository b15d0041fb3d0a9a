#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decides one property on /repo's working tree
   check.py --replay FILE                 shows again what a replay file records

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: the
check itself could not do its work."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import run
sys.exit(run.main(sys.argv[1:]))
