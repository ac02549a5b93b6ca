#!/usr/bin/env python3
"""Nothing is prebuilt (a check builds what it needs from /repo); this only confirms that the tools a check uses are there."""
import shutil, subprocess, sys
cxx = '/usr/bin/g++-11' if shutil.which('/usr/bin/g++-11') else 'g++'
for t in (cxx, 'valgrind'):
    if not shutil.which(t): sys.exit('missing tool: ' + t)
print(subprocess.run([cxx, '--version'], capture_output=True, text=True).stdout.split('\n')[0])
