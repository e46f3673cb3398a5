#!/usr/bin/env python3
"""Checks that the offline toolchain is there; every check builds what it needs from /repo itself."""
import shutil, subprocess, sys, os
for t in ('g++', 'ninja', 'java', 'python3'):
    if not shutil.which(t): sys.exit(f'missing {t}')
for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(f): sys.exit(f'missing {f}')
print('ok')
