"""Checks that the tools are there and that the harness crates build offline."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
print('z3', z3.get_version_string())
from checks.run import Build, load
d = tempfile.mkdtemp(prefix='nrf-verif-')
try:
    for crate in ('harness', 'harness_xml'):
        if os.path.exists(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), crate)):
            b = Build(crate, d)
            b.wait()
            print(crate, 'builds,', len(b.ll), 'IR files')
finally:
    shutil.rmtree(d, ignore_errors=True)
