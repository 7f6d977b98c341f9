#!/opt/venv/bin/python
"""setup: the reference models are checked against each other, and the modules of all checks are loaded."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, model

os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
core.setup_imports()
model.selftest(300, int(os.environ.get('VERIF_SEED', '1')))
names = sorted(f[:-3] for f in os.listdir(os.path.join(core.VERIF, 'vf', 'props')) if f.startswith('c') and f.endswith('.py'))
for n in names:
    importlib.import_module('vf.props.' + n)
print('models agree with each other; %d checks' % len(names))
