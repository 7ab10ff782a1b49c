import importlib
import os

META = {}
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.startswith('c') and f.endswith('.py'):
        m = importlib.import_module('props.' + f[:-3])
        META.update(m.META)
