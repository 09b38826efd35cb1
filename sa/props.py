import importlib, pkgutil, os
PROPS = {}
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.startswith('props_') and f.endswith('.py'):
        m = importlib.import_module(f[:-3])
        PROPS.update({k: v for k, v in vars(m).items() if len(k) == 3 and k[0] == 'P' and k[1:].isdigit()})
