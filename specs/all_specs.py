import glob, importlib, os
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s_*.py"))):
    importlib.import_module(os.path.basename(_f)[:-3])
FLOOR = {}
