import os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
import py2compat  # noqa: F401  (must come before the project's modules)
sys.path[:0] = [here, os.path.join(root, "props"), "/repo"]
import core
import importlib
pid = sys.argv[1]
try:
    importlib.import_module(pid.lower())
except BaseException as e:      # the tree does not even import: that is an error of the build, not a verdict
    import traceback
    traceback.print_exc()
    sys.exit(2)
sys.exit(core.main(pid.lower(), pid, sys.argv[2:]))
