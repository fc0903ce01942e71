import glob
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import vh  # noqa: E402

prop = sys.argv[1]
paths = glob.glob(os.path.join(HERE, 'checks', prop.lower() + '_*.py'))
if len(paths) != 1:
    sys.stderr.write('no check for %s: %s\n' % (prop, paths))
    sys.exit(2)
spec = importlib.util.spec_from_file_location('check_' + prop, paths[0])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
sys.exit(vh.main(mod, prop, sys.argv[2:]))
