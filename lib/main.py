import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)

from vp import core  # noqa


def main():
    name = sys.argv[1]
    mod = importlib.import_module('checks.{}'.format(name.lower()))
    if getattr(mod.CHECK, 'dev_mode', False) and not sys.flags.dev_mode:
        # the debugging allocator and developer mode are chosen when the interpreter starts
        os.environ['PYTHONMALLOC'] = 'debug'
        os.execv(sys.executable, [sys.executable, '-X', 'dev'] + sys.argv)
    return core.main(mod.CHECK(), sys.argv[2:])


if __name__ == '__main__':
    sys.exit(main())
