import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from harness import boot

try:
    boot.setup()
except (ImportError, AttributeError, NameError, SyntaxError, TypeError, ValueError) as e:
    # the repository's package can't be imported
    import traceback
    traceback.print_exc()
    sys.exit(2)
from harness import core


def main(argv):
    if argv[0] == 'replay':
        return core.replay(argv[1])
    if argv[0] == 'check':
        return core.check(argv[1].upper(), argv[2] if len(argv) > 2 else 'quick')
    if argv[0] == 'selftest':
        import hypothesis
        import lom
        print('hypothesis', hypothesis.__version__, 'lom', lom.__file__)
        return 0
    return 2


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code)
