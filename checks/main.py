import importlib
import sys
import warnings
warnings.filterwarnings('ignore')


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(f'checks.{pid.lower()}')
    sys.exit(mod.build('thorough' if '--thorough' in sys.argv else 'quick').main(sys.argv[2:]))


main()
