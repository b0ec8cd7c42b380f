#!/opt/veriftools/pyvenv/bin/python
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import runner
if __name__ == '__main__':
    if len(sys.argv) < 2:
        print('usage: check.py PROPERTY [quick|thorough]'); sys.exit(2)
    sys.exit(runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
