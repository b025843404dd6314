#!/opt/venv/bin/python
"""run.py <PROPERTY> [--thorough] [--only TASK] | run.py replay <file>"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib.env  # noqa
from lib import runner

if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(runner.replay_file(os.path.abspath(sys.argv[2])))
    sys.exit(runner.main(sys.argv[1:]))
