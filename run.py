#!/opt/venv/bin/python
"""run.py C01 [--tier quick|thorough] [--only HARNESS] | --replay FILE"""
import os
import sys
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == '__main__':
    from symx import runner
    rc = runner.main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
