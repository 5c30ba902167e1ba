"""Entry point: run.py <property> [quick|thorough]."""
import importlib
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'drivers'))
logging.disable(logging.WARNING)

if __name__ == '__main__':
    import vlib
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    vlib.main(prop, mod.run)
