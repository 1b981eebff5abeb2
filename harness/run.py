"""run.py <property id>"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == "__main__":
    pid = sys.argv[1]
    core.main(lambda c: importlib.import_module("checks." + pid.lower()).run(c), pid)
