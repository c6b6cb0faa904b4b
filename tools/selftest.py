"""setup_cmd: nothing to build; makes sure the tools the checks need are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core

core.setup_paths()
import hypothesis  # noqa
import daisy  # noqa

print("hypothesis", hypothesis.__version__, "daisy from", os.path.dirname(daisy.__file__))
