"""setup_cmd: builds the engine once (the checks rebuild whatever is missing or out of date)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

common.engine()
