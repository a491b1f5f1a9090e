"""Nothing to build: checks that the code under test and the framework can be imported."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core                                                     # noqa: E402,F401
import roof                                                     # noqa: E402,F401
os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
print('ok')
