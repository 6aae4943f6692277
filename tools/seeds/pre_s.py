import os
import sys
sys.dont_write_bytecode = True
ROOT = os.getcwd()
sys.path.insert(0, os.path.join(ROOT, "simulator"))
