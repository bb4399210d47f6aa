"""Setup: nothing to build; verifies that the analyser can parse the repository."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.index import Index
ix = Index()
print(len(ix.modules), "modules,", len(ix.funcs), "functions")
