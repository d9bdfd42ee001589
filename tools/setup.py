"""setup_cmd: compile the Java overrides of module Dec (checks also do this on demand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib.runner import ensure_java
print("java classes in", ensure_java())
