"""Builds what the checks need."""
import sys
sys.dont_write_bytecode = True
import vt
try:
    vt.build()
except vt.ToolError as e:
    sys.exit(str(e))
