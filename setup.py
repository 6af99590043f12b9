"""Builds the driver and the TLC operator overrides (checks rebuild what they need)."""
import sys
sys.dont_write_bytecode = True
from harness import core
print(core.build())
