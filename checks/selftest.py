"""The interpreter, the code under test and the explorer are usable."""
import reactpy
import mc.explore

print("ok", reactpy.__version__)
