"""setup_cmd: builds the native clock seam and shows that a simulated process starts."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sim import driver
driver.ensure_native()
w = driver.Worker(0)
r = w.run({"workload": "builds", "profile": "plain", "seed": 1})
w.close()
print("setup:", r["outcome"], r.get("digest", "")[:16])
