import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vplib import *
ex = extractor()
b, feat, log = harness(ex)
print("extractor", ex); print("harness", b, feat)
for l in log: print("note:", l[:300])
sys.exit(0 if b else 1)
