#!/usr/bin/env python3
"""Build what the checks share: cocogen and palm from /repo's working tree with sanitizers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
print(common.Build("san").dir)
