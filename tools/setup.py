#!/usr/bin/env python3
"""Offline setup: only creates the working folders; every check builds what it needs from /repo's current tree (objects cached by content hash)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"): os.makedirs(V + "/" + d, exist_ok=True)
