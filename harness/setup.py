"""Warms the build cache (optional: every check builds what it misses)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from table import CHECKS
def main():
    seen = []
    for s in CHECKS.values():
        for st in s["streams"]:
            w = ("bin", st[0], s["files"])
            if w not in seen: seen.append(w)
        if s.get("tools") and ("tools",) not in seen: seen.append(("tools",))
    for k in range(0, len(seen), 6): build.build_many(seen[k:k + 6])
    print("built", len(seen), "targets")
try: main()
except build.BuildError as e:
    print(e); sys.exit(1)
