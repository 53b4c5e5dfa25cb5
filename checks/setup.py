"""Checks that what the monitors need is there (nothing is installed or kept)."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    print("missing tools: " + ", ".join(missing))
    sys.exit(1)
print("ok")
