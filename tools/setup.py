"""Checks that the tools the checks need are there (each check builds what it needs itself)."""
import shutil, sys
missing = [t for t in ("g++", "ninja", "ar", "c++filt") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
print("ok")
