"""Setup: checks that the tools the checks need are present. Nothing is installed; each check builds what it needs."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
sys.exit("missing: " + ", ".join(missing) if missing else 0)
