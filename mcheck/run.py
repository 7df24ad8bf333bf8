"""Runs one check: distributes its exploration over forked workers, collects coverage, writes the evidence."""
import sys, os

sys.path.insert(0, os.environ["VERIF_HOME"])
sys.path.insert(0, os.environ["TARGET_REPO"])
from mcheck.core import main

sys.exit(main(sys.argv[1:]))
