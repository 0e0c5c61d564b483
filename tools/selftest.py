"""Setup: nothing is built; checks that the interpreter, the vendored Hypothesis and
the code under test import."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("MPLBACKEND", "agg")
import tempfile
os.environ["MPLCONFIGDIR"] = tempfile.mkdtemp()
import harness
harness.setup_imports()
import hypothesis
print("hypothesis", hypothesis.__version__)
import shutil; shutil.rmtree(os.environ["MPLCONFIGDIR"], ignore_errors=True)
