"""setup_cmd: checks that the tools are there and builds the native harness once."""
import subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in (["verus", "--version"], ["cargo", "--version"]): subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "harness"), env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(V, "target")))
sys.exit(p.returncode)
