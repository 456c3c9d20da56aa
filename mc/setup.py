"""setup_cmd: nothing to build ahead (every check rebuilds pnut from /repo);
verifies that the tools the checks use are present."""
import shutil, sys
missing = [t for t in ("gcc", "dash", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
print("ok; shells:", " ".join(s for s in ("dash", "bash", "ksh", "mksh", "yash", "zsh") if shutil.which(s)))
