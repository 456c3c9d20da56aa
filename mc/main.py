import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
import core

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(prop.lower())
    chk = core.Check(prop, tier, getattr(mod, "LEVEL", "model_checking"))
    mod.main(chk)
    chk.replay_known()
    sys.exit(chk.finish())
