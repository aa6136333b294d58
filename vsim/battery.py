"""battery SPEC OUT: one real process that runs a list of programs in its own
surroundings (hash seed, clock, identity, import order, call order)."""
import json
import pickle
import random
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def main(spec, out):
    import numpy as np
    np.seterr(all="ignore")
    from vsim.core import REPO
    from vsim.environs import Environs
    S = json.load(open(spec))
    with Environs(S["env"]):
        r = random.Random(S["order"])
        if S["early"]:
            import importlib
            from vsim.environs import SUBMODULES
            names = list(SUBMODULES)
            r.shuffle(names)
            for n in names:
                try:
                    importlib.import_module(n)
                except ModuleNotFoundError:
                    pass
        import padasip
        assert padasip.__file__.startswith(REPO + "/"), padasip.__file__
        from vsim.props.c10 import execute
        idx = list(range(len(S["progs"])))
        r.shuffle(idx)
        res = {}
        for i in idx:
            res[i] = execute(S["progs"][i], S["order"] + i)
    with open(out, "wb") as f:
        pickle.dump(res, f)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
