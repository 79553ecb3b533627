import os
import sys

# Own every source of nondeterminism we can before anything is imported.
_ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
}
if any(os.environ.get(k) != v for k, v in _ENV.items()):
    os.environ.update(_ENV)
    os.execv(sys.executable, [sys.executable, "-m", "mc"] + sys.argv[1:])
sys.dont_write_bytecode = True
for k in ("CUDA_HOME", "CUDA_PATH", "CUDA_VERSION", "CUDNN_VERSION", "COLAB_GPU"):
    os.environ.pop(k, None)

from mc import engine  # noqa: E402


def main(argv):
    if len(argv) == 2 and argv[0] == "replay":
        return engine.replay(argv[1])
    if argv == ["setup"]:  # nothing to build: the checks import /repo/src as it is
        os.makedirs(os.path.join(engine.VERIF, "evidence"), exist_ok=True)
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    assert tier in ("quick", "thorough"), tier
    return engine.run_check(prop, tier)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
