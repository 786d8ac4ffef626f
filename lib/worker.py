"""Runs single cases of a check; protocol: case index per line on stdin, one JSON line per case out."""
import json, os, shutil, sys, traceback

sys.setrecursionlimit(40000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
out = os.fdopen(os.dup(1), 'w', buffering=1)
os.dup2(2, 1)


def main():
    from run import load_check
    seed, tier = int(os.environ['VERIF_SEED']), os.environ['VERIF_TIER']
    chk = load_check(sys.argv[1])
    state = chk.setup(seed, tier) if hasattr(chk, 'setup') else None
    for line in sys.stdin:
        i = int(line)
        try:
            os.ftruncate(2, 0)
            os.lseek(2, 0, 0)
        except OSError:
            pass
        shutil.rmtree(os.path.join(os.environ['CAPY_SCRATCH'], 'synth'), ignore_errors=True)
        try:
            r = chk.run_case(state, seed, i)
        except Exception:
            r = {'error': traceback.format_exc()}
        out.write(json.dumps(r) + '\n')
        out.flush()
    os._exit(0)


main()
