"""run.py SCRIPT REPS ARGS...: run sage-impl/verify.sage as a command on standard input, with the given number of repetitions per proof.

Exit status of the script (0 valid, other invalid); 77: the script uses something this environment does not offer (no statement)."""
import ast, os, random, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import shim
sys.setrecursionlimit(10000)


def main():
    script, reps, args = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    random.seed(int(os.environ.get("SHIM_SEED", "1")))
    try:
        code = shim.preparse(open(script).read()); tree = ast.parse(code)
    except (SyntaxError, IndentationError) as e:
        print("cannot preparse: %s" % e, file=sys.stderr); return 77
    g = shim.environment(); g.update(__name__="__main__", __file__=script); sys.argv = [script] + args; g["exit"] = sys.exit
    try:
        if reps:                                                   # smaller proofs: change the table of parameters before the main part runs
            k = next((i for i, n in enumerate(tree.body) if isinstance(n, ast.If) and "__name__" in ast.dump(n.test)), None)
            if k is None: return 77
            exec(compile(ast.Module(tree.body[:k], []), script, "exec"), g)
            par = g.get("params")
            if not isinstance(par, dict): return 77
            for n in par: par[n] = par[n]._replace(reps=reps)
            exec(compile(ast.Module(tree.body[k:], []), script, "exec"), g)
        else: exec(compile(tree, script, "exec"), g)
        return 0
    except SystemExit as e:
        c = e.code
        return c & 255 if isinstance(c, int) else 0 if c is None else 1
    except (shim.Unsupported, NameError, ImportError) as e:
        print("not supported here: %s: %s" % (type(e).__name__, e), file=sys.stderr); return 77
    except AttributeError as e:
        print("not supported here: %s" % e, file=sys.stderr); return 77
    except Exception:
        traceback.print_exc(); return 1


if __name__ == "__main__":
    r = main(); sys.stdout.flush(); sys.stderr.flush(); os._exit(r)
