#!/opt/venv/bin/python
"""check.py <property id>: decides one property on the current tree of /repo (see DESIGN.md)."""
import os, sys, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "drv")]
sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"


def main():
    pid = sys.argv[1]
    import harness
    ctx = harness.Ctx(pid)
    try:
        try:
            import nos
        except Exception as e:           # the package cannot even be imported
            ctx.violation("nosnoc cannot be imported: %r" % e, dict(trace=traceback.format_exc()))
            ctx.samples.append("import nosnoc")
            return ctx.finish()
        mod = importlib.import_module(pid.lower())
        mod.run(ctx)
        return ctx.finish(getattr(mod, "LEVEL", "model_checking"))
    except Exception as e:
        traceback.print_exc()
        fr = traceback.extract_tb(e.__traceback__)
        if any("/nosnoc/" in f.filename for f in fr[-3:]) and not isinstance(e, harness.Machinery):
            # the code under test raised where the specification does not allow it
            ctx.violation("unexpected exception from nosnoc: %r" % e, dict(trace=traceback.format_exc()))
            ctx.samples.append("exception")
            return ctx.finish()
        if ctx.violations:               # observed before the check broke down
            ctx.samples.append("incomplete run")
            return ctx.finish()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
