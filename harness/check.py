"""check.py PROPERTY: decides one property on the code in $SVGIO_REPO (default /repo)."""
import importlib
import os
import resource
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa

MODULES = {"P01": "c_pathdata", "P02": "c_pathdata", "P03": "c_pathdata", "P04": "c_pathdata"}
for _m, _ps in dict(c_make="P14", c_pathedit="P05 P06 P08 P09 P10 P13", c_share="P07", c_segments="P11 P12 G12", c_curve="G01", c_bounds="G03 G04", c_arcends="G05", c_arcways="G10 G11", c_walk="G02", c_arcpieces="G06", c_matrix="T01 T02", c_transform="G07", c_hull="G08", c_point="G09", c_viewbox="T03", c_translen="T04", c_color="V01 V02 V03", c_length="V04", c_angle="V05", c_dom="D01 D02 D03 D04 D05", c_image="D06", c_shapes="D07", c_view="D08").items():
    MODULES.update({p: _m for p in _ps.split()})


def main():
    prop = sys.argv[1]
    check = common.Check(prop)
    try:
        # The python side needs little; a runaway allocation in the code under test becomes MemoryError.
        resource.setrlimit(resource.RLIMIT_DATA, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    try:
        try:
            import svgio  # noqa
        except Exception as e:
            check.violation("importing the package failed: %s: %s" % (type(e).__name__, e), {"import": "svgio"})
            return check.finish()
        where = os.path.dirname(os.path.abspath(svgio.__file__))
        if where != os.path.join(os.path.abspath(common.REPO), "svgio"):
            raise common.MachineryError("svgio was imported from %s" % where)
        mod = importlib.import_module(MODULES[prop])
        getattr(mod, "check_" + prop)(check)
        return check.finish()
    except common.MachineryError as e:
        print("ERROR: %s" % e)
        return 3
    except (OSError, MemoryError):
        traceback.print_exc()
        return 4
    except Exception as e:
        # On the code the specification describes every result can be looked at: this one is of another shape.
        traceback.print_exc()
        check.violation("the result cannot be interpreted: %s: %s" % (type(e).__name__, e), {"traceback": traceback.format_exc()[-1500:]})
        return check.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
