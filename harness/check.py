"""check <property> <quick|thorough>: decide one property, write its evidence."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def registry():
    import c_files
    import c_other
    r = {}
    r.update(c_files.CHECKS)
    r.update(c_other.CHECKS)
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = common.Check(prop, tier)
    with common.Work(prop) as work:
        try:
            registry()[prop](c, tier, work)
        except common.CodeError as x:
            c.bad("exception", dict(clause="exception", text=str(x)[-600:]), dict(text=str(x)))
    sys.exit(c.finish())


if __name__ == "__main__":
    main()
