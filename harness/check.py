#!/opt/venv/bin/python
"""check.py <property> <quick|thorough> [optimizer ...]"""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

DESIGN = ("S03", "S05", "S06", "S07", "S09", "S18")
SOLVE = ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S13", "S17", "S18", "S21")
PRODUCT = ("S08", "S09", "S10", "S11", "S19", "S23", "S24", "S25")


def main(prop, tier, only=None):
    from common import Report
    rep = Report(prop, tier)
    if prop in DESIGN and not only:
        import designcheck
        designcheck.part(rep, prop, tier)
    if prop in SOLVE:
        import solvecheck
        solvecheck.part(rep, prop, tier, only)
    if prop in PRODUCT:
        import productcheck
        productcheck.part(rep, prop, tier, only)
    if prop == "S12":
        import codeccheck
        codeccheck.part(rep, prop, tier)
    if prop in ("S15", "S16"):
        import expcheck
        expcheck.part(rep, prop, tier)
    if prop in ("S20", "S22"):
        import helpcheck
        helpcheck.part(rep, prop, tier)
    if prop in ("S14", "S26"):
        import settingscheck
        settingscheck.part(rep, prop, tier)
    if prop in ("S27", "S28"):
        import progresscheck
        progresscheck.part(rep, prop, tier, only)
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2], sys.argv[3:] or None))
