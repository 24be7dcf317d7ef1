"""Paths, seeds and process-wide settings shared by every check."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CLASSES = os.path.join(VERIF, "build", "classes")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
TLA_JARS = ":".join(os.path.join("/opt/veriftools/tla", j)
                    for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
CORES = int(os.environ.get("VERIF_CORES", "8"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")


def use_repo():
    """Import concept_formation from the working tree, never from elsewhere."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import concept_formation
    got = os.path.realpath(os.path.dirname(concept_formation.__path__[0]
                                           if not concept_formation.__file__
                                           else os.path.dirname(concept_formation.__file__)))
    want = os.path.realpath(REPO)
    if os.path.realpath(got) != want:
        raise SystemExit("concept_formation imported from %s, not %s" % (got, want))
