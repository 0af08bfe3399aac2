"""run one property's cases and print violations of some clause: dbg.py C18 clause [n]"""
import sys, importlib, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import core
ck = core.Check(sys.argv[1], "quick", int(os.environ.get("VERIF_SEED", "1")))
def finish(assumptions=()):
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 5
    vs = [v for v in ck.violations if sys.argv[2] in v[0]]
    vs.sort(key=lambda v: len(json.dumps(v[5])))
    import collections; print(len(vs), collections.Counter(v[0] for v in vs))
    for v in vs[:n]:
        print("CLAUSE", v[0], "\n EXP", v[1][:1500], "\n OBS", v[2][:1500], "\n CASE", json.dumps({k: x for k, x in v[5].items() if k != "obs"})[:2500])
ck.finish = finish
ck.model_check = lambda *a, **k: []
importlib.import_module("props." + sys.argv[1].lower()).run(ck)
import shutil; shutil.rmtree(ck.work)
