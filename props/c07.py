"""C07: JSON export and import preserves the model."""
import json
from vlib import sim as S, train as T
from vlib.core import Violation
from props.c06 import C06


class C07(C06):
    id = "C07"
    json_mode = True
    quick_n = 6500
    rule = ("A scenario is a client history in which one workspace is exported to JSON and re-imported (as a value or through text, alone or mixed with binary save and load) at seeded "
            "points and its twin is not; or segments of the real `reml train` between which the model goes through `reml export-model` and `reml import-model`. Histories are "
            "judged while all state is finite (JSON cannot hold infinities). Non-trivial: at least one round trip; distinct by scenario.")

    def restart(self, rng):
        return [rng.choice(["json", "json", "value", "bin"]) if k else rng.choice(["json", "value"]) for k in range(rng.choice([1, 1, 2, 3]))]

    def reload(self, sc, ctx, v, j):
        plain = {"seed": 1, "strat": 0}
        _, res = ctx.core("probe", {"setup": [["loadfile", "m", T.MODEL], ["nulls", "m"], ["ws", "f", sc["w"]["config"]], ["nulls", "f"]], "threads": [], "final": []})
        if res["setup"][1] != res["setup"][3]:
            ctx.probe("history left the finite numbers")
            return True
        dig = T.Digests(ctx)
        m0 = ctx.read(T.MODEL)
        r = ctx.reml("export%d" % j, ["export-model", T.MODEL], plain)
        if r.rc != 0:
            raise Violation("export_failed", "export-model: %s %s" % (r.how(), T.tail(r)), "s%d" % j)
        ctx.write("x.json", r.stdout)
        r = ctx.reml("import%d" % j, ["import-model", "x.json", "-o", T.MODEL], plain)
        if r.rc != 0:
            raise Violation("import_failed", "import-model of an exported model: %s %s" % (r.how(), T.tail(r)), "s%d" % j)
        m1 = ctx.read(T.MODEL)
        if m0 != m1 and dig.of(m0)[:2] != dig.of(m1)[:2]:
            raise Violation("diverged", "the re-imported model differs from the exported one after segment %d" % j, "s%d" % j)
        ctx.probe("cli round trips")
        return False


PROP = C07()
