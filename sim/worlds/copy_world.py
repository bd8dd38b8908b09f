"""C19: deep copies are independent of the original."""
import copy
import pickle

import numpy as np

from .. import camlib, history
from ..kernel import Violation
from .history_worlds import HistoryWorld, view, make_image, describe


def copy_system(s, ctx, what, how="deepcopy"):
    """what: "all" or the number of a member"""
    q = history.System.__new__(history.System)
    q.ctx, q.scratch, q.evaluations = ctx, s.scratch, 0
    q.group = None
    q.traces = {}
    if what == "all" and s.group is not None:
        q.group = copy.deepcopy(s.group)
        q.cams = list(q.group.cameras)
        q.shared = dict(s.shared)
        memo = {}
        q.models = copy.deepcopy(s.models, memo)
        q.traces = copy.deepcopy(s.traces)
    else:
        i = 0 if what == "all" else what
        q.cams = [copy.deepcopy(s.cams[i])]
        q.models = [s.models[i].copy()]
        key = '["c", %d]' % i
        if key in s.traces:
            q.traces['["c", 0]'] = copy.deepcopy(s.traces[key])
    return q


class C19(HistoryWorld):
    prop = "C19"
    allow = ["set"] * 7 + ["default", "setfit", "setfit", "rotate", "gps", "search", "sample", "sample", "mean", "settrace", "load", "partload", "bad", "use", "scale"]

    def gen(self, rng, tier):
        group = rng.random() < 0.4
        spec = history.gen_group_spec(rng) if group else camlib.gen_spec(rng)
        allow = [a for a in self.allow if not (group and a in ("load", "partload"))] if group else [a for a in self.allow if a != "scale"]
        st = history.GenState(spec)
        states = [st]
        ops = []
        for _ in range(rng.randint(0, 4)):
            ops.append(dict(history.gen_op(rng, st, allow), sys=0))
        n = rng.randint(2, 10 if tier == "quick" else 25)
        copied = False
        for k in range(n):
            if not copied or (len(states) < 4 and rng.random() < 0.12):
                src = rng.randrange(len(states))
                what = "all"
                if states[src].shared is not None and rng.random() < 0.3:
                    what = rng.randrange(states[src].n)
                q = copy.deepcopy(states[src])
                if what != "all":
                    q.n, q.kinds, q.shared = 1, [q.kinds[what]], None
                states.append(q)
                ops.append(dict(op="deepcopy", src=src, what=what, warm=rng.random() < 0.4))
                copied = True
            else:
                i = rng.randrange(len(states))
                a = [x for x in allow if not (x == "scale" and states[i].shared is None)]
                if rng.random() < 0.2:
                    ops.append(dict(op="view", sys=i, member=rng.randrange(states[i].n), view=rng.choice(["top", "undist"]), image=rng.randrange(1 << 30)))
                else:
                    ops.append(dict(history.gen_op(rng, states[i], a), sys=i))
        for op in ops:
            op["chk"] = rng.choice([0, 1, 1, None])
        return dict(spec=spec, ops=ops)

    def run(self, program, ctx, pristine, d):
        systems = [history.System(program["spec"], ctx, d)]
        sig = []
        updates = 0
        for k, op in enumerate(program["ops"]):
            if op["op"] == "deepcopy":
                if op["src"] >= len(systems):
                    continue
                s = systems[op["src"]]
                if op["what"] != "all" and (s.group is None or op["what"] >= len(s.cams)):
                    continue
                if op["warm"]:
                    for c in s.cams:
                        camlib.observe(c, 1)
                systems.append(copy_system(s, ctx, op["what"]))
                ctx.ev("deepcopy", op["src"], op["what"])
            elif op["sys"] >= len(systems):
                continue
            elif op["op"] == "view":
                s = systems[op["sys"]]
                if op["member"] >= len(s.cams):
                    continue
                self.views(s.cams[op["member"]], s.models[op["member"]], op, "step %d" % k, ctx)
            else:
                s = systems[op["sys"]]
                if op["op"] == "scale" and (s.group is None or s.shared["ori"]):
                    continue
                if op.get("t", ["c"])[0] == "g" and s.group is None or op.get("t", ["g"])[0] == "c" and op["t"][1] >= len(s.cams):
                    continue
                s.apply({n: v for n, v in op.items() if n not in ("sys", "chk")})
                updates += len(systems) > 1
            sig = (sig + [(op["op"], op.get("name", op.get("kind", op.get("what"))), op.get("sys"))])[-3:]
            ctx.state(len(systems), *sig)
            if op.get("chk") is not None:
                for j, q in enumerate(systems):
                    q.check("after step %d (%s on %s), %s" % (k, op["op"], op.get("sys", op.get("src")), "original" if j == 0 else "copy %d" % j), op["chk"])
        for j, q in enumerate(systems):
            w = "at the end, %s" % ("original" if j == 0 else "copy %d" % j)
            q.check(w, 2)
            for c, m in zip(q.cams, q.models):
                self.views(c, m, dict(view="undist", image=5 + j), w, ctx)
                self.views(c, m, dict(view="top", image=5 + j), w, ctx)
        ctx.interesting = len(systems) > 1 and updates > 0
        ctx.ev("end", len(systems), [[sorted((n, repr(float(v))) for n, v in m.effective().items()) for m in q.models] for q in systems])

    def views(self, cam, m, op, where, ctx):
        w, h = int(m.eff("image_width_px")), int(m.eff("image_height_px"))
        image = make_image(op["image"], w, h, 1)
        args = dict(view=op["view"], scaling=1 if op["view"] == "top" else None)
        ext = [-10, 10, 10, 40] if op["view"] == "top" else None
        got, want = view(cam, args, image, ext), view(m.build(), args, image.copy(), ext)
        ctx.check()
        if got[0] != want[0] or (got[0] == "image" and not np.array_equal(got[1], want[1])) or (got[0] == "raises" and got[1] != want[1]):
            raise Violation("view-of-another", "%s: %s gives %s, a newly built camera %s" % (where, op["view"], describe(got), describe(want)))
