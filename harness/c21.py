"""C21: coupled simulations hand over exactly the people that crossed."""
import types

from symx.baton import Baton, Hang
from symx.mpi import Cluster

from .lib import *

BOUNDS = ("two simulations that run at the same time and exchange through files: every order of their file operations with up to 3 interruptions for one exchange and 1 for several, every combination of directions of 2 coupled places on both sides, "
          "0-2 (or a two-digit number of) people at each place, people elsewhere and under way; histories of up to 4 days, every interval 1-3; one side running on 2 processes; two (thorough: three) simulations on each side that hand over every mix of small numbers; "
          "the same through messages and managers (muscle3, as blocking queues)")
OUTSIDE = "different intervals within one simulation (only the first counts); weather coupling; crashes of a simulation during an exchange"

DIRS = ("out", "in", "inout")


def cases(tier):
    T = tier == "thorough"
    cs = []
    for d1 in DIRS:
        for d2 in DIRS:
            cs.append(dict(t="files", dirs=[d1, d2], k=2 if not T else 4, days=1, many=False))
            cs.append(dict(t="files", dirs=[d1, d2], k=0, days=3, many=False))
    for d in (["out", "in"], ["inout", "out"]):
        cs.append(dict(t="files", dirs=d, k=3 if not T else 6, days=1, many=True))
        cs.append(dict(t="files", dirs=d, k=1 if not T else 2, days=2, many=True))
        cs.append(dict(t="interval", dirs=d))
        cs.append(dict(t="parallel", dirs=d))
        cs.append(dict(t="ensemble", dirs=d, instances=2))
        if T:
            cs.append(dict(t="ensemble", dirs=d, instances=3))
        cs.append(dict(t="muscle", dirs=d))
    for d in DIRS:
        for o in DIRS:
            if o != OTHER[d]:
                cs.append(dict(t="files", dirs=[d, "out"], odirs=[o, "in"], k=0, days=2, many=False))
    cs.append(dict(t="ghost"))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


OTHER = {"out": "in", "in": "out", "inout": "inout"}


class Side:
    """one simulation with two coupled places, one that is not coupled and people under way"""

    def __init__(self, ctx, w, label, dirs, interval=1, index=0, instances=1, coupling="file", order=(0, 1), flee=None, submodel=None):
        self.ctx, self.w, self.label, self.dirs = ctx, w, label, dirs
        settings(w, {"move_rules": dict(default_movechance=0.5)})
        self.e = (flee or w.flee).Ecosystem()
        e = self.e
        self.locs = {}
        for n in ("homeA", "gateA", "gateB", "restA"):
            self.locs[n] = e.addLocation(name=label + n, x=0.0, y=0.0, movechance=0.5, capacity=-1, pop=1000)
        e.linkUp(label + "homeA", label + "gateA", 500.0)
        e.linkUp(label + "gateA", label + "restA", 500.0)
        e.linkUp(label + "gateB", label + "restA", 500.0)
        self.ci = w.load("flee.coupling").CouplingInterface(e=e, submodel=submodel or label, instance_index=index, num_instances=instances, coupling_type=coupling, outputdir="out", log_exchange_data=False)
        if coupling == "file":
            a, b = ("in", "out") if label == "macro" else ("out", "in")
            self.ci.setCouplingChannel(outputchannel=a, inputchannel=b)
        self.names = {"gateA": "crossX", "gateB": "crossY"}
        for i in order:
            n = ("gateA", "gateB")[i]
            self.ci.addCoupledLocation(self.locs[n], self.names[n], direction=dirs[i], interval=interval)

    def put(self, place, n):
        for _ in range(int(n)):
            self.e.insertAgent(self.locs[place], {})

    def move_off(self):
        """one person of the uncoupled place is under way to the coupled one"""
        l = self.locs["homeA"].links[0]
        for a in self.e.agents:
            if a.location is self.locs["homeA"]:
                self.locs["homeA"].numAgents -= 1
                a.location = l
                a.travelling = True
                l.numAgents += 1
                return

    def state(self):
        return {n: [a for a in self.e.agents if a.location is l] for n, l in self.locs.items()}, [a for a in self.e.agents if not any(a.location is l for l in self.locs.values())]

    def compare(self, before, got, when, exchanged=True, after=None):
        """got: people received by gate"""
        ctx = self.ctx
        places, away = before
        now, away2 = after or self.state()
        ctx.check(len(away) == len(away2) and all(a is b for a, b in zip(away, away2)), "others", f"{self.label} {when}: people under way are affected")
        for i, n in enumerate(("gateA", "gateB")):
            ids = {id(a) for a in places[n]}
            kept = [a for a in now[n] if id(a) in ids]
            new = len(now[n]) - len(kept)
            if exchanged and "out" in self.dirs[i]:
                ctx.check(not kept, "emptied", f"{self.label} {when}: {len(kept)} people of {n} ({self.dirs[i]}) were handed over but stay")
            else:
                ctx.check(len(kept) == len(places[n]), "kept", f"{self.label} {when}: {len(places[n]) - len(kept)} people of {n} ({self.dirs[i]}) vanish")
            want = got[n] if exchanged else 0
            if isinstance(want, tuple):
                want = new if new in want else want[0]
            ctx.check_eq(new, want, "received", f"{self.label} {when}: people new at {n} ({self.dirs[i]})")
        for n in ("homeA", "restA"):
            ctx.check(len(places[n]) == len(now[n]) and all(a is b for a, b in zip(places[n], now[n])), "others", f"{self.label} {when}: {n} is affected")
        if after is None:
            headcount_ok(ctx, self.e)


def mkdirs():
    import os
    os.makedirs("out/file/coupled", exist_ok=True)


def worlds(ctx, baton, n, queues=None):
    mods = baton.modules()
    out = []
    for i in range(n):
        m = dict(mods)
        if queues:
            m.update(queues(i))
        w = ctx.world(modules=m)
        w.builtins["open"] = baton.opener()
        out.append(w)
    return out


def people(ctx, side, tag, many):
    for n in ("gateA", "gateB"):
        side.put(n, ctx.choice(f"{tag}{n}", [0, 12] if many else [0, 1, 2] if n == "gateA" else [0, 1]))


def expected(me, other, mine):
    """people to be received by place: those standing at the counterpart"""
    got = {}
    for i, n in enumerate(("gateA", "gateB")):
        got[n] = len(other[0][n]) if "in" in me.dirs[i] and "out" in mine.dirs[i] else 0
    return got


def pairup(ctx, case, baton, interval=1):
    mkdirs()
    ws = worlds(ctx, baton, 2)
    a = Side(ctx, ws[0], "macro", case["dirs"], interval=interval)
    b = Side(ctx, ws[1], "micro", case.get("odirs") or [OTHER[d] for d in case["dirs"]], interval=interval, order=(1, 0))
    for s in (a, b):
        s.put("homeA", 2)
        s.put("restA", 1)
        s.move_off()
    return a, b


def files(ctx, case):
    baton = Baton(ctx, 2, case["k"])
    a, b = pairup(ctx, case, baton)
    days = case["days"]
    # what each of them has before and after every exchange
    rec = {0: [], 1: []}

    def proc(i, s):
        def f():
            for t in range(days):
                for n in ("gateA", "gateB"):
                    s.put(n, arrivals[i][t][n])
                before = s.state()
                s.ci.Couple(t)
                rec[i].append((before, s.state()))
        return f
    arrivals = [[{n: (ctx.choice(f"{s.label}{n}{t}", [0, 12] if case["many"] else [0, 1, 2] if t == 0 and n == "gateA" else [0, 1]) if t < 2 else 1) for n in ("gateA", "gateB")} for t in range(days)] for s in (a, b)]
    baton.run([proc(0, a), proc(1, b)])
    for t in range(days):
        for i, (s, o) in enumerate(((a, b), (b, a))):
            before, after = rec[i][t]
            got = expected(s, rec[1 - i][t][0], o)
            s.compare(before, got, f"on day {t}", after=after)
    for s in (a, b):
        headcount_ok(ctx, s.e)


def interval(ctx, case):
    """exchanges happen on every multiple of the interval and on no other day"""
    n = ctx.choice("interval", [1, 2, 3])
    baton = Baton(ctx, 2, 0)
    a, b = pairup(ctx, case, baton, interval=n)
    first = ctx.choice("first day", [0, 1])
    for t in range(first, first + 4):
        if t % 2 == 0:
            people(ctx, a, f"a{t}", False)
        else:
            b.put("gateA", 1)
            b.put("gateB", 2)
        sa, sb = a.state(), b.state()
        ga, gb = expected(a, sb, b), expected(b, sa, a)
        baton.run([lambda: a.ci.Couple(t), lambda: b.ci.Couple(t)])
        a.compare(sa, ga, f"on day {t}, interval {n}", exchanged=t % n == 0)
        b.compare(sb, gb, f"on day {t}, interval {n}", exchanged=t % n == 0)


def parallel(ctx, case):
    """one side runs on two processes: together they receive what was handed over, and hand over what stands there"""
    mkdirs()
    baton = Baton(ctx, 2, 0)        # only for its clock: nobody sleeps
    mods = {"time": baton.modules()["time"]}
    naps = []

    def sleep(seconds=0):
        naps.append(seconds)
        if len(naps) > 2000:
            raise Hang("waits for files that are never written")
    mods["time"].sleep = sleep
    cl = Cluster(ctx, 2, modules=mods)
    w = ctx.world(modules=mods)
    dirs = case["dirs"]
    a = cl.each(lambda r, wr: Side(ctx, wr, "macro", dirs, flee=wr.pflee))
    b = Side(ctx, w, "micro", [OTHER[d] for d in dirs])
    counts = {n: ctx.choice("macro" + n, [0, 1, 3]) for n in ("gateA", "gateB")}
    for t in range(2):
        def fill(r, wr):
            for n in ("gateA", "gateB"):
                a[r].put(n, counts[n])
            a[r].put("restA", 1)
            a[r].e.updateNumAgents(log=False)
            return a[r].state()
        before = cl.each(fill)
        for n in ("gateA", "gateB"):
            b.put(n, ctx.choice(f"micro{n}{t}", [0, 3]) if t == 0 else 2)
        sb = b.state()
        total = {n: sum(len(s[0][n]) for s in before) for n in a[0].locs}
        # the serial side writes first, then both sides read
        b.ci.writeOutputToFile(t)
        cl.each(lambda r, wr: a[r].ci.Couple(t))
        b.ci.Couple(t)
        after = [s.state() for s in a]
        tot2 = {n: sum(len(s[0][n]) for s in after) for n in a[0].locs}
        for i, n in enumerate(("gateA", "gateB")):
            inn = len(sb[0][n]) if "in" in dirs[i] else 0
            want = (0 if "out" in dirs[i] else total[n]) + inn
            ctx.check_eq(tot2[n], want, "received", f"day {t}: people at {n} ({dirs[i]}) on all processes together")
            for r in (0, 1):
                ctx.check_eq(a[r].locs[n].numAgents, want, "counter", f"day {t}: counter of {n} on process {r}")
        for n in ("homeA", "restA"):
            ctx.check_eq(tot2[n], total[n], "others", f"day {t}: {n} is affected")
        got = {n: total[n] if "out" in dirs[i] else 0 for i, n in enumerate(("gateA", "gateB"))}
        b.compare(sb, got, f"on day {t}")


def ensemble(ctx, case):
    """several simulations on each side: everyone receives the rounded average of what those of the other side hand over"""
    mkdirs()
    k = case.get("instances", 2)
    baton = Baton(ctx, 2 * k, 1)
    ws = worlds(ctx, baton, 2 * k)
    dirs = case["dirs"]
    sides = []
    for i in range(2 * k):
        lab = "macro" if i < k else "micro"
        sides.append(Side(ctx, ws[i], lab, dirs if i < k else [OTHER[d] for d in dirs], index=i % k, instances=k))
    for i, s in enumerate(sides):
        s.put("restA", i % 2)
        for n in ("gateA", "gateB"):
            more = [0, 1, 4] if n == "gateA" and k == 2 else [0, 2] if n == "gateA" or k == 2 else [1]
            s.put(n, ctx.choice(f"sim{i}{n}", more if i % k else [0, 3] if n == "gateA" else [3]))
    st = [s.state() for s in sides]
    baton.run([(lambda s=s: s.ci.Couple(0)) for s in sides])
    for i, s in enumerate(sides):
        o = k if i < k else 0
        all_ = [expected(s, st[j], sides[j]) for j in range(o, o + k)]
        got = {}
        for n in all_[0]:
            total = sum(x[n] for x in all_)
            got[n] = (total + k // 2) // k
            if 2 * total % (2 * k) == k:        # exactly between two numbers: either
                got[n] = (total // k, total // k + 1)
        s.compare(st[i], got, f"(simulation {i % k})")


def muscle(ctx, case):
    """the same through messages: macro -> macro manager -> micro -> micro manager -> macro"""
    dirs = case["dirs"]
    route = {("macro", "out"): "mm", ("macro_manager", "in"): "mm", ("macro_manager", "out"): "to_micro", ("micro", "in"): "to_micro",
             ("micro", "out"): "um", ("micro_manager", "in"): "um", ("micro_manager", "out"): "to_macro", ("macro", "in"): "to_macro"}
    labels = ["macro", "macro_manager", "micro", "micro_manager"]
    baton = Baton(ctx, 4, 1)

    def queues(i):
        m = types.ModuleType("libmuscle")

        class Message:
            def __init__(self, timestamp, next_timestamp=None, data=None, settings=None):
                self.timestamp, self.next_timestamp, self.data = timestamp, next_timestamp, data

        class Instance:
            def __init__(self, ports=None, *a, **k):
                self.n = 1

            def reuse_instance(self):
                self.n -= 1
                return self.n >= 0

            def send(self, port, msg, slot=None):
                baton.put(route[labels[i], port], msg)

            def receive(self, port, slot=None, default=None):
                return baton.get(route[labels[i], port])
        m.Message, m.Instance = Message, Instance
        return {"libmuscle": m}
    ws = worlds(ctx, baton, 4, queues)
    sides = []
    for i, lab in enumerate(labels):
        s = Side(ctx, ws[i], lab.split("_")[0], dirs if i < 2 else [OTHER[d] for d in dirs], coupling="muscle3", submodel=lab)
        sides.append(s)
    a, b = sides[0], sides[2]
    for s in (a, b):
        s.put("homeA", 2)
        s.move_off()
    for t in range(2):
        people(ctx, a, f"a{t}", t == 1) if t == 0 else a.put("gateA", 1)
        people(ctx, b, f"b{t}", False) if t == 0 else b.put("gateB", 1)
        sa, sb = a.state(), b.state()
        baton.run([(lambda s=s: s.ci.Couple(t)) for s in sides])
        a.compare(sa, expected(a, sb, b), f"on day {t}")
        b.compare(sb, expected(b, sa, a), f"on day {t}")


def ghost(ctx, case):
    """conflict zones without roads are handed over, others only when asked for; a place is coupled once"""
    w = ctx.world()
    ig = w.InputGeography.InputGeography()
    settings(w, {})
    kinds = [ctx.choice(f"kind{i}", ["conflict_zone", "town"]) for i in range(3)]
    linked = [ctx.flag(f"linked{i}") for i in range(2)]
    names = ["locA", "locB", "locC"]
    write("loc.csv", "#name,region,country,x,y,type,conflict_date,pop\n" + "".join(f"{n},reg,cx,0,0,{k},0,100\n" for n, k in zip(names + ["hubA"], kinds + ["town"])))
    write("routes.csv", "#a,b,d\n" + "".join(f"{names[i]},hubA,100\n" for i in range(2) if linked[i]))
    write("closures.csv", "#type,a,b,start,end\n")
    ig.ReadLocationsFromCSV("loc.csv")
    ig.ReadLinksFromCSV("routes.csv")
    ig.ReadClosuresFromCSV("closures.csv")
    e = w.flee.Ecosystem()
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    ci = w.load("flee.coupling").CouplingInterface(e=e, submodel="macro", instance_index=0, num_instances=1, coupling_type="file", outputdir="out", log_exchange_data=False)
    ci.addCoupledLocation(lm["locC"], "locC", direction="in", interval=1)
    ci.addGhostLocations(ig)
    want = ["locC"] + [names[i] for i in range(2) if kinds[i] == "conflict_zone" and not linked[i]]
    ctx.check(list(ci.location_names) == want, "ghosts", f"coupled places {ci.location_names}, expected {want}")
    ctx.check([ci.directions[ci.location_names.index(n)] for n in want] == ["in"] + ["out"] * (len(want) - 1), "ghosts", f"directions {ci.directions}")
    for i, n in enumerate(ci.location_names):
        ctx.check(e.locations[ci.location_ids[i]] is lm[n], "ghosts", f"{n} stands for another place")
    ci2 = w.load("flee.coupling").CouplingInterface(e=e, submodel="micro", instance_index=0, num_instances=1, coupling_type="file", outputdir="out", log_exchange_data=False)
    ci2.addMicroConflictLocations(ig)
    want = [n for n, k in zip(names, kinds) if k == "conflict_zone"]
    ctx.check(list(ci2.location_names) == want and all(d == "in" for d in ci2.directions), "ghosts", f"places receiving people {ci2.location_names} {ci2.directions}, expected {want}")
