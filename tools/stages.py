"""What is run for each property."""
import json, os, random
from vlib import *
import walks

STATE = ["id", "res", "comps", "val", "iter", "get", "dyn", "cols", "type"]
FAMILIES = {
    "C01": ["id", "type"], "C02": STATE, "C03": STATE, "C04": STATE, "C05": STATE, "C06": STATE, "C07": STATE, "C08": STATE,
    "C09": ["drop", "res"], "C11": STATE + ["drop"], "C12": STATE, "C13": STATE + ["drop"], "C14": STATE + ["drop"],
    "C15": ["loc", "cols"], "C16": ["slot"], "C18": ["align", "ov"],
}
ALLFAM = STATE + ["slot", "drop", "loc", "align", "ov"]
FAMILIES["C21"] = STATE + ["slot", "drop", "loc"]

def world(histories_quick=150, histories_thorough=2500, shards=8, profile=None):
    """Random histories of one World each, judged by EcsTrace"""
    def stage(ctx):
        prof = profile or ctx.prop
        n = histories_quick if ctx.quick else histories_thorough
        onfile = os.path.join(ctx.dir, "on.json")
        json.dump({"on": FAMILIES[ctx.prop]}, open(onfile, "w")); open(onfile, "a").write("\n")
        batch = n if ctx.quick else 250
        jobs, traces = [], []
        def job(sh, part):
            def run():
                tr = os.path.join(ctx.dir, "world-%d-%d.ndjson" % (sh, part))
                seed = (ctx.seed * 1000 + int(ctx.prop[1:])) * 1000 + sh * 100 + part
                ctx.harness(["world", prof, seed, batch, tr], tr)
                r = ctx.judge("EcsTrace", tr, {"ONFILE": onfile})
                c = {}
                for line in open(tr):
                    op = line.split('"', 4)[3]
                    c[op] = c.get(op, 0) + 1
                    if '"res":"unwound"' in line: c[op + " unwound"] = c.get(op + " unwound", 0) + 1
                    if '"res":"panic"' in line: c[op + " refused"] = c.get(op + " refused", 0) + 1
                if (sh, part) == (0, 0): ctx.sample_file = tr
                else: os.remove(tr)
                return r, c
            return run
        parts = 1 if ctx.quick else max(1, n // batch)
        res = ctx.parallel([job(sh, p) for p in range(parts) for sh in range(shards)])
        ops = {}
        for r, c in res:
            ctx.states += r.distinct; ctx.transitions += r.generated - 1
            ctx.traces += c.get("world", 0)
            for k, v in c.items(): ops[k] = ops.get(k, 0) + v
        ctx.cov["events"] = {**ctx.cov.get("events", {}), **dict(sorted(ops.items()))}
        if not ctx.violations:
            lines = open(ctx.sample_file).read().splitlines()
            ctx.samples.append({"trace": [l[:300] for l in lines[:8]]})
            selftest(ctx, lines, onfile)
    stage.name = "world histories"
    return stage

# How to damage a recorded observation so that a family of checks has to notice
def corrupt(ev, fam):
    op = ev["op"]
    if fam == "id" and op == "full" and ev["alive"]: ev["alive"] = ev["alive"][1:]; return True
    if fam == "slot" and op == "new" and ev["id"] >= 0: ev["slot"] = 100000; ev["many"] = 1; return True
    if fam == "res" and op in ("add", "remd", "addv") and ev["res"] == "ok": ev["res"] = "panic"; return True
    if fam == "comps" and op == "full" and ev["vals"]: ev["vals"] = ev["vals"][1:]; return True
    if fam == "val" and op == "full" and ev["vals"]: ev["vals"][0][2] += 1; return True
    if fam == "iter" and op == "q" and len(ev["rows"]) > 1 and ev["part"] == 0: ev["rows"][0] = ev["rows"][1]; return ev["cols"][0][0] == "E"
    if fam == "get" and op == "qg" and ev["res"] == "ok": ev["res"] = "none"; return True
    if fam == "dyn" and op == "dq" and ev["rows"]: ev["rows"] = ev["rows"][1:]; ev["w"] = ev["w"][1:]; return True
    if fam == "cols" and op == "dc" and ev["chunks"]: ev["chunks"][0][2][0] += 1; return True
    if fam == "drop" and "dropped" in ev: ev["dropped"] = [[0, 1234567, 1]]; return True
    if fam == "loc" and op == "snap" and len(ev["at"]) > 1: ev["at"][0][1:] = ev["at"][1][1:]; return True
    if fam == "type" and ev.get("regs"):
        ev["regs"][0][1] += 1000; return op != "world"
    if fam == "align" and "mis" in ev: ev["mis"] = 1; return True
    if fam == "ov" and op == "addr" and ev["iv"]: ev["iv"][0][3] = ev["iv"][0][2] - 1; return True
    return False

def selftest(ctx, lines, onfile):
    """The binding is live: a trace with one damaged field is rejected, for every family that counts here"""
    fams = FAMILIES[ctx.prop]
    if ctx.quick: fams = [random.Random(ctx.seed * 31 + int(ctx.prop[1:])).choice(fams)]
    def one(fam):
        def run():
            out = []
            hit, known = None, {}
            for n, l in enumerate(lines[:4000]):
                ev = json.loads(l)
                if ev["op"] == "world": known = {}
                if hit is None and n > 3:
                    # of a type that has its id already
                    if fam == "type" and not (ev.get("regs") and known.get(ev["regs"][0][0]) == ev["regs"][0][1]): pass
                    elif corrupt(ev, fam): hit = n
                    else: ev = json.loads(l)
                if ev.get("regs") and hit is None: known.update({r[0]: r[1] for r in ev["regs"]})
                out.append(json.dumps(ev, separators=(",", ":")))
                if hit is not None and n > hit: break
            if hit is None:
                ctx.note("self-test: no event to damage for family " + fam); return
            if fam == "slot":
                # one slot more than ever existed together
                ev = json.loads(out[0]); out = [out[0]]
                for i in range(2):
                    out.append('{"op":"new","md":[-1,0],"parts":[],"end":"build","res":"ok","id":%d,"slot":%d,"regs":[],"dropped":[]}' % (i, i))
                    out.append('{"op":"despawn","e":%d,"res":"true","dropped":[]}' % i)
            tr = os.path.join(ctx.dir, "selftest-%s.ndjson" % fam)
            open(tr, "w").write("\n".join(out) + "\n")
            r = run_tlc("EcsTrace", "EcsTrace.cfg", {"ONFILE": onfile, "TRACE": tr})
            if r.consumed and r.consumed[0] == r.consumed[1]:
                raise ToolError("self-test: the trace damaged for family %s was accepted: %s" % (fam, tr))
            ctx.count("selftest_damaged_traces_rejected", 1)
        return run
    ctx.parallel([one(f) for f in fams])

UVEC = {"C18": ["align"], "C19": ["seq"], "C20": ["own"], "C21": ["seq", "own"]}

def unwind_model(ctx):
    """The steps in which the rows of groups are removed, with destructors that panic; orders that are wrong are found"""
    ctx.model("Unwind", "Unwind.cfg" if ctx.quick else "UnwindDeep.cfg", workers=4, timeout=2000)
    for c in ("UnwindBare.cfg", "UnwindFirst.cfg"):
        r = run_tlc("Unwind", c)
        if "Invariant Columns is violated" not in r.out: raise ToolError("model Unwind %s: the wrong order was not found: %s" % (c, r.out[-2000:]))
        ctx.count("wrong_designs_rejected", 1)
unwind_model.name = "unwinding model"

def uvec_model(ctx):
    """Every transition of MCUntypedVec, replayed over every element type"""
    m = (4 if ctx.prop == "C18" else 5) if ctx.quick else 6
    r = ctx.model("MCUntypedVec", "MCUntypedVec%d.cfg" % m, workers=2)
    es = walks.edges(r.out)
    ws = walks.cover(es, json.dumps([[], []]), random.Random(ctx.seed))
    shards = [ws[k::8] for k in range(8)]
    txt = lambda l: ",".join(map(str, l)) or "-"
    def job(k):
        def run():
            f = os.path.join(ctx.dir, "walks-%d.txt" % k)
            with open(f, "w") as o:
                for w in shards[k]:
                    o.write("walk\n")
                    for n in w:
                        op, d = es[n][1], json.loads(es[n][2])
                        o.write("%s %d %d %d %s %s %s %s\n" % (op["op"], op["v"], op["i"], op["t"], op["res"], txt(op["lost"]), txt(d[0]), txt(d[1])))
            out = ctx.harness(["uvec-replay", f, ",".join(UVEC[ctx.prop]), f + ".log"], f + ".log", timeout=600)
            if k: os.remove(f)
            return [int(x) for x in re.findall(r"\d+", out)]
        return run
    res = ctx.parallel([job(k) for k in range(8) if shards[k]])
    ctx.traces += sum(x[1] for x in res)
    ctx.count("vector_walk_steps_replayed", sum(x[0] for x in res))
    ctx.cov["vector_edges_covered"] = len(set(n for w in ws for n in w))
    if not ctx.violations:
        ctx.samples.append({"walk": [es[n][1] for n in ws[0][:6]]})
        # the comparison is live: one wrong expectation is noticed
        f = os.path.join(ctx.dir, "walks-0.txt")
        lines = open(f).read().splitlines()
        for n, l in enumerate(lines):
            x = l.split(" ")
            if x[0] == "remove" and x[4] == "ok" and n > 20:
                if ctx.prop == "C19": x[6] = "9,9,9,9"
                elif ctx.prop == "C20": x[5] = "9"
                else: break
                lines[n] = " ".join(x)
                open(f + ".bad", "w").write("\n".join(lines) + "\n")
                p = subprocess.run([ctx.bin, "uvec-replay", f + ".bad", ",".join(UVEC[ctx.prop]), f + ".log"], stdout=subprocess.PIPE)
                if p.returncode != 3: raise ToolError("self-test: a damaged walk was accepted")
                ctx.count("selftest_damaged_walks_rejected", 1)
                break
uvec_model.name = "vector state graph replay"

def uvec_traces(ctx):
    """Long random executions of two vectors, judged by UVecTrace"""
    onfile = os.path.join(ctx.dir, "uon.json")
    open(onfile, "w").write(json.dumps({"on": UVEC[ctx.prop]}) + "\n")
    def job(k, seed):
        def run():
            tr = os.path.join(ctx.dir, "uvec-%d.ndjson" % k)
            out = ctx.harness(["uvec-throws" if ctx.prop == "C21" else "uvec", seed, 16, 120 if ctx.quick else 300, tr], tr)
            r = ctx.judge("UVecTrace", tr, {"ONFILE": onfile})
            if k: os.remove(tr)
            return r
        return run
    n = 8 if ctx.quick else 160
    res = ctx.parallel([job(k, (ctx.seed * 100 + int(ctx.prop[1:])) * 1000 + k) for k in range(n)])
    for r in res:
        ctx.states += r.distinct; ctx.transitions += r.generated - 1
    ctx.traces += 16 * len(res)
    ctx.count("vector_events", sum(r.consumed[1] for r in res))
    if not ctx.violations:
        lines = open(os.path.join(ctx.dir, "uvec-0.ndjson")).read().splitlines()
        ctx.samples.append({"vector trace": [l[:200] for l in lines[:5]]})
        n = next(i for i, l in enumerate(lines) if i > 30 and '"op":"remove"' in l)
        ev = json.loads(lines[n])
        if ctx.prop == "C19": ev["a"] = ev["a"] + [5]
        elif ctx.prop in ("C20", "C21"): ev["dropped"] = ev["dropped"] + [1]
        else: ev["mis"] = 1
        tr = os.path.join(ctx.dir, "selftest-uvec.ndjson")
        open(tr, "w").write("\n".join(lines[:n] + [json.dumps(ev)]) + "\n")
        r = run_tlc("UVecTrace", "UVecTrace.cfg", {"ONFILE": onfile, "TRACE": tr})
        if r.consumed and r.consumed[0] == r.consumed[1]: raise ToolError("self-test: a damaged vector trace was accepted")
        ctx.count("selftest_damaged_traces_rejected", 1)
uvec_traces.name = "vector traces"

def simple_traces(name, module, args, quick_n, thorough_n, damage):
    """Recorded executions judged by a trace specification without families. damage: lines -> damaged lines, for the self-test"""
    def stage(ctx):
        def job(k):
            def run():
                tr = os.path.join(ctx.dir, "%s-%d.ndjson" % (name, k))
                ctx.harness(args(ctx, (ctx.seed * 100 + int(ctx.prop[1:])) * 1000 + k, tr), tr, timeout=600)
                r = ctx.judge(module, tr, {})
                ctx.traces += sum('"op":"world"' in x for x in open(tr))
                if k: os.remove(tr)
                return r
            return run
        res = ctx.parallel([job(k) for k in range(quick_n if ctx.quick else thorough_n)])
        for r in res:
            ctx.states += r.distinct; ctx.transitions += r.generated - 1
        ctx.count(name + "_events", sum(r.consumed[1] for r in res))
        if ctx.violations: return
        lines = open(os.path.join(ctx.dir, name + "-0.ndjson")).read().splitlines()
        ctx.samples.append({name + " trace": [l[:200] for l in lines[:6]]})
        bads = []
        try:
            for bad in damage(lines): bads.append(bad)
        except (RuntimeError, StopIteration, IndexError, KeyError):
            ctx.note("self-test: no event to damage")
        for n, bad in enumerate(bads):
            tr = os.path.join(ctx.dir, "selftest-%s.ndjson" % name)
            open(tr, "w").write("\n".join(bad) + "\n")
            r = run_tlc(module, module + ".cfg", {"TRACE": tr})
            if r.consumed and r.consumed[0] == r.consumed[1]: raise ToolError("self-test: damaged %s trace %d was accepted" % (name, n))
            ctx.count("selftest_damaged_traces_rejected", 1)
    stage.name = name + " traces"
    return stage

def damage_heap(lines):
    n = next(i for i, l in enumerate(lines) if i > 40 and '"op":"d"' in l)
    ev = json.loads(lines[n])
    yield lines[:n] + [json.dumps({**ev, "al": ev["al"] * 2})]
    yield lines[:n + 1] + [lines[n]]
    e = next(i for i, l in enumerate(lines) if i > n and '"op":"end"' in l)
    yield lines[:n] + lines[n + 1:e + 1]

def damage_churn(lines):
    ev = json.loads(lines[-2])
    yield lines[:-2] + [json.dumps({**ev, "held": ev["held"] + 8000})]

heap = simple_traces("heap", "HeapTrace", lambda ctx, seed, tr: ["heap", seed, 60 if ctx.quick else 150, tr], 8, 64, damage_heap)
churn = simple_traces("churn", "ChurnTrace", lambda ctx, seed, tr: ["churn", seed, 3000 if ctx.quick else 12000, tr], 16, 64, damage_churn)

def lock_models(ctx):
    ctx.model("QueryLocks", "QueryLocksSafe2.cfg" if ctx.quick else "QueryLocksSafe.cfg", workers=4)
    ctx.model("QueryLocks", "QueryLocksLive.cfg", workers=4)
    if not ctx.quick: ctx.proof("LockProof", ["LockSteps"])
lock_models.name = "lock protocol model"

def lock_walks(ctx):
    """Every transition of MCQueryHold with real threads"""
    r = ctx.model("MCQueryHold", "MCQueryHold.cfg", workers=2)
    es = walks.edges(r.out)
    init = next(s for s, o, d in es if '"op"' not in s and all(json.loads(s)[k][a] == "None" for k in (0, 1) for a in range(3))) if es else ""
    ws = walks.cover(es, init, random.Random(ctx.seed), 40)
    random.Random(ctx.seed).shuffle(ws)
    ctx.cov["lock_edges_covered"] = len(set(n for w in ws for n in w))
    def job(k):
        def run():
            f = os.path.join(ctx.dir, "lockwalks-%d.txt" % k)
            with open(f, "w") as o:
                for w in ws[k::16]:
                    o.write("walk\n")
                    for n in w:
                        op = es[n][1]
                        o.write("rel %d\n" % op["a"] if op["op"] == "rel" else "ask %d %s\n" % (op["a"], ",".join("%s%d" % tuple(x) for x in op["q"])))
            tr = f.replace(".txt", ".ndjson")
            ctx.harness(["lock-walks", f, ctx.seed * 100 + k, tr], tr, timeout=600)
            r = ctx.judge("LockTrace", tr, {})
            n = sum('"op":"world"' in x for x in open(tr))
            if k: os.remove(tr)
            return r, n
        return run
    for r, n in ctx.parallel([job(k) for k in range(16)], workers=8):
        ctx.states += r.distinct; ctx.transitions += r.generated - 1; ctx.traces += n
        ctx.count("lock_walk_events", r.consumed[1])
lock_walks.name = "lock state graph replay"

def damage_locks(lines):
    # a conflicting query that is granted too early, one that is never granted, and a panic
    n = next(i for i, l in enumerate(lines) if '"op":"blocked"' in l)
    a = json.loads(lines[n])["a"]
    yield lines[:n] + ['{"op":"acq","a":%d}' % a]
    m = next(i for i, l in enumerate(lines) if i > 0 and '"op":"ask"' in lines[i - 1] and '"weak":0' in lines[i - 1] and '"op":"acq"' in l)
    yield lines[:m] + [lines[m].replace("acq", "stuck")]
    yield lines[:m] + [lines[m].replace("acq", "panic")]

locks = simple_traces("locks", "LockTrace", lambda ctx, seed, tr: ["locks", seed, 25 if ctx.quick else 100, tr], 16, 96, damage_locks)

def arch_lines(ops):
    out = ["walk"]
    txt = lambda l: ",".join(map(str, l)) or "-"
    for o in ops:
        new = [x for r in sorted(o["R"]) for x in r[:2]]
        out.append("%s %d %d %s %s %s %d %s" % (o["op"], o["a"], o["b"], txt(o["ks"]), txt(o["cs"]), txt(new), o["id"],
                                                txt([x for p in o["at"] for x in p])))
    return "\n".join(out) + "\n"

def arch_walks(ctx):
    """Behaviours of ArcheTape, the model of how the world is built: all of a small one, long ones of larger ones"""
    onfile = os.path.join(ctx.dir, "on.json")
    open(onfile, "w").write(json.dumps({"on": FAMILIES[ctx.prop]}) + "\n")
    def graph(cfg, parts):
        def run():
            r = ctx.model("MCArcheTape", cfg, workers=2, timeout=3000)
            es = walks.edges(r.out)
            ws = walks.cover(es, json.dumps([[], [], [], []]), random.Random(ctx.seed), 40)
            ctx.cov["arch_edges_covered " + cfg] = len(set(n for w in ws for n in w))
            return [[[es[n][1] for n in w] for w in ws[k::parts]] for k in range(parts)]
        return run
    def chains(cfg, seed):
        def run():
            r = ctx.model("SimArcheTape", cfg, workers=1, timeout=3000, env={"SEED": str(seed)})
            ws = {}
            for line in r.out.splitlines():
                if line.startswith('"WALK '):
                    d = json.loads(json.loads(line)[5:])
                    ws.setdefault(d["walk"], {})[d["n"]] = d["o"]
            return [[[w[n] for n in sorted(w)] for w in ws.values()]]
        return run
    base = ctx.seed * 100 + int(ctx.prop[1:])
    if ctx.quick: jobs = [graph("MCArcheTape6.cfg", 4)] + [chains("SimArcheTape.cfg", base * 10 + k) for k in range(3)]
    else: jobs = [graph("MCArcheTape7.cfg", 16)] + [chains("SimArcheTape%s.cfg" % ("" if k % 2 else "Wide"), base * 100 + k) for k in range(48)]
    shards = [x for part in ctx.parallel(jobs) for x in part]
    def job(k):
        def run():
            f = os.path.join(ctx.dir, "archwalks-%d.txt" % k)
            open(f, "w").write("".join(map(arch_lines, shards[k])))
            tr = f.replace(".txt", ".ndjson")
            out = ctx.harness(["world-walks", f, ctx.prop, base * 100 + k, tr], tr, timeout=600)
            r = ctx.judge("EcsTrace", tr, {"ONFILE": onfile}, timeout=3000)
            os.remove(f); os.remove(tr)
            return r, [int(x) for x in re.findall(r"\d+", out)]
        return run
    for r, (steps, compared, same, cut) in ctx.parallel([job(k) for k in range(len(shards))]):
        ctx.states += r.distinct; ctx.transitions += r.generated - 1
        ctx.count("arch_walk_steps_replayed", steps); ctx.count("arch_walk_events_judged", r.consumed[1])
        ctx.count("arch_positions_compared", compared); ctx.count("arch_positions_as_in_the_model", same)
    ctx.traces += sum(map(len, shards))
    ctx.samples.append({"walk of ArcheTape": shards[0][0][:5]})
arch_walks.name = "world state graph replay"

def builder(ctx):
    """The entity builder and its buffer: every transition of Builder replayed"""
    heap = ctx.prop == "C17"
    onfile = os.path.join(ctx.dir, "bon2.json")
    open(onfile, "w").write(json.dumps({"on": ["heap"] if heap else FAMILIES[ctx.prop]}) + "\n")
    cfgs = ["MCBuilder3.cfg"] if ctx.quick else ["MCBuilder3.cfg", "MCBuilder4.cfg"]
    def graph(cfg):
        def run():
            r = ctx.model("MCBuilder", cfg, workers=1, timeout=1500)
            sizes = re.search(r'"SIZES ([^"]*)"', r.out).group(1)
            es = walks.edges(r.out)
            ws = walks.cover(es, json.dumps([-1, [], 0, []]), random.Random(ctx.seed), 200)
            return [(sizes, [es[n][1] for n in w]) for w in ws]
        return run
    ws = [w for x in ctx.parallel([graph(c) for c in cfgs]) for w in x]
    parts = 4 if ctx.quick else 16
    def job(k):
        def run():
            f = os.path.join(ctx.dir, "builderwalks-%d.txt" % k)
            open(f, "w").write("".join("walk %s\n" % sizes + "".join("%s %d\n" % (o["op"], o["c"]) for o in w) for sizes, w in ws[k::parts]))
            tr = f.replace(".txt", ".ndjson")
            out = ctx.harness(["builder-walks", f, ctx.seed * 100 + k, "heap" if heap else "world", tr], tr, timeout=600)
            r = ctx.judge("HeapTrace" if heap else "EcsTrace", tr, {"ONFILE": onfile}, timeout=3000)
            os.remove(f); os.remove(tr)
            return r, int(re.search(r"\d+", out).group())
        return run
    for r, steps in ctx.parallel([job(k) for k in range(parts)]):
        ctx.states += r.distinct; ctx.transitions += r.generated - 1
        ctx.count("builder_walk_steps_replayed", steps)
    ctx.traces += len(ws)
builder.name = "builder state graph replay"
BUILDER = {"C04", "C09", "C14", "C17"}

BULK = {"C01": ["id"], "C02": ["stale"], "C03": ["comps", "iter", "get"], "C04": ["iter", "get", "comps"], "C05": ["iter"], "C06": ["get"],
        "C07": ["dyn", "cols"], "C08": ["iter", "get"], "C09": ["drop", "res"], "C15": ["loc", "cols"], "C16": ["slot"]}

def bulk(ctx):
    """Very many entities, and very many entities one after another, judged by counting (BulkTrace)"""
    onfile = os.path.join(ctx.dir, "bon.json")
    open(onfile, "w").write(json.dumps({"on": BULK[ctx.prop]}) + "\n")
    deep = ctx.prop in ("C01", "C02")
    depth = ((1 << 24) if ctx.quick else (1 << 27)) + 700 if deep else 70000
    variants = [0, 1, 1] + list(range(2, 14 if ctx.quick else 130))
    def job(k, v):
        def run():
            tr = os.path.join(ctx.dir, "bulk-%d.ndjson" % k)
            ctx.harness(["bulk", (ctx.seed * 100 + int(ctx.prop[1:])) * 1000 + k, v, depth, tr], tr, timeout=240 if ctx.quick else 3000, big=deep)
            r = ctx.judge("BulkTrace", tr, {"ONFILE": onfile})
            ctx.count("bulk_single_operations", sum(json.loads(l).get("n", 0) for l in open(tr)))
            if k != 3: os.remove(tr)
            return r
        return run
    res = ctx.parallel([job(k, v) for k, v in enumerate(variants)])
    for r in res:
        ctx.states += r.distinct; ctx.transitions += r.generated - 1
    ctx.traces += len(res)
    ctx.count("bulk_events", sum(r.consumed[1] for r in res))
    if ctx.violations: return
    lines = open(os.path.join(ctx.dir, "bulk-3.ndjson")).read().splitlines()
    ctx.samples.append({"bulk trace": [l[:300] for l in lines[:4]]})
    for fam in BULK[ctx.prop]:
        ev = json.loads(lines[2])
        if fam == "id": ev["alive"] += 1
        elif fam == "stale": ev["odd"] = 1
        elif fam == "slot": ev["slots"] += 100000
        elif fam in ("iter", "dyn", "cols"): ev[{"iter": "q", "dyn": "d", "cols": "c"}[fam]][-1][1] += 1
        elif fam == "get": ev["get"][1] += 1
        elif fam == "comps": ev["has"] += 1
        elif fam == "loc": ev["at"] -= 1
        elif fam == "drop": ev["live"] += 1
        elif fam == "res": ev["done"] += 1
        tr = os.path.join(ctx.dir, "selftest-bulk.ndjson")
        open(tr, "w").write("\n".join(lines[:2] + [json.dumps(ev)] + lines[3:]) + "\n")
        r = run_tlc("BulkTrace", "BulkTrace.cfg", {"ONFILE": onfile, "TRACE": tr})
        if r.consumed and r.consumed[0] == r.consumed[1]: raise ToolError("self-test: bulk trace damaged for %s was accepted" % fam)
        ctx.count("selftest_damaged_traces_rejected", 1)
bulk.name = "bulk traces"

IDS = {"C01": ["id"], "C02": ["stale"], "C16": ["slot"]}

def ids(ctx):
    """The allocator of ids on its own: every transition of MCEntityAlloc, random executions, millions of ids"""
    onfile = os.path.join(ctx.dir, "ion.json")
    open(onfile, "w").write(json.dumps({"on": IDS[ctx.prop]}) + "\n")
    r = ctx.model("MCEntityAlloc", "MCEntityAlloc%d.cfg" % (5 if ctx.quick else 6), workers=2)
    if not ctx.quick: ctx.model("MCEntityAlloc", "MCEntityAllocWrap.cfg", workers=4)
    if not ctx.quick and ctx.prop != "C16": ctx.proof("IdProof", ["IdSteps"])
    es = walks.edges(r.out)
    ws = walks.cover(es, json.dumps([[], [], []]), random.Random(ctx.seed), 60)
    ctx.cov["id_edges_covered"] = len(set(n for w in ws for n in w))
    base = (ctx.seed * 100 + int(ctx.prop[1:])) * 1000
    def judged(name, args):
        def run():
            tr = os.path.join(ctx.dir, name + ".ndjson")
            ctx.harness(args + [tr], tr, timeout=240 if ctx.quick else 1200, big=name.startswith("idbulk"))
            r = ctx.judge("IdTrace", tr, {"ONFILE": onfile})
            n = sum('"op":"world"' in x for x in open(tr))
            if name != "ids-0": os.remove(tr)
            return r, n
        return run
    jobs = []
    for k in range(8):
        f = os.path.join(ctx.dir, "idwalks-%d.txt" % k)
        with open(f, "w") as o:
            for w in ws[k::8]:
                o.write("walk\n" + "".join("spawn\n" if es[n][1]["op"] == "spawn" else "despawn %d\n" % es[n][1]["e"] for n in w))
        jobs.append(judged("idwalks-%d" % k, ["id-walks", f]))
    for k in range(8 if ctx.quick else 64): jobs.append(judged("ids-%d" % k, ["ids", base + k, 60]))
    sizes = [1000, 70000, (1 << 21) + 5000] + ([(1 << 24) + 5000] if ctx.prop == "C01" or not ctx.quick else []) + ([1 << 26] if not ctx.quick and ctx.prop == "C01" else [])
    for k, z in enumerate(sizes): jobs.append(judged("idbulk-%d" % k, ["id-bulk", base + k, z]))
    res = ctx.parallel(jobs)
    for r, n in res:
        ctx.states += r.distinct; ctx.transitions += r.generated - 1; ctx.traces += n
    ctx.count("id_events", sum(r.consumed[1] for r, n in res))
    if ctx.violations: return
    lines = open(os.path.join(ctx.dir, "ids-0.ndjson")).read().splitlines()
    ctx.samples.append({"id trace": lines[:6]})
    seen = set()
    for n, l in enumerate(lines):
        # a slot used before is taken while others may be free: no fresh one may be
        if n > 20 and '"alive"' in l and ctx.prop != "C16": break
        if ctx.prop == "C16" and '"spawn"' in l:
            s = json.loads(l)["slot"]
            if s in seen: break
            seen.add(s)
    else:
        ctx.note("self-test: no event to damage"); return
    ev = json.loads(lines[n])
    if ctx.prop == "C16": ev["slot"] += 1000
    elif ctx.prop == "C01": ev["set"] = ev["set"][1:] or [1000]
    else: ev["set"].append(1000)
    tr = os.path.join(ctx.dir, "selftest-ids.ndjson")
    open(tr, "w").write("\n".join(lines[:n] + [json.dumps(ev)]) + "\n")
    r = run_tlc("IdTrace", "IdTrace.cfg", {"ONFILE": onfile, "TRACE": tr})
    if r.consumed and r.consumed[0] == r.consumed[1]: raise ToolError("self-test: damaged id trace was accepted")
    ctx.count("selftest_damaged_traces_rejected", 1)
ids.name = "id allocator"

WIDE = {"C03": ["comps", "ptr", "get", "iter", "dyn", "res"], "C04": ["iter", "get", "ptr", "dyn", "cols", "res"], "C05": ["iter"], "C06": ["get"],
        "C07": ["dyn", "cols"], "C08": ["iter", "get", "dyn", "cols"], "C09": ["drop", "res"], "C13": ["dyn", "cols", "ptr", "comps", "drop", "id", "res"],
        "C14": ["iter", "get", "dyn", "comps", "res"], "C15": ["loc", "cols"]}

def wide(ctx):
    """Very many component sets, judged by WideTrace"""
    onfile = os.path.join(ctx.dir, "won.json")
    open(onfile, "w").write(json.dumps({"on": WIDE[ctx.prop]}) + "\n")
    # 100 + n: n worlds whose groups have the components only here and there
    tags = [3, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 15, 240, 240, 240, 240] * (1 if ctx.quick else 12)
    def job(k, t):
        def run():
            tr = os.path.join(ctx.dir, "wide-%d.ndjson" % k)
            ctx.harness(["wide", (ctx.seed * 100 + int(ctx.prop[1:])) * 1000 + k, t, tr], tr, timeout=240 if ctx.quick else 900, big=8 < t < 100)
            r = ctx.judge("WideTrace", tr, {"ONFILE": onfile}, heap="4g", timeout=1200)
            if k: os.remove(tr)
            return r
        return run
    res = ctx.parallel([job(k, t) for k, t in enumerate(tags)])
    for r in res:
        ctx.states += r.distinct; ctx.transitions += r.generated - 1
    ctx.traces += len(res)
    ctx.count("wide_events", sum(r.consumed[1] for r in res))
    if ctx.violations: return
    lines = open(os.path.join(ctx.dir, "wide-0.ndjson")).read().splitlines()
    ctx.samples.append({"wide trace": [l[:300] for l in lines[:4]]})
    fam = {"t": "iter", "g": "get", "h": "comps", "m": "ptr", "d": "dyn", "c": "cols"}
    for f in WIDE[ctx.prop]:
        for n, l in enumerate(lines):
            ev = json.loads(l)
            if ev["op"] == "look" and fam[ev["how"]] == f and len(ev["rows"]) > 1: ev["rows"][0] = ev["rows"][1]
            elif ev["op"] == "where" and f == "loc" and len(ev["at"]) > 1: ev["at"][0][1:] = ev["at"][1][1:]
            elif ev["op"] == "make" and f == "drop": ev["live"] += 1
            elif ev["op"] == "kill" and f == "id": ev["odd"] = 1
            elif ev["op"] == "look" and f == "res": ev = {"op": "panic", "in": "flip", "how": ""}
            else: continue
            tr = os.path.join(ctx.dir, "selftest-wide.ndjson")
            open(tr, "w").write("\n".join(lines[:n] + [json.dumps(ev)]) + "\n")
            r = run_tlc("WideTrace", "WideTrace.cfg", {"ONFILE": onfile, "TRACE": tr})
            if r.consumed and r.consumed[0] == r.consumed[1]: raise ToolError("self-test: wide trace damaged for %s was accepted" % f)
            ctx.count("selftest_damaged_traces_rejected", 1)
            break
wide.name = "wide traces"

def contract(ctx):
    """The contract itself, in small worlds: what the traces are judged by has the properties it is there for"""
    if ctx.quick: ctx.model("MCEcs", "MCEcs.cfg", workers=4)
    else:
        ctx.model("MCEcs", "MCEcsDeep.cfg", workers=8, timeout=2000)
        ctx.model("MCEcs", "MCEcsPlain.cfg", workers=8, timeout=2000)
contract.name = "contract model"
CONTRACT = {"C03", "C09", "C13"}

def bits(ctx):
    """How a query goes through the bit vectors of its components, word by word"""
    for c in ["BitsetIter4.cfg"] if ctx.quick else ["BitsetIter6.cfg", "BitsetIter5w.cfg"]: ctx.model("BitsetIter", c, workers=4, timeout=2000)
bits.name = "bit vector model"

STAGES = {p: [world(), arch_walks] + [contract] * (p in CONTRACT) + [bits] * (p in ("C05", "C07")) + [builder] * (p in BUILDER) + [ids] * (p in IDS) + [bulk] * (p in BULK) + [wide] * (p in WIDE) for p in FAMILIES}
STAGES["C18"] = [world(), arch_walks, uvec_model, uvec_traces]
STAGES["C21"] = [unwind_model, world(), arch_walks, uvec_traces]
STAGES["C10"] = [lock_models, lock_walks, locks]
STAGES["C16"] = [world(), arch_walks, ids, bulk, churn]
STAGES["C17"] = [heap, builder]
STAGES["C19"] = [uvec_model, uvec_traces]
STAGES["C20"] = [uvec_model, uvec_traces]

# for MANIFEST.json
_W = "TLC judges recorded executions of random histories against Ecs.tla"
_A = "every transition of the design model ArcheTape.tla (model-checked to refine Ecs.tla) is replayed into the code"
_I = "the id allocator alone: EntityAlloc.tla (checked against Ids.tla) replayed edge by edge, recorded executions judged"
_B = "very large worlds judged through counts (BulkTrace.tla)"
_X = "very many component sets (WideTrace.tla)"
_D = "every transition of the builder's design model Builder.tla replayed"
_M = "Ecs.tla itself model-checked (MCEcs.tla)"
_BOUND = "Exhaustive for the small constants of the models; bounded by the histories run in the recorded executions. No hooks: judged by what the public API, destructors and the allocator show."
def _technique(p):
    if p == "C10": return "TLA+/TLC: lock protocol QueryLocks.tla (safety, liveness; TLAPS proof without bounds), every transition of MCQueryHold.tla replayed on real threads, trace validation of random schedules (LockTrace.tla)"
    if p == "C17": return "TLA+/TLC: trace validation of the whole allocator traffic against Heap.tla; " + _D
    if p in ("C19", "C20"): return "TLA+/TLC: every transition of MCUntypedVec.tla replayed on 20 layouts, trace validation of random runs (UVecTrace.tla)"
    parts = [_W, _A]
    if p == "C21": return "TLA+/TLC: " + _W + ", destructors among them panicking; " + _A + "; Unwind.tla model-checked; vectors judged by UVecTrace.tla"
    if p in CONTRACT: parts.append(_M)
    if p in BUILDER: parts.append(_D)
    if p in IDS or p == "C16": parts.append(_I)
    if p in BULK or p == "C16": parts.append(_B)
    if p in WIDE: parts.append(_X)
    if p == "C16": parts.append("memory held round by round judged by ChurnTrace.tla")
    if p == "C18": parts.append("the vector alone (MCUntypedVec.tla, UVecTrace.tla)")
    return "TLA+/TLC: " + "; ".join(parts)
TECHNIQUE = {p: _technique(p) for p in STAGES}
NOTE = {p: _BOUND for p in STAGES}
NOTE["C01"] = NOTE["C02"] = _BOUND + " The allocator without bounds is proved with TLAPS (IdProof.tla, thorough); ids repeat after 2^32 reuses of one slot."
NOTE["C10"] = "The protocol is model-checked for three actors and two components and proved without bounds (LockProof.tla, thorough); the code is bound by replay of every transition on real threads and by recorded schedules. Waiting is decided by time, with many seconds of silence before a verdict."
NOTE["C17"] = "Every block obtained and released in the executions run is judged; bounded by those executions."
NOTE["C19"] = NOTE["C20"] = "All states of two vectors up to 4 to 6 elements, 20 element layouts, plus random runs."
