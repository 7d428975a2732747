"""C09: the real Graph class against spec/Graph.tla"""
import json
import os
import vf


def histories(c):
    cfg = "MCGraphT.cfg" if vf.THOROUGH else "MCGraph.cfg"
    mc = vf.tlc("MCGraph", cfg, env=dict(MAXOPS=12, PARALLEL=0, EMIT=1), workers=1, timeout=1500)
    hs = [(h, [0, 2, 3, 7, 5]) for h in mc.prints("HIST")]
    n = 2500 if vf.THOROUGH else 250
    # in simulation mode an invariant which prints at the last step emits one history per behaviour
    sims = []
    for ops in (9, 14):
        s = vf.tlc("MCGraph", "MCGraphSim.cfg", env=dict(MAXOPS=ops, PARALLEL=1, EMIT=1), timeout=600,
                   extra=["-simulate", "num=%d" % (n // 8), "-depth", str(ops + 2), "-seed", str(vf.SEED)])
        # (it is evaluated on every successor, so only a sample is replayed)
        hist = s.prints("HIST")
        sims += [(h, [0, 1, 4, 9, 12, 1003, 33]) for h in c.rng.sample(hist, min(len(hist), n))]
    return mc, hs, sims


def check(pid):
    c = vf.Check(pid, "model_checking")
    (drv,) = vf.build("drv_graph")
    d = vf.workdir(pid)
    mc, hs, sims = histories(c)
    if len(hs) < 100 or not sims:
        raise vf.Broken("no histories generated")
    lines, batch = [], []
    allh = hs + sims
    for h, ids in allh:
        q = "q " + " ".join(map(str, ids))
        out = ["r %d" % (13 if len(ids) == 5 else 60)]
        for i, e in enumerate(h):
            out.append(" ".join(map(str, e)))
            if len(ids) > 5 and i % 4 == 3:
                out.append(q)
        out.append(q)
        batch.append("\n".join(out))
    # shard
    shards = 8
    def one(k):
        inp, tr = os.path.join(d, "in%d" % k), os.path.join(d, "tr%d.ndjson" % k)
        with open(inp, "w") as o:
            o.write("\n".join(batch[k::shards]) + "\n")
        rc, out = vf.run([drv, inp, tr], timeout=600)
        if rc not in (0, 3):
            return k, rc, out[-500:], None
        t = vf.tlc("TraceGraph", env=dict(TRACE=tr), timeout=800, name="tg%d" % k)
        done = t.prints("DONE")
        n = sum(1 for _ in open(tr))
        if not done or done[-1]["n"] != n:
            raise vf.Broken("trace not consumed: %s" % t.out[-1500:])
        return k, rc, "", (done[-1]["bad"], tr, n, t.distinct)
    events = queries = states = 0
    for k, rc, out, res in vf.pmap(one, range(shards)):
        if res is None:
            c.violation("the graph driver ended with status %s: %s" % (rc, out), batch[k::shards][:5])
            continue
        bad, tr, n, st = res
        events += n
        states += st
        evs = [json.loads(x) for x in open(tr)]
        queries += sum(len(e["ids"]) ** 2 + 1 for e in evs if e["op"] == "q")
        for b in bad[:3]:
            i = b["line"] - 1
            j = max(x for x in range(i + 1) if evs[x]["op"] == "reset")
            c.violation("%s: %s" % (b["what"], json.dumps(evs[j:i + 1])), evs[j:i + 1])
    c.coverage = dict(states=mc.distinct + states, transitions=mc.generated + events,
                      traces_validated_against_impl=len(allh), exhaustive_graphs=len(hs),
                      random_histories=len(sims), queries=queries, exhaustive=False,
                      samples=[hs[-1][0], sims[0][0]],
                      rule="one insertion history per graph over 4 vertices (exhaustive by TLC), plus random "
                           "histories over 6 vertices with parallel edges, edges from a vertex to itself, repeated vertices and clearing")
    c.assumptions = ["weights are positive multiples of a common unit"]
    return c.finish()
