"""C26, C24: the algebra of motions and the averaging of measured poses"""
import json
import os
import numpy as np
import vf
from world import T, dist, inv, pose6, rodrigues, write_raw_config


# ------------------------------------------------------------------ C26
def motion(m):
    return T(np.array(m["r"], float), np.array(m["t"], float))


def as_int(M, tol=2e-3):
    """[r, t] with integer entries; an impossible motion if it is not one"""
    M = np.asarray(M, float)
    I = np.rint(M)
    if not np.all(np.isfinite(M)) or np.abs(M - I).max() > tol:
        return [[[9, 9, 9]] * 3, [0, 0, 0]]
    I = I.astype(int)
    if list(I[3]) != [0, 0, 0, 1]:
        return [[[8, 8, 8]] * 3, [0, 0, 0]]
    return [I[:3, :3].tolist(), I[:3, 3].tolist()]


PIN = [[0, 0, 0], [3, 0, 0], [0, -2, 0], [1, 2, 5]]


# the generators of a world of words: angles and distances of three motions
WORLDS = [((.004, .03, .09), .8), ((.0007, .2, 1.0), 2), ((3.1415, 3.13, 2.9), 1.5), ((1.1, 2.2, 3.14159), 1),
          ((.06, 3.1, .5), 4), ((1e-5, 1.7, .08), 1), ((np.pi, .01, 2.5), 1), ((.3, .6, .045), 300), ((2.0, .15, .05), .02)]


def letters(k, rng):
    """three motions of world k, and the words of up to four letters with what they stand for"""
    angles, far = WORLDS[k]
    gens = []
    for j, a in enumerate(angles):
        ax = rng.normal(0, 1, 3)
        ax /= np.linalg.norm(ax)
        if j == k % 4:
            ax = np.eye(3)[k % 3] * (1 - 2 * (k % 2))       # about an axis of the frame
        gens.append(T(rodrigues(ax * a), rng.uniform(-1, 1, 3) * far))
    g = {s * (i + 1): (m if s > 0 else inv(m)) for i, m in enumerate(gens) for s in (1, -1)}
    words, last = [[]], [[]]
    mats = {(): np.eye(4)}
    for _ in range(4):
        last = [w + [x] for w in last for x in g if not w or w[-1] != -x]
        for w in last:
            mats[tuple(w)] = mats[tuple(w[:-1])] @ g[w[-1]]
        words += last
    return g, words, np.array([mats[tuple(w)] for w in words]), far


def named(M, words, mats, far):
    """the word a motion equals"""
    if not np.all(np.isfinite(M)):
        return [0]
    sc = np.ones((4, 4))
    sc[:3, 3] = max(far, 1)
    d = (np.abs(mats - M) / sc).max(axis=(1, 2))
    i = int(d.argmin())
    return words[i] if d[i] < 2e-5 else [0]


def words(c, drv, d):
    """programs over nameless motions, the motions chosen from tiny to almost half turns"""
    progs, gen = [], 0
    n_prog = 900 if vf.THOROUGH else 90
    for k, ops in enumerate((6, 12, 20) if vf.THOROUGH else (6, 12)):
        t = vf.tlc("MCWords", env=dict(MAXOPS=ops), timeout=600, name="words%d" % k,
                   extra=["-simulate", "num=%d" % max(12, n_prog // 8), "-depth", str(ops + 1), "-seed", str(vf.SEED + k)])
        if t.invariant:
            raise vf.Broken("the words break " + t.invariant)
        ps = t.prints("PROG")
        progs += c.rng.sample(ps, min(len(ps), n_prog))
        gen += t.generated
    if len(progs) < 40:
        raise vf.Broken("too few programs of words: %d" % len(progs))
    jobs = [(p, (i * 2 + j) % len(WORLDS)) for i, p in enumerate(progs) for j in range(2)]
    pin = [np.array(x, float) for x in PIN]
    P4 = np.array([np.append(x, 1.0) for x in pin]).T

    def one(k):
        inp, outp, tr = (os.path.join(d, "w%s%d" % (n, k)) for n in ("in", "out", "tr"))
        mine = jobs[k::vf.CORES]
        lines, evs = [], []
        rng = np.random.default_rng(vf.SEED * 77 + k)
        world = {q: letters(q, rng) for q in {q for _, q in mine}}
        for p, q in mine:
            g = world[q][0]
            lines.append("reset " + " ".join(repr(float(v)) for x in pin for v in x))
            evs.append((dict(op="reset"), q))
            for e in p:
                a = {"load": lambda: " ".join(repr(float(v)) for v in g[e["g"]].reshape(-1)),
                     "mul": lambda: e["j"], "inv": lambda: e["k"], "via": lambda: e["f"], "swap": lambda: e["j"]}[e["op"]]()
                lines.append("%s %d %s" % (e["op"], e["i"], a))
                evs.append((e, q))
        open(inp, "w").write("\n".join(lines) + "\n")
        rc, out = vf.run([drv, "prog", inp, outp], timeout=300)
        if rc != 0:
            return rc, out[-600:], None, None
        recs = []
        for (e, q), line in zip(evs, open(outp)):
            if e["op"] == "reset":
                recs.append(dict(op="reset", i=1, world=q))
                continue
            r = json.loads(line)
            nm = lambda M: named(M, *world[q][1:])
            got = {"matrix": nm(np.array(r["mat"], float).reshape(4, 4)), "vectors": nm(pose6(np.array(r["vec"], float)))}
            if "rot" in r:
                got["single vectors"] = nm(pose6(np.array(r["rot"], float)))
            X = np.vstack([np.array(r["pts"], float).reshape(-1, 3).T, np.ones(len(PIN))])
            recs.append(dict(op=e["op"], i=e["i"], j=e.get("j", 0), k=e.get("k", 0), f=e.get("f", ""), g=e.get("g", 0),
                             got=got, pts=nm(X @ np.linalg.inv(P4)), hasother="other" in r, world=q,
                             other=nm(np.array(r["other"], float).reshape(4, 4)) if "other" in r else []))
        vf.to_ndjson(tr, recs)
        t = vf.tlc("TraceWords", env=dict(TRACE=tr), timeout=800, name="trw%d" % k)
        done = t.prints("DONE")
        if not done or done[-1]["n"] != len(recs) or len(recs) != len(evs):
            raise vf.Broken("trace not consumed: " + t.out[-1500:])
        return 0, done[-1]["bad"], recs, t.distinct
    steps = states = 0
    for k, (rc, bad, recs, st) in enumerate(vf.pmap(one, range(vf.CORES))):
        if recs is None:
            c.violation("the driver of the motions ended with status %s: %s" % (rc, bad), k)
            continue
        steps += len(recs)
        states += st
        for b in sorted(bad, key=lambda b: b["line"])[:2]:
            i = b["line"] - 1
            j = max(x for x in range(i + 1) if recs[x]["op"] == "reset")
            h = [{q: r[q] for q in ("op", "i", "j", "k", "f", "g") if q in r} for r in recs[j + 1:i + 1]]
            c.violation("%s after %s with motions %s: got %s" % (b["what"], json.dumps(h[-3:]), WORLDS[recs[i]["world"]],
                                                                 recs[i]["got"]), recs[j:i + 1])
    return len(jobs), steps, states, gen


def rigid(c):
    (drv,) = vf.build("drv_geom")
    d = vf.workdir("C26")
    w_jobs, w_steps, w_states, w_gen = words(c, drv, d)
    n_prog = 1500 if vf.THOROUGH else 160
    progs, states, gen = [], 0, 0
    for k, ops in enumerate((6, 12, 20) if vf.THOROUGH else (6, 12)):
        t = vf.tlc("MCRigid", env=dict(MAXOPS=ops), timeout=600, name="rigid%d" % k,
                   extra=["-simulate", "num=%d" % max(12, n_prog // 8), "-depth", str(ops + 1),
                          "-seed", str(vf.SEED + k)])
        ps = t.prints("PROG")
        progs += c.rng.sample(ps, min(len(ps), n_prog))
        gen += t.generated
    rng = np.random.default_rng(vf.SEED)
    forms = sorted({e["f"] for p in progs for e in p if e["op"] == "via"})
    if len(progs) < 50 or len(forms) < 17:
        raise vf.Broken("too few programs (%d) or forms %s" % (len(progs), forms))
    # each program is also run in copies of the world, conjugated by fixed motions
    Qs = [np.eye(4)] + [T(rodrigues(rng.normal(0, 1.2, 3)), rng.uniform(-1, 1, 3)) for _ in range(2)]
    jobs = []
    for i, p in enumerate(progs):
        for q in ([0, 1 + i % 2] if not vf.THOROUGH else range(3)):
            jobs.append((p, Qs[q]))
    shards = vf.CORES

    def one(k):
        inp, outp, tr = (os.path.join(d, "%s%d" % (n, k)) for n in ("in", "out", "tr"))
        mine = jobs[k::shards]
        lines, evs = [], []
        for p, Q in mine:
            Qi = inv(Q)
            pts = [(Q @ np.array(x + [1.0]))[:3] for x in PIN]
            lines.append("reset " + " ".join(repr(float(v)) for x in pts for v in x))
            evs.append((dict(op="reset"), Q))
            for e in p:
                a = {"load": lambda: " ".join(repr(float(v)) for v in (Q @ motion(e["m"]) @ Qi).reshape(-1)),
                     "mul": lambda: e["j"], "inv": lambda: e["k"], "via": lambda: e["f"],
                     "swap": lambda: e["j"]}[e["op"]]()
                lines.append("%s %d %s" % (e["op"], e["i"], a))
                evs.append((e, Q))
        open(inp, "w").write("\n".join(lines) + "\n")
        rc, out = vf.run([drv, "prog", inp, outp], timeout=300)
        if rc != 0:
            return rc, out[-600:], None, None
        recs = []
        for (e, Q), line in zip(evs, open(outp)):
            if e["op"] == "reset":
                recs.append(dict(op="reset", i=1))
                continue
            r = json.loads(line)
            Qi = inv(Q)
            back = lambda M: as_int(Qi @ M @ Q)
            got = {"matrix": back(np.array(r["mat"], float).reshape(4, 4)), "vectors": back(pose6(np.array(r["vec"], float)))}
            if "rot" in r:
                got["single vectors"] = back(pose6(np.array(r["rot"], float)))
            pp = np.array(r["pts"], float).reshape(-1, 3)
            pp = np.array([(Qi @ np.append(x, 1.0))[:3] for x in pp])
            ip = np.rint(pp)
            pts = ip.astype(int).tolist() if np.abs(pp - ip).max() < 2e-3 else []
            rec = dict(op=e["op"], i=e["i"], j=e.get("j", 0), k=e.get("k", 0), f=e.get("f", ""), got=got,
                       pin=PIN, pts=pts, other=back(np.array(r["other"], float).reshape(4, 4)) if "other" in r else [])
            if e["op"] == "load":
                rec["m"] = [e["m"]["r"], e["m"]["t"]]
            recs.append(rec)
        vf.to_ndjson(tr, recs)
        t = vf.tlc("TraceRigid", env=dict(TRACE=tr), timeout=800, name="trr%d" % k)
        done = t.prints("DONE")
        if not done or done[-1]["n"] != len(recs) or len(recs) != len(evs):
            raise vf.Broken("trace not consumed: " + t.out[-1500:])
        return 0, done[-1]["bad"], recs, t.distinct
    n_ev = 0
    for k, (rc, bad, recs, st) in enumerate(vf.pmap(one, range(shards))):
        if recs is None:
            c.violation("the driver of the motions ended with status %s: %s" % (rc, bad), k)
            continue
        n_ev += len(recs)
        states += st
        for b in bad[:2]:
            i = b["line"] - 1
            j = max(x for x in range(i + 1) if recs[x]["op"] == "reset")
            h = [{q: r[q] for q in ("op", "i", "j", "k", "f") if q in r} for r in recs[j + 1:i + 1]]
            c.violation("%s after %s: got %s" % (b["what"], json.dumps(h[-3:]), recs[i]["got"]), recs[j:i + 1])
    c.coverage = dict(states=states + w_states, transitions=gen + w_gen, traces_validated_against_impl=len(jobs) + w_jobs,
                      programs=len(progs), steps=n_ev + w_steps, word_programs=w_jobs, forms=forms, group_elements=72, exhaustive=False,
                      rule="random register-machine programs over rigid motions by TLC (24 cube rotations x 16 "
                           "translations as loads), each run in its integer form and conjugated by generic motions; "
                           "the laws of the algebra itself are checked exhaustively over 72 motions; likewise programs over words "
                           "whose letters stand for motions from tiny rotations to half turns",
                      samples=[progs[0], progs[-1]])
    c.assumptions = ["rotations are generated from the 24 cube rotations, their conjugates, and three motions of each of nine "
                     "worlds (angles from 1e-5 to pi)",
                     "cube results are compared after rounding to integers (tolerance 2e-3), words within 2e-5"]
    return c.finish()


# ------------------------------------------------------------------ C24
def near(a, b, eps=1e-6):
    return np.abs(a - b).max() < eps


def average(c):
    (drv,) = vf.build("drv_geom")
    d = vf.workdir("C24")
    mc = vf.tlc("MCAverage", env=dict(MAXLEN=7 if vf.THOROUGH else 5), timeout=900)
    if mc.invariant:
        raise vf.Broken("the specification of medians is inconsistent: " + mc.invariant)
    seqs = mc.prints("SEQ")
    if len(seqs) < 1500:
        raise vf.Broken("too few sequences")
    cfgs = []
    for q in (1, 0):
        p = os.path.join(d, "c%d.yml" % q)
        write_raw_config(p, dict(number_x_square=5, number_y_square=5, resolution_x=500, resolution_y=500,
                                 length_square=0.04, length_marker=0.03, number_board=1, boards_index=[],
                                 square_size=0.1, number_x_square_per_board=[], number_y_square_per_board=[],
                                 square_size_per_board=[], distortion_model=0, distortion_per_camera=[],
                                 number_camera=1, refine_corner=1, min_perc_pts=0.4, cam_params_path="None",
                                 fix_intrinsic=0, root_path="None", cam_prefix="Cam_", keypoints_path="None",
                                 quaternion_averaging=q, ransac_threshold=3, number_iterations=1000,
                                 he_approach=0, save_path=d + "/", save_detection=0, save_reprojection=0,
                                 camera_params_file_name=""))
        cfgs.append(p)
    seqs.sort(key=lambda x: (x["kind"], len(x["s"]), sorted(x["s"])))
    groups = []
    for x in seqs:
        key = (x["kind"], json.dumps(sorted(x["s"])))
        if not groups or groups[-1][0] != key:
            groups.append((key, []))
        groups[-1][1].append(x)
    shards = vf.CORES

    def one(k):
        inp, outp, tr = (os.path.join(d, "%s%d" % (n, k)) for n in ("in", "out", "tr"))
        rng = np.random.default_rng(vf.SEED * 100 + k)
        lines, meta = [], []
        for gi, (key, xs) in enumerate(groups[k::shards]):
            for x in xs:
                base = [np.array(m, float) * np.array([.1] * 3 + [1] * 3) for m in x["s"]]
                for mode in ("q", "Q", "Qalt") if x["kind"] == "wide" else ("q", "m", "Q", "Qalt", "M"):
                    vals = []
                    for v in base:
                        v = v.copy()
                        th = np.linalg.norm(v[:3])
                        if mode == "Qalt" and th > 1e-9 and rng.integers(2):
                            v[:3] *= (1 - 2 * np.pi / th)      # the same rotation, the other way round
                        vals.append(v)
                    lines.append("%s %d %s" % (mode[0], len(vals), " ".join(repr(float(z)) for v in vals for z in v)))
                    meta.append((x, gi, mode))
        open(inp, "w").write("\n".join(lines) + "\n")
        rc, out = vf.run([drv, "avg", inp, outp, *cfgs], timeout=600)
        if rc != 0:
            return rc, out[-600:], None, None
        recs, classes, last = [], {}, None
        for (x, gi, mode), line in zip(meta, open(outp)):
            r = json.loads(line)
            v = np.array([float(z) for z in r["r"]])
            trans = mode in "qm"
            if x["kind"] == "wide" and v[0] < 0:      # the same rotation, the other way round
                v[:3] *= 1 - 2 * np.pi / np.linalg.norm(v[:3])
            if gi != last:
                classes, last = {}, gi
            full = np.append(v, []) if trans else np.append(v, [0, 0, 0])
            M = pose6(full)
            kind = "quaternion" if mode[0] in "qQ" else "median"
            cl = classes.setdefault((kind, trans), [])
            for ci, N in enumerate(cl):
                if near(M, N):
                    break
            else:
                ci = len(cl)
                cl.append(M)
            h = full * np.array([20.] * 3 + [2.] * 3)
            ok = (np.abs(h - np.rint(h)) < 2e-5) & np.isfinite(h)
            if trans and not near(np.array(r["m"], float).reshape(4, 4), M):
                ok[:] = False
            if trans and r["keys"] != 1 + (len(x["s"]) > 0):
                ok[:] = False
            if not trans:
                ok[3:] = True
                h[3:] = 2 * np.array(x["s"][0][3:])
            recs.append(dict(s=x["s"], kind=x["kind"], mode=kind, trans=trans, group=gi, cls=ci,
                             got2=[int(z) if o else 0 for z, o in zip(np.rint(np.where(np.isfinite(h), h, 0)), ok)],
                             ok=[bool(o) for o in ok]))
        if len(recs) != len(meta):
            raise vf.Broken("missing results")
        vf.to_ndjson(tr, recs)
        t = vf.tlc("TraceAverage", env=dict(TRACE=tr), timeout=1500, name="tra%d" % k)
        done = t.prints("DONE")
        if not done or done[-1]["n"] != len(recs):
            raise vf.Broken("trace not consumed: " + t.out[-1500:])
        return 0, done[-1]["bad"], recs, t.distinct
    n, st = 0, mc.distinct
    for rc, bad, recs, s in vf.pmap(one, range(shards)):
        if recs is None:
            c.violation("the averaging driver ended with status %s: %s" % (rc, bad), None)
            continue
        n += len(recs)
        st += s
        for b in bad[:2]:
            c.violation("%s: %s" % (b["what"], json.dumps(recs[b["line"] - 1])), recs[b["line"] - 1])
    c.coverage = dict(states=st, transitions=mc.generated, traces_validated_against_impl=n, sequences=len(seqs),
                      exhaustive=True, rule="all sequences (so all orders of all multisets) up to length %d over 3 "
                      "generic and 4 axial values, by both modes of the real averaging" % (7 if vf.THOROUGH else 5),
                      samples=[seqs[5], seqs[-1]])
    c.assumptions = ["measurements from 7 fixed values; rotation angles below pi/2"]
    return c.finish()


def check(pid):
    c = vf.Check(pid, "model_checking")
    return rigid(c) if pid == "C26" else average(c)
