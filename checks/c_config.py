"""C01: the real constructor against spec/Config.tla"""
import json
import os
import vf
from world import write_raw_config


def cfg_file(path, c, save):
    o = c["opts"]
    kv = dict(number_x_square=c["nx"], number_y_square=c["ny"], resolution_x=500, resolution_y=500,
              length_square=0.04, length_marker=0.03, number_board=c["nboard"], boards_index=c["index"],
              square_size=c["size"] / 1000.0, number_x_square_per_board=c["nxs"],
              number_y_square_per_board=c["nys"], square_size_per_board=[s / 1000.0 for s in c["sizes"]],
              distortion_model=c["model"], distortion_per_camera=c["models"], number_camera=c["ncam"],
              refine_corner=o["refine"], min_perc_pts=o["minperc"] / 1000.0, cam_params_path=o["params"],
              fix_intrinsic=o["fix"], root_path=o["root"], cam_prefix=o["prefix"], keypoints_path=o["keys"],
              quaternion_averaging=o["quat"], ransac_threshold=o["ransac"] / 1000.0,
              number_iterations=o["iters"], he_approach=o["he"], save_path=save, save_detection=o["detect"],
              save_reprojection=o["repro"], camera_params_file_name=o["outname"])
    write_raw_config(path, kv)


def milli(v):
    """thousandths, or a string if it is not (nearly) a whole number of them"""
    if isinstance(v, str):
        return v
    r = round(v * 1000)
    return r if abs(v * 1000 - r) < 0.02 + 1e-5 * abs(r) else "%r" % v


def abstract(r):
    o = dict(r["opts"])
    for k in ("minperc", "ransac"):
        o[k] = milli(o[k])
    o.pop("save")
    bs = []
    for i, b in enumerate(r["boards"]):
        p = b["corners"]
        bs.append(dict(id=b["id"] if b["id"] == b["key"] else [b["id"], b["key"]], nx=b["nx"], ny=b["ny"],
                       size=milli(b["size"]), pattern=b["pattern"], markers=b["markers"],
                       corners=[[milli(x) for x in p[j:j + 3]] for j in range(0, len(p), 3)]
                       if b["nb_pts"] * 3 == len(p) else []))
    return dict(cams=r["cams"], boards=bs, opts=o)


def check(pid):
    c = vf.Check(pid, "model_checking")
    (drv,) = vf.build("drv_config")
    d = vf.workdir(pid)
    cfgs, states, gen = [], 0, 0
    for k in range(6 if vf.THOROUGH else 2):
        mc = vf.tlc("MCConfig", extra=["-seed", str(vf.SEED + 1000 * k)], timeout=300)
        cfgs += mc.prints("CFG")
        states += mc.distinct
        gen += mc.generated
    if len(cfgs) < 200:
        raise vf.Broken("too few configurations: %d" % len(cfgs))
    files = []
    for i, x in enumerate(cfgs):
        p = os.path.join(d, "c%d.yml" % i)
        cfg_file(p, x, os.path.join(d, "out"))
        files.append(p)
    shards = vf.CORES

    def one(k):
        mine, got, todo = list(range(k, len(files), shards)), {}, None
        todo = mine
        while todo:  # one crash must not hide the other configurations
            out = os.path.join(d, "o%d.ndjson" % k)
            rc, txt = vf.run([drv, out] + [files[i] for i in todo], timeout=300, cwd=d)
            recs = [json.loads(l) for l in open(out)]
            done = [r for r in recs if "begin" not in r]
            for i, r in zip(todo, done):
                got[i] = r
            if len(done) == len(todo):
                break
            got[todo[len(done)]] = "crashed with status %s: %s" % (rc, txt[-300:])
            todo = todo[len(done) + 1:]
        return got

    got = {}
    for g in vf.pmap(one, range(shards)):
        got.update(g)
    recs, idx = [], []
    for i, x in enumerate(cfgs):
        if isinstance(got[i], str):
            c.violation("the constructor " + got[i], x)
            continue
        recs.append(dict(cfg=x, rig=abstract(got[i])))
        idx.append(i)
    tr = os.path.join(d, "trace.ndjson")
    vf.to_ndjson(tr, recs)
    t = vf.tlc("TraceConfig", env=dict(TRACE=tr), timeout=600)
    done = t.prints("DONE")
    if not done or done[-1]["n"] != len(recs):
        raise vf.Broken("trace not consumed " + t.out[-2000:])
    for b in done[-1]["bad"]:
        r = recs[b["line"] - 1]
        c.violation("configuration not honoured (%s): %s -> %s" %
                    (b["what"], json.dumps(r["cfg"]), json.dumps(r["rig"])[:800]), r)
    c.coverage = dict(states=states + t.distinct, transitions=gen + t.generated,
                      traces_validated_against_impl=len(cfgs),
                      distinct_board_setups=len({json.dumps([x[k] for k in ("nboard", "index", "nxs", "sizes", "nx")])
                                                 for x in cfgs}),
                      samples=cfgs[:2],
                      rule="every combination of number of boards, board selection, presence of each per-board and "
                           "per-camera list and number of cameras; values at random from small sets")
    c.assumptions = ["per-board lists, when given, cover every printed board up to the largest selected index",
                     "OpenCV < 4.7 (the installed one)"]
    return c.finish()
