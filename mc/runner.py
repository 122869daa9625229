"""Runs the configurations of one property: elaborate -> compile -> explore -> replay on pysim."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import contextlib
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++"


class Infra(Exception):
    """A failure of the machinery itself (never reported as a violation)."""


class Broken(Exception):
    """Raised by a harness when the public interface of a legal configuration has the wrong shape (a violation)."""


class Cfg:
    """One bounded instance of a property.

    name     unique within the property
    build    callable -> (dut, inputs{name: Signal}, outputs{name: Signal})
    cpp      C++ harness text: struct Mon, init(), step()
    consts   #defines for the harness
    domains  clock domains driven by the harness (bit i of tick mask = domain i)
    covers   cover points that must be reachable (otherwise the exploration was vacuous / the
             behaviour the property requires is unreachable)
    """
    def __init__(self, name, build, cpp, consts=None, domains=("sync",), covers=(), max_states=5_000_000,
                 max_depth=10**9, ntraces=6, time_limit=0, require_exhaustive=False, cost=1):
        self.name = name
        self.build = build
        self.cpp = cpp
        self.consts = consts or {}
        self.domains = list(domains)
        self.covers = list(covers)
        self.max_states = max_states
        self.max_depth = max_depth
        self.ntraces = ntraces
        self.time_limit = time_limit
        self.require_exhaustive = require_exhaustive
        self.cost = cost


class PyCfg:
    """A bounded enumeration performed directly on pure-Python code of the repository.

    run(tier) -> dict(states=, transitions=, validated=, samples=[...], violations=[(key, text)])
    """
    def __init__(self, name, run, cost=1):
        self.name = name
        self.run = run
        self.cost = cost


# --------------------------------------------------------------------------- pysim stepping
class PySim:
    """Steps amaranth's own simulator on the same elaborated fragment, clock by clock."""
    def __init__(self, design):
        from amaranth.sim.pysim import PySimEngine
        self.design = design
        self.engine = PySimEngine(design.fragment)
        st = self.engine._state
        self.slots = st.slots
        g = lambda s: st.slots[st.get_signal(s)]
        self.inp = [(g(design.inputs[n]), design.inputs[n].shape()) for n in design.dump_inputs]
        self.outs = [(n, g(design.outputs[n]), design.outputs[n].shape().width) for n in design.dump_outputs]
        self.regs = [(s.name, g(s), s.shape().width) for s in design.dump_regs]
        self.clks = [g(design.clk_signals[d]) for d in design.domains]
        self.engine._step()

    @staticmethod
    def _norm(v, sh):
        v &= (1 << sh.width) - 1
        if sh.signed and sh.width and v >> (sh.width - 1):
            v -= 1 << sh.width
        return v

    def settle(self, values):
        for (slot, sh), v in zip(self.inp, values):
            slot.set(self._norm(v, sh))
        self.engine._step()

    def edge(self, mask):
        for i, c in enumerate(self.clks):
            if mask >> i & 1:
                c.set(1)
        self.engine._step()
        for c in self.clks:
            c.set(0)
        self.engine._step()

    def observe(self):
        return ([s.curr & ((1 << w) - 1) for _, s, w in self.outs],
                [s.curr & ((1 << w) - 1) for _, s, w in self.regs])


def parse_trace(path):
    with open(path) as f:
        for line in f:
            mask, _, rest = line.partition(":")
            a, b, c = rest.split("|")
            yield (int(mask, 16), [int(x, 16) for x in a.split()], [int(x, 16) for x in b.split()],
                   [int(x, 16) for x in c.split()])


def conform(design, path, max_ticks=10**9):
    """Replays one model path in amaranth's simulator. Returns (ticks, error or None)."""
    sim = PySim(design)
    n = 0
    for mask, inp, outs, regs in parse_trace(path):
        if n >= max_ticks:
            break
        sim.settle(inp)
        po, pr = sim.observe()
        if po != outs:
            bad = [(name, hex(m), hex(p)) for (name, _, _), m, p in zip(sim.outs, outs, po) if m != p]
            return n, f"tick {n}: outputs differ (name, model, pysim): {bad}"
        if pr != regs:
            bad = [(name, hex(m), hex(p)) for (name, _, _), m, p in zip(sim.regs, regs, pr) if m != p]
            return n, f"tick {n}: registers differ (name, model, pysim): {bad[:8]}"
        sim.edge(mask)
        n += 1
    return n, None


# --------------------------------------------------------------------------- one configuration
def make_design(cfg):
    from amaranth.hdl.ir import Fragment
    from mc.compile import Design
    dut, inputs, outputs = cfg.build()
    return Design(dut, inputs, outputs, domains=cfg.domains)


def from_repo(e):
    """The exception was raised while code of the repository was running (and is not a matter of missing packages)."""
    if isinstance(e, (ImportError, SyntaxError)):
        return False
    frames = traceback.extract_tb(e.__traceback__)
    if any(f.filename.startswith(os.path.realpath(REPO) + "/amlib") for f in frames):
        return True
    # Amaranth rejects, while elaborating it, what the code under test built
    ours = [i for i, f in enumerate(frames) if f.filename.startswith(VERIF + "/")]
    last = ours[-1] if ours else -1
    return bool(ours) and frames[last].name == "__init__" and frames[last].filename.endswith("/mc/compile.py") \
        and any(x in (frames[last].line or "") for x in ("Fragment.get(", "fragment.prepare(")) and any("/amaranth/" in f.filename for f in frames[last + 1:])


def unbuildable(name, e, wall):
    return {"name": name, "kind": "mc", "states": 0, "transitions": 0, "validated": 0, "exhaustive": False, "wall": wall, "samples": [],
            "violation": {"message": f"a legal configuration cannot be built: {type(e).__name__}: {e}", "key": "elaboration",
                          "trace": "".join(traceback.format_exception(e))}}


def run_cfg(prop, idx, tier, workdir):
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(100000)
    t0 = time.time()
    mod = importlib.import_module("props." + prop)
    cfg = mod.configs(tier)[idx]
    res = {"name": cfg.name, "kind": "mc", "violation": None}
    if isinstance(cfg, PyCfg):
        res["kind"] = "py"
        try:
            r = cfg.run(tier)
        except Exception as e:
            if from_repo(e):
                return unbuildable(cfg.name, e, time.time() - t0)
            raise
        res.update(states=r["states"], transitions=r["transitions"], validated=r.get("validated", r["transitions"]),
                   samples=r.get("samples", [])[:3], exhaustive=r.get("exhaustive", True), wall=time.time() - t0,
                   notes=r.get("notes", ""))
        vs = r.get("violations", [])
        if vs:
            res["violation"] = {"message": vs[0][1], "key": vs[0][0], "all": [f"{k}: {t}" for k, t in vs[:20]]}
        return res
    wd = os.path.join(workdir, f"c{idx}")
    os.makedirs(wd)
    try:
        from mc.compile import Unsupported, DomainProblem
        try:
            design = make_design(cfg)
        except Unsupported as e:
            raise Infra(f"cannot translate design: {e}")
        except Infra:
            raise
        except Exception as e:
            if isinstance(e, (DomainProblem, Broken)) or from_repo(e):
                return unbuildable(cfg.name, e, time.time() - t0)
            raise
        with open(os.path.join(wd, "harness.inc"), "w") as f:
            f.write(cfg.cpp)
        with open(os.path.join(wd, "main.cpp"), "w") as f:
            for k, v in cfg.consts.items():
                f.write(f"#define {k} {v}\n")
            f.write('#include "engine.hpp"\n')
            f.write(design.code)
            f.write('#include "engine_main.hpp"\n')
        exe = os.path.join(wd, "mc")
        cmd = [CXX, "-std=c++20", "-O2" if getattr(cfg, "cost", 1) >= 3 or tier == "thorough" else "-O1", "-w",
               "-fbracket-depth=8192", "-I", wd, "-I", os.path.join(VERIF, "mc"), os.path.join(wd, "main.cpp"), "-o", exe]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise Infra(f"harness does not compile:\n{p.stderr[:600]}")
        pre = os.path.join(wd, "out")
        p = subprocess.run([exe, str(cfg.max_states), str(cfg.max_depth), str(cfg.time_limit),
                            str(cfg.ntraces), pre, str(getattr(cfg, "walk", 40))], capture_output=True, text=True)
        if p.returncode:
            raise Infra(f"explorer failed rc={p.returncode}: {p.stderr[-2000:]}")
        with open(pre + ".json") as f:
            js = json.load(f)
        # conformance
        validated, ticks = 0, 0
        budget = getattr(cfg, "conform_ticks", 12000 if tier == "quick" else 60000)
        sample = None
        for k in range(js["traces"]):
            if ticks >= budget:
                break
            tr = f"{pre}.tr{k}"
            n, err = conform(design, tr, max_ticks=budget - ticks)
            if err:
                raise Infra(f"model/implementation divergence on trace {k}: {err}")
            if n == 0:
                continue
            validated += 1
            ticks += n
            if sample is None:
                sample = [f"clk={m:x} in={dict(zip(design.dump_inputs, a))} out={dict(zip(design.dump_outputs, b))}"
                          for m, a, b, _ in list(parse_trace(tr))[:4]]
        res.update(states=js["states"], transitions=js["transitions"], validated=validated, ticks_validated=ticks,
                   exhaustive=js["exhaustive"], capped=js["capped"], depth=js["depth"], covers=js["covers"],
                   state_bits=js["state_bits"], pruned=js["pruned"], max_fanout=js["max_fanout"],
                   explore_s=js["wall"], dive_states=js["dive_states"] or None, dive_depth=js["dive_depth"] or None, samples=[{"path_prefix": sample}] if sample else [])
        if js["violation"]:
            v = {"message": js["message"], "key": js["message"]}
            steps = list(parse_trace(pre + ".viol"))
            n, err = conform(design, pre + ".viol")
            if err:
                raise Infra(f"counterexample does not replay on the implementation: {err}")
            v["ticks"] = n
            v["inputs"] = design.dump_inputs
            v["outputs"] = design.dump_outputs
            v["steps"] = [{"clk": m, "in": a, "out": b} for m, a, b, _ in steps]
            res["violation"] = v
        else:
            missing = [c for c in cfg.covers if not js["covers"].get(c)]
            if missing and js["capped"]:
                res["missing_covers"] = missing          # not conclusive: the space was cut off by the state or time bound
            elif missing:
                res["violation"] = {"message": f"behaviour required by the property is unreachable in the explored "
                                               f"space: {missing}", "key": "unreachable:" + ",".join(missing),
                                    "covers": js["covers"]}
        res["wall"] = time.time() - t0
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def _run_cfg_safe(prop, idx, tier, workdir):
    try:
        # keep prints of the code under test away from our stdout
        sys.stdout.flush()
        return run_cfg(prop, idx, tier, workdir)
    except Infra as e:
        return {"infra": str(e), "idx": idx}
    except Exception:
        return {"infra": traceback.format_exc(), "idx": idx}


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> config=<name> key=<substring of message> :: what fails
                head, _, what = line[len("finding:"):].partition("::")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                d["what"] = what.strip()
                out.append(d)
    return out


def _worker_init():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def check(prop, tier, seed, only=None, verbose=False, jobs=None):
    t0 = time.time()
    mod = importlib.import_module("props." + prop)
    early = []
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):      # the code under test may print
            cfgs = mod.configs(tier)
    except Exception as e:
        if not from_repo(e):
            raise
        cfgs, early = [], [unbuildable("construction", e, time.time() - t0)]
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].cost)
    if only:
        order = [i for i in order if only in cfgs[i].name]
    workdir = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    results, infra = early, []
    try:
        from multiprocessing import get_context
        with ProcessPoolExecutor(max_workers=jobs or os.cpu_count() or 8, mp_context=get_context("fork"),
                                 initializer=_worker_init) as ex:
            futs = {ex.submit(_run_cfg_safe, prop, i, tier, workdir): i for i in order}
            for f in as_completed(futs):
                r = f.result()
                if "infra" in r:
                    infra.append((cfgs[futs[f]].name, r["infra"]))
                    if verbose:
                        print(f"[{cfgs[futs[f]].name}] INFRA {r['infra']}", file=sys.stderr)
                else:
                    results.append(r)
                    if verbose:
                        print(f"[{r['name']}] states={r['states']} trans={r['transitions']} depth={r.get('depth')} "
                              f"exh={r.get('exhaustive')} pruned={r.get('pruned')} val={r['validated']}/{r.get('ticks_validated')} "
                              f"wall={r['wall']:.1f}s ex={r.get('explore_s')} "
                              f"covers={r.get('covers')} VIOL={r['violation'] and r['violation']['message']}",
                              file=sys.stderr)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    results.sort(key=lambda r: r["name"])
    known = [k for k in load_known() if k.get("property") == prop]
    known_hits, viols = [], []
    for r in results:
        if r["violation"]:
            hit = None
            for k in known:
                if k.get("config") in (None, r["name"]) and k.get("key", "\0") in r["violation"]["key"].replace(" ", "_"):
                    hit = k
            (known_hits if hit else viols).append((r, hit))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "clock_edges_replayed_in_pysim": sum(r.get("ticks_validated", 0) or 0 for r in results),
            "samples": [{"config": r["name"], "sample": s} for r in results for s in r.get("samples", [])][:6],
            "exhaustive": bool(results) and all(r.get("exhaustive") for r in results),
            "configurations": [{k: r.get(k) for k in ("name", "states", "transitions", "depth", "exhaustive", "capped", "dive_states", "dive_depth", "missing_covers",
                                                      "pruned", "state_bits", "covers", "validated", "ticks_validated", "notes")
                                if r.get(k) is not None} for r in results],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if infra:
        ev["machinery_errors"] = [f"{n}: {t[-600:]}" for n, t in infra]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r, k in known_hits:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} {tier}: configs={len(results)} states={ev['coverage']['states']} "
          f"transitions={ev['coverage']['transitions']} traces={ev['coverage']['traces_validated_against_impl']} "
          f"exhaustive={ev['coverage']['exhaustive']} wall={ev['wall_s']}s")
    if viols:
        # report the first one in name order
        r, _ = viols[0]
        rp = os.path.join(evdir, f"{prop}.{r['name']}.replay.json".replace("/", "_").replace(" ", "_"))
        with open(rp, "w") as f:
            json.dump({"property": prop, "config": r["name"], "tier": tier, **r["violation"]}, f, indent=1, default=str)
        for r2, _ in viols[:10]:
            print(f"  violated in [{r2['name']}]: {r2['violation']['message']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if infra:
        for k, (n, t) in enumerate(infra):
            print(f"MACHINERY-ERROR [{n}] {t if k == 0 else str(t)[:80]}", file=sys.stderr)
        return 3
    return 0


def replay(path):
    """Re-executes a recorded violation on the real code in amaranth's simulator, without the explorer."""
    warnings.simplefilter("ignore")
    d = json.load(open(path))
    mod = importlib.import_module("props." + d["property"])
    print("message:", d["message"])
    if "steps" not in d:
        print(d.get("trace") or d.get("all") or d.get("covers"))
        return 1
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
        cfg = [c for c in mod.configs(d["tier"]) if c.name == d["config"]][0]
    design = make_design(cfg)
    sim = PySim(design)
    same = True
    for n, s in enumerate(d["steps"]):
        sim.settle(s["in"])
        po, _ = sim.observe()
        ok = po == s["out"]
        same &= ok
        print(f"{n:4d} clk={s['clk']:x} " + " ".join(f"{k}={v:x}" for k, v in zip(d["inputs"], s["in"])) + "  ->  " +
              " ".join(f"{k}={v:x}" for k, v in zip(d["outputs"], po)) + ("" if ok else "   (differs from recording)"))
        sim.edge(s["clk"])
    print("replayed identically" if same else "implementation no longer shows the recorded outputs")
    return 1 if same else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    sys.setrecursionlimit(100000)
    if a.replay:
        return replay(a.replay)
    return check(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")), only=a.only, verbose=a.v, jobs=a.jobs)
