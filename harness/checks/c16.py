"""Generated classes used from several threads"""
import gen
import lib
import robots as rob

RULE = ("Generated classes compiled with ThreadSanitizer (and without, for speed) run programs drawn at random on several threads: one instance per thread, of the same class or of different "
        "classes, or one instance with fixed inputs read by all. Programs call every getter, setters, parameter getters, copies, loads and saves, with random delays. Every result is compared "
        "bit by bit with the same program run by one thread. Distinct: programs (mode, classes, threads, seed); overlapping_pairs counts the pairs of different calls seen in progress together.")


def run(ck):
    quick = ck.tier == "quick"
    eng = lib.Engine(ck.scratch, programs=("engine_driver.cpp", lib.THUNDER + "/thunder_main.cpp"))
    def kw(i):
        Q = rob.picker(ck.seed, i)
        return dict(n=Q("n", [2, 2, 3, 1]), elastic=Q("elastic", [2, 0, 0, 1]), orders=Q("orders", [[2, 1, 1], [1, 0, 2]]), dl=Q("Dl", [2, 0, 1]), inert=0, sym=Q("masks", [None, "full", None, "none"]))
    specs = gen.spec_list(ck, 3 if quick else 6, 3, "t", kw)
    # long results: hundreds of elements
    specs.append(("long", rob.planar(ck.seed, 1690, 6, types=["R"] + ["P"] * 5, elastic=0, orders=[1, 1, 1])))
    todo = []
    for flavour in ("tsan", "plain"):
        fl = gen.Fleet(ck, eng, specs, flavour=flavour, main="thread_driver.cpp", tag="fleet_" + flavour, gen_flags=["-O0"])
        fl.report_problems()
        good = fl.good()
        for k in range((9 if flavour == "tsan" else 9) if quick else 60):
            todo.append((fl, good, flavour, k))

    def one(a):
        fl, good, flavour, k = a
        if not good:
            return dict(fail=[], obs=0, sig=None)
        r = rob.rng_of("c16", ck.seed, flavour, k)
        cwd = ck.scratch.sub("%s%d" % (flavour, k))
        sc = lib.Script()
        for d in good:
            sc.add("cls", d["name"], fl.conf_of(d), d["rb"]["n"], d["rb"]["nej"])
        steps = (300 if quick else 600) if flavour == "tsan" else (1500 if quick else 4000)
        runs, sig = [], []
        for m in range(4 if quick else 8):
            mode = "shared" if (m + k) % 2 else "own"
            cls = [good[(k + m) % len(good)]] if (k + m) % 3 else [good[(k + j) % len(good)] for j in range(min(len(good), 3))]
            T = [2, 4, 8, 3][(k + m) % 4]
            runs.append((mode, T, [d["name"] for d in cls], sc.add("run", mode, T, steps, int(r.integers(1, 10 ** 6)), cwd, *[d["name"] for d in cls])))
            sig.append("%s %s %d %s %d" % (flavour, mode, T, [d["name"] for d in cls], k))
        res = lib.run_script(fl.prog.exe, sc, cwd, timeout=300, wrapper=["setarch", "-R"] if flavour == "tsan" and SETARCH else [])
        c = lib.Cmp()
        cr = res.crash()
        if flavour == "tsan" and "unexpected memory mapping" in res.err:
            raise lib.Inconclusive("ThreadSanitizer cannot run here: " + res.err[:300])
        if cr:
            c.bad(cr[0], "threads %s: %s" % (runs, cr[1]))
        n = cnt = over = pairs = 0
        for mode, T, cls, i in runs:
            if i < len(res.rec) and res[i][0] == "J":
                j = res[i][1]
                n += j["n"]
                cnt += j["calls"]
                over += j["overlapping"]
                pairs += j["pairs"]
                if j["bad"] or j["first"]:
                    c.bad("value:" + mode, "%d of %d results of %d threads (%s, %s) differ from one thread: %s" % (j["bad"], j["n"], T, mode, cls, j["first"]))
        c.n += n
        return dict(fail=c.fail, obs=c.n, evals=len(runs), sig=sig, worst={}, count={"calls": cnt, "calls_overlapping_another": over, "overlapping_pairs": pairs},
                    sample=dict(flavour=flavour, runs=[(m, T, cl) for m, T, cl, _ in runs], calls=cnt, overlapping=over) if k == 1 else None,
                    files={"script": "\n".join(sc.lines), "stderr": res.err[:20000]} if c.fail else {})

    import subprocess
    SETARCH = subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0
    out = []
    for a in range(0, len(todo), 2):       # the programs themselves use several threads
        out += lib.par(one, todo[a:a + 2], 2)
    ck.take(out)
    if ck.extra.get("calls_overlapping_another", 0) == 0 and not ck.fails:
        ck.incon.append("no call overlapped another one")
