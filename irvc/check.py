"""Check driver:  python3 -m irvc.check PROPERTY [--tier quick|thorough]"""
import sys, os, re, json, time, subprocess, hashlib, signal, traceback, shutil, threading
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from irvc import ll, term as tm, poly, sym, solve      # noqa
from irvc.props import PROPS                             # noqa

WORK = os.environ.get("VC_WORK", os.path.join("/tmp", "irvc-%d" % os.getpid()))
CLANG = ["clang++"]
HOST = ["-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-std=c++17", "-fno-exceptions", "-fno-rtti",
        "-fno-threadsafe-statics", "-ffp-contract=off", "-w"]


def include_flags(unit):
    inc = [os.path.join(REPO, "include")]
    return ["-I" + i for i in inc] + ["-I" + os.path.join(VERIF, "drivers")]


def compile_ir(unit):
    src = os.path.join(VERIF, "drivers", unit["driver"])
    tag = hashlib.sha1(repr(sorted(unit.items(), key=str)).encode()).hexdigest()[:8]
    out = os.path.join(WORK, unit["driver"].replace(".cpp", "") + "-" + tag + ".ll")
    cmd = CLANG + HOST
    if unit.get("target") == "avr":
        # AVR's own target in clang passes classes with destructors in registers, which destroys them twice (its ABI says by
        # reference, as avr-g++ does); msp430 has the same integer and pointer sizes and gets this right
        cmd = cmd + ["--target=msp430", "-nostdlibinc", "-isystem", "/usr/lib/avr/include", "-D__AVR", "-D__AVR__", "-D__AVR_ATmega328P__", "-DF_CPU=16000000UL"]
    cmd = cmd + unit.get("flags", []) + include_flags(unit) + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        return None, " ".join(cmd) + "\n" + p.stderr[-6000:]
    return out, " ".join(cmd)


def compile_native(unit):
    src = os.path.join(VERIF, "drivers", unit["driver"])
    tag = hashlib.sha1(repr(sorted(unit.items(), key=str)).encode()).hexdigest()[:8]
    out = os.path.join(WORK, unit["driver"].replace(".cpp", "") + "-" + tag + ".native")
    cmd = ["g++", "-std=c++17", "-O1", "-g", "-w", "-fwrapv", "-ffp-contract=off", "-DVC_NATIVE", "-fsanitize=address,bounds",
           "-fno-sanitize-recover=bounds", "-D_GLIBCXX_ASSERTIONS"]
    if unit.get("target") == "avr":
        r = compile_native_avr(unit, src, out)
        # code that needs no device can be replayed in a plain host build (int is wider there: a failure found is still one)
        if r[0] is not None or unit.get("device"): return r
    cmd += unit.get("nflags", unit.get("flags", [])) + include_flags(unit) + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0: return None, " ".join(cmd) + "\n" + p.stderr[-4000:]
    return out, " ".join(cmd)


AVR_NATIVE = ["clang++", "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-w", "-DVC_NATIVE", "-DVC_MCU", "-D__AVR", "-fwrapv", "-S", "-emit-llvm",
              "-D_INITIALIZER_LIST", "-include", "std/utility.hpp"]     # the code's own std::initializer_list takes the host library's place


def device_calls(ir):
    """volatile accesses become calls of the recording device of vc_native.hpp"""
    def load(m):
        return "%s = call %s @vcn_load_%s(ptr %s)" % (m.group(1), ("zeroext " if m.group(2) in ("i8", "i16") else "") + m.group(2), m.group(2), m.group(3))

    def store(m):
        return "call void @vcn_store_%s(ptr %s, %s %s)" % (m.group(1), m.group(3), m.group(1) + (" zeroext" if m.group(1) in ("i8", "i16") else ""), m.group(2))
    ptr = r"(inttoptr \(i\d+ \d+ to ptr\)|[%@][^,\s]+)"
    ir = re.sub(r"(%\S+) = load volatile (i8|i16|i32), ptr " + ptr + r"(?:, align \d+)?(?:, !\S+ !\d+)*", load, ir)
    return re.sub(r"store volatile (i8|i16|i32) (\S+), ptr " + ptr + r"(?:, align \d+)?(?:, !\S+ !\d+)*", store, ir)


def compile_native_avr(unit, src, out):
    """MCU code natively: the driver and real headers compiled for the host, device addresses redirected"""
    cmd = AVR_NATIVE + ["-isystem", os.path.join(VERIF, "drivers", "avrstub")] + unit.get("nflags", unit.get("flags", [])) + include_flags(unit) + [src, "-o", out + ".ll"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0: return None, " ".join(cmd) + "\n" + p.stderr[-4000:]
    ir = open(out + ".ll").read()
    open(out + ".ll", "w").write(device_calls(ir))
    p = subprocess.run(["clang++", "-w", "-O0", out + ".ll", "-o", out], capture_output=True, text=True)
    if p.returncode != 0: return None, "redirecting device accesses: " + p.stderr[-4000:]
    return out, " ".join(cmd)


def options(unit):
    """//@ harness-regex: key=val ...   lines of the driver"""
    out = []
    for ln in open(os.path.join(VERIF, "drivers", unit["driver"])):
        m = re.match(r"\s*//@\s*(\S+):\s*(.*)", ln)
        if m:
            d = {}
            for kv in m.group(2).split():
                k, _, v = kv.partition("=")
                d[k] = v or "1"
            out.append((re.compile(m.group(1) + r"\Z"), d))
    return out


def opts_for(opts, h):
    d = {}
    for r, o in opts:
        if r.match(h): d.update(o)
    return d


def harnesses(mod):
    return [n[len("@vc_h_"):] for n, f in mod.funcs.items() if n.startswith("@vc_h_") and f.defined] + \
           [n[len("@vc_"):] for n, f in mod.funcs.items() if n.startswith("@vc_lemma_") and f.defined]


def contract_targets(mod):
    """contract name -> (target function, spec function)"""
    out = {}
    for n, f in mod.funcs.items():
        if not n.startswith("@vc_target_") or not f.defined: continue
        nm = n[len("@vc_target_"):]
        spec = mod.funcs.get("@vc_spec_" + nm)
        if not spec or not spec.defined: continue
        mod.parse_body(f)
        callees = []
        for b in f.blocks.values():
            for i in b:
                if i[0] in ("call", "invoke") and i[3][0] == "glob" and not i[3][1].startswith("@llvm."):
                    callees.append(i[3][1])
        callees = [c for c in callees if c in mod.funcs and mod.funcs[c].defined]
        if len(callees) != 1: continue
        t = mod.funcs[callees[0]]
        sig = lambda g: (repr(g.ret), [repr(p[0]) for p in g.params], ["sret" in p[1] for p in g.params])
        if sig(t) == sig(spec): out[nm] = (t.name, spec.name)
    return out


T_END = [time.time() + 1e9]        # no proof attempt runs past this point


class Timeout(Exception):
    pass


def run_harness(mod, h, opt, subst, tier, seed):
    t0 = time.time()
    res = dict(harness=h, obs=[], covers={}, status=None, why="", entered=[], contracts=[], externals={}, lemmas=[], steps=0,
               accesses=0, paths=0, solver_s=0.0, queries=0, divassume=0)
    budget = int(opt.get("budget", 150 if tier == "quick" else 300))
    if tier != "quick": budget = max(budget, 300)
    budget = max(1, min(budget, int(T_END[0] - time.time())))

    armed = [True]

    def onalarm(*a):
        if armed[0]: raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, budget, 2)         # again and again: one may get lost in a destructor
    sv = solve.Solver(timeout=float(opt.get("timeout", 20)) * (1 if tier == "quick" else 3), seed=seed)
    if tier != "quick": sv.second = {}; sv.second_end = min(t0 + budget * 0.6, T_END[0] - 60)
    new = lambda: sym.Executor(mod, sv, fpmode="fp" if opt.get("fp") == "1" else "real", nsw=opt.get("nsw") == "1",
                      subst=subst, divzero=opt.get("divzero") == "1", narrow=opt.get("narrow") == "1",
                      maxsteps=int(opt.get("steps", 4000000)), maxpaths=int(opt.get("paths", 6000)))
    ex = new(); ex.nogen = "nogen" in opt
    try:
        for turn in range(30):
            if opt.get("all"): ex.maxrefuted = 1 << 30
            try: ex.run("@vc_" + h if h.startswith("lemma_") else "@vc_h_" + h)
            except (sym.Enough, ll.Unsupported) as e:
                if not ex.restart: raise
            if not ex.restart: break
            w = ex.widen; ex = new(); ex.widen = w; ex.nogen = "nogen" in opt          # loop cuts: more is made arbitrary, from the start
        else: raise ll.Unsupported("loop invariants do not settle")
    except sym.Enough:
        res["why"] = "stopped after %d failed obligations" % ex.nrefuted
    except ll.Unsupported as e:
        res["why"] = "not within reach: " + str(e)
    except Timeout:
        res["why"] = "time budget exhausted"
    except RecursionError:
        res["why"] = "recursion"
    except Exception as e:
        res["why"] = "verifier error: " + "".join(traceback.format_exception_only(type(e), e)) + traceback.format_exc()[-1500:]
    finally:
        armed[0] = False
        signal.setitimer(signal.ITIMER_REAL, 0)
    if ex.generalized and any(ob.status == "refuted" for ob in ex.obs):
        # the arbitrary state may be one that no history leaves: the same harness with the states it does pass through decides
        res["nogen"] = True; ex.widened = True
    if ex.widened or ex.havocked:
        # a failure may be due to what was made arbitrary: not a refutation
        for ob in ex.obs:
            if ob.status == "refuted": ob.status = "unknown"
        if res["why"].startswith("stopped"): res["why"] = "fails from a state made arbitrary, which may be unreachable"
    for ob in ex.obs:
        res["obs"].append(dict(name=ob.name, kind=ob.kind, fn=ob.fn, status=ob.status or "unknown", backend=ob.backend, secs=round(ob.secs, 4),
                               model=ob.model, note=ob.note))
    res["covers"] = dict(ex.covers); res["steps"] = ex.steps; res["accesses"] = ex.accesses; res["paths"] = ex.paths
    res["entered"] = sorted(ex.entered); res["contracts"] = sorted(ex.used_contracts); res["externals"] = ex.externals
    res["lemmas"] = sorted(ex.lemmas)
    res["solver_s"] = round(sv.secs, 3); res["queries"] = sv.queries; res["divassume"] = sv.divassume
    res["second"] = sv.second or {}
    res["wall"] = round(time.time() - t0, 3)
    if os.environ.get("VC_DEBUG"):
        for i, ob in enumerate(ex.obs):
            if ob.status != "proved": print("DEBUG", h, i, ob.name, tm.show(ob.goal, 6)[:1500])
    bad = [o for o in res["obs"] if o["status"] == "refuted"]
    unk = [o for o in res["obs"] if o["status"] == "unknown"]
    if bad: res["status"] = "refuted"
    elif res["why"] or unk:
        res["status"] = "unknown"
        if not res["why"]: res["why"] = "undecided: " + unk[0]["name"]
    elif not res["obs"] or not res["covers"] or not all(res["covers"].values()):
        res["status"] = "unknown"; res["why"] = "vacuous: no obligation or precondition not reachable %r" % res["covers"]
    else: res["status"] = "proved"
    return res


_MOD = {}


def job(a):
    key, h, opt, subst, tier, seed = a[:6]
    if len(a) > 6: T_END[0] = a[6]
    try:
        return run_harness(_MOD[key], h, opt, subst, tier, seed)
    except BaseException as e:
        return dict(harness=h, obs=[], covers={}, status="unknown", why="worker: %r" % e, entered=[], contracts=[], externals={},
                    lemmas=[], steps=0, accesses=0, paths=0, solver_s=0, queries=0, divassume=0, wall=0)


def answers(pool, jobs, tend):
    """results of jobs; one that does not answer in time is undecided"""
    rs = [pool.apply_async(job, (a,)) for a in jobs]; out = []
    for a, r in zip(jobs, rs):
        try: out.append(r.get(max(1, tend - time.time())))
        except mp.TimeoutError:
            out.append(no_answer(a, "time budget exhausted (no answer)"))
    return out


def no_answer(a, why):
    return dict(harness=a[1], obs=[], covers={}, status="unknown", why=why, entered=[], contracts=[], externals={}, lemmas=[], steps=0, accesses=0, paths=0,
                solver_s=0, queries=0, divassume=0, wall=0)


_names = {}


def demangle(names):
    names = [n for n in names if n not in _names]
    if names:
        p = subprocess.run(["c++filt"], input="\n".join(n[1:] for n in names), capture_output=True, text=True)
        for n, d in zip(names, p.stdout.split("\n")): _names[n] = d


def native_search(unit, h, models, seed, n, log, tend, native_of=compile_native):
    """returns (failing input list, output) or None"""
    if time.time() > tend - 5:
        log.append("no time left for a native replay"); return None
    exe, msg = native_of(unit)
    if exe is None:
        log.append("native build failed: " + msg); return None
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:halt_on_error=1:hard_rss_limit_mb=3000")

    def run(args, t=120):
        t = max(2, min(t, tend - time.time()))
        try:
            return subprocess.run([exe] + args, capture_output=True, text=True, timeout=t, env=env)
        except subprocess.TimeoutExpired:
            return None
    for m in models:
        args = [v for _, v in m] or ["-"]
        p = run(["replay", h] + args, 20)
        if p is None: return args, "did not terminate"
        if p.returncode not in (0, 2, 3): return args, p.stdout + p.stderr[-3000:]
    p = run(["random", h, str(seed), str(n)], 60)
    if p is None:
        log.append("random replay timed out"); return None
    if p.returncode == 1 and "VIOLATED" in p.stdout:
        m = re.search(r"INPUTS(.*)", p.stdout)
        return (m.group(1).split() if m else []) or ["-"], p.stdout
    if p.returncode not in (0, 1, 2):
        # crashed: locate the case
        ks = re.findall(r"@(\d+)", p.stdout)
        return ["random", str(seed), ks[-1] if ks else "0"], p.stdout[-500:] + p.stderr[-3000:]
    if p.returncode == 1:
        return ["random", str(seed)], p.stdout[-500:] + p.stderr[-3000:]
    log.append("random replay: " + p.stdout.strip().split("\n")[-1])
    return None


def load_known():
    out = []
    fn = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(fn):
        for ln in open(fn):
            ln = ln.strip()
            if ln and not ln.startswith("#"): out.append(json.loads(ln))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = None
    if "--only" in sys.argv: only = re.compile(sys.argv[sys.argv.index("--only") + 1])
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    T_END[0] = t0 + 420
    T_ALL = t0 + 720
    prop = PROPS[pid]
    os.makedirs(WORK, exist_ok=True)
    log = []
    results = []       # (unit, result, role)
    violations = []    # (what, replay)
    findings = []
    replay_dir = os.path.join(os.environ.get("VC_OUT", VERIF), "replays"); os.makedirs(replay_dir, exist_ok=True)
    cmds = []
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "open"]
    listed = {k["harness"] for k in known}
    units = [u for u in prop["units"] if tier == "thorough" or not u.get("thorough")]
    jobs1 = []; jobs2 = []; info = {}
    nproc = min(8, os.cpu_count() or 4)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(nproc) as tp: comp = list(tp.map(compile_ir, units))
    for ui, u in enumerate(units):
        out, msg = comp[ui]
        cmds.append(msg.split("\n")[0])
        if out is None:
            violations.append(dict(harness=u["driver"], what="the contracts for this property no longer compile against the code", detail=msg, confirmed=False))
            continue
        mod = ll.Module(open(out).read())
        _MOD[ui] = mod
        hs = harnesses(mod); op = options(u)
        if u.get("only"): hs = [h for h in hs if re.match("(?:" + u["only"] + ")\\Z", h) or h.startswith("lemma_")]
        if only: hs = [h for h in hs if only.match(h)]
        tg = contract_targets(mod)
        info[ui] = (hs, op, tg)
        for h in hs:
            o = opts_for(op, h)
            if h in listed: o["all"] = "1"
            if o.get("tier") == "thorough" and tier != "thorough": continue
            if h.startswith("contract_") or h.startswith("lemma_"): jobs1.append((ui, h, o, {}, tier, seed))
            else: jobs2.append((ui, h, o, None, tier, seed))
    exes = {}
    lock = threading.Lock()

    def native_of(u):
        k = repr(sorted(u.items(), key=str))
        with lock: l = exes.setdefault(k, [threading.Lock(), None])
        with l[0]:
            if l[1] is None: l[1] = compile_native(u)
        return l[1]

    def models_of(r):
        ms = []
        for o in r["obs"]:
            if o["status"] != "proved" and o["model"] is not None and o["model"] not in ms: ms.append(o["model"])
        return ms

    ctx = mp.get_context("fork")
    proved = {}
    if jobs1:
        with ctx.Pool(nproc) as pool:
            for a, r in zip(jobs1, answers(pool, jobs1, T_END[0] + 30)):
                results.append((a, r, "lemma" if a[1].startswith("lemma_") else "contract"))
                if r["status"] == "proved": proved[(a[0], a[1][len("contract_"):] if a[1].startswith("contract_") else a[1])] = True
    if jobs2:
        js = []
        for a in jobs2:
            tg = info[a[0]][2]
            sub = {t: s for nm, (t, s) in tg.items() if proved.get((a[0], nm))} if a[2].get("inline") != "1" else {}
            js.append(a[:3] + (sub,) + a[4:])
        with ctx.Pool(nproc) as pool:
            # what is not proved is executed at once; a failing input settles the matter: nothing else need be decided then
            hits = []; tried = set()
            def early(i, r):
                u, h, o = units[js[i][0]], js[i][1], js[i][2]
                if not hits and native_search(u, h, models_of(r)[:8] if r else [], seed, 2000, [], min(T_ALL, time.time() + 90), native_of): hits.append(h)
            def notproved(tp, i, r):
                if i in tried or js[i][1] in listed or js[i][2].get("nonative") or (r and r["status"] == "proved"): return
                tried.add(i); tp.submit(early, i, r)
            h0 = [pool.apply_async(job, (a,)) for a in js]; got = {}
            with ThreadPoolExecutor(max(1, nproc // 2)) as tp:
                while len(got) < len(js) and not hits and time.time() < T_END[0] + 30:
                    for i, a in enumerate(h0):
                        if i not in got and a.ready(): got[i] = a.get(); notproved(tp, i, got[i])
                    if time.time() > t0 + 100:
                        for i in range(len(js)):
                            if i not in got: notproved(tp, i, None)
                    time.sleep(0.02)
            for i, a in enumerate(h0):
                if i not in got and a.ready(): got[i] = a.get()
            rs = [got.get(i) or no_answer(js[i], "not decided: a failing input is known" if hits else "time budget exhausted (no answer)") for i in range(len(js))]
            T_END[0] = min(T_END[0] + 120, t0 + 540)
            if hits: pool.terminate()
            redo = [] if hits else [(i, "inline") for i, r in enumerate(rs) if r["status"] != "proved" and r["contracts"]]
            redo += [] if hits else [(i, "nogen") for i, r in enumerate(rs) if r.get("nogen")]
            rr = [] if not redo else answers(pool, [js[i][:3] + ({},) + js[i][4:] + (T_END[0],) if how == "inline" else
                                js[i][:2] + (dict(js[i][2], nogen="1"),) + js[i][3:] + (T_END[0],) for i, how in redo], T_END[0] + 30)
        for (i, how), r in zip(redo, rr):
            if how == "nogen":
                if r["status"] == "refuted" and rs[i]["status"] == "unknown": rs[i] = r
            elif r["status"] == "proved" or (r["status"] == "refuted" and rs[i]["status"] == "unknown"):
                r["why"] += " (callee contracts not usable here; bodies inlined)"; rs[i] = r
        for a, r in zip(js, rs):
            missing = [l for l in r["lemmas"] if not proved.get((a[0], l[len("vc_"):]))]
            if r["status"] == "proved" and missing:
                r["status"] = "unknown"; r["why"] = "rests on unproved lemma " + ", ".join(missing)
            results.append((a, r, "goal"))
    bounded = []; failed = []
    # a listed finding that no longer reproduces: the harness pinning the recorded deviation no longer applies
    gone = set(x for k in known for x in k.get("pinned_by", []) if any(r["harness"] == k["harness"] and r["status"] == "proved" for _, r, _ in results))
    for a, r, role in results:
        ui, h = a[0], a[1]; u = units[ui]
        if h in gone and r["status"] != "proved": r["role"] = "pins a finding that is gone"; continue
        k = next((k for k in known if k["harness"] == h), None)
        if k is not None:
            # a listed finding: its obligation fails, and the recorded deviation is pinned by the harness named in "pinned_by"
            failing = sorted(set(o["name"] for o in r["obs"] if o["status"] == "refuted"))
            if r["status"] == "proved":
                log.append("listed finding no longer reproduces: " + h); r["role"] = "finding (not reproduced)"; continue
            if failing and set(failing) <= set(k["obligations"]):
                findings.append(k); r["role"] = "known finding"
                continue
        if role == "lemma" or (role == "contract" and u.get("aux_contracts")):
            continue
        if r["status"] == "proved": continue
        # failed or undecided: look for a failing input on the real code
        failed.append((u, h, r, models_of(r), opts_for(info[ui][1], h)))
    # refuted ones first; natively in parallel, with a limit on the whole once something is confirmed
    failed.sort(key=lambda f: (f[2]["status"] != "refuted", not f[3]))
    confirmed = [0, T_ALL]
    def search(f):
        u, h, r, models, o = f
        nl = []
        if o.get("nonative"): return None, nl
        n = int(o.get("native", 6000 if tier == "quick" else 60000))
        hit = native_search(u, h, models[:8], seed, n, nl, min(T_ALL, confirmed[1]), native_of)
        if hit:
            with lock:
                confirmed[0] += 1
                if confirmed[0] == 3: confirmed[1] = time.time() + 45
        return hit, nl
    with ThreadPoolExecutor(nproc) as tp: found = list(tp.map(search, failed))
    for (u, h, r, models, o), (hit, nl) in zip(failed, found):
        names = sorted(set(o2["name"] + (" [%s]" % o2["note"] if o2["note"] else "") for o2 in r["obs"] if o2["status"] != "proved"))
        if hit:
            violations.append(dict(unit=u, harness=h, what="; ".join(names) or r["why"], inputs=hit[0], output=hit[1], confirmed=True,
                                   obligations=[o2 for o2 in r["obs"] if o2["status"] != "proved"][:20]))
        elif r["status"] == "refuted":
            violations.append(dict(unit=u, harness=h, what="; ".join(names), confirmed=False, detail=r["why"], native=nl,
                                   obligations=[o2 for o2 in r["obs"] if o2["status"] != "proved"][:20]))
        else:
            bounded.append(dict(harness=h, why=r["why"], stand_in=nl))
            r["role"] = "bounded stand-in"
    # thorough: what is proved is also executed, on the real code built natively
    executed = dict(harnesses=0, agree=0)
    if tier != "quick" and not violations:
        todo = [(a, r) for a, r, role in results if role == "goal" and r["status"] == "proved" and a[2].get("nonative") is None]
        def execute(f):
            a, r = f; u = units[a[0]]; nl = []
            if time.time() > T_ALL - 20: return None, ["no time left"]
            return native_search(u, r["harness"], [], seed, int(opts_for(info[a[0]][1], r["harness"]).get("native", 20000)), nl, T_ALL, native_of), nl
        with ThreadPoolExecutor(nproc) as tp: ran = list(tp.map(execute, todo))
        for (a, r), (hit, nl) in zip(todo, ran):
            if hit is None and any("random replay: " in x for x in nl): executed["harnesses"] += 1; executed["agree"] += 1
            elif hit is not None:
                executed["harnesses"] += 1; u = units[a[0]]
                if u.get("target") == "avr" or a[2].get("fp") == "1":
                    violations.append(dict(unit=u, harness=r["harness"], what="proved, but fails when executed", inputs=hit[0], output=hit[1], confirmed=True, obligations=[]))
                else: log.append("execution in floating point differs from the proof over the reals: %s at %s" % (r["harness"], " ".join(hit[0][:12])))
    violations.sort(key=lambda v: not v["confirmed"])
    # ------------------------------------------------ evidence
    allobs = [o for _, r, _ in results for o in r["obs"]]
    ent = sorted(set(n for _, r, _ in results for n in r["entered"]))
    demangle(ent + sorted(set(n for _, r, _ in results for n in r["contracts"])))
    repo_ns = ("num::", "dsp::", "core::", "std20::", "mcu::")
    def is_repo(n):
        d = _names.get(n, n)
        return any(x in d for x in repo_ns) and not d.startswith("vc_")
    funcs = sorted(set(_names.get(n, n) for n in ent if is_repo(n)))
    by = {}
    for o in allobs:
        kx = (o["backend"] or "-") if o["status"] == "proved" else o["status"]
        by[kx] = by.get(kx, 0) + 1
    ext = {}
    for _, r, _ in results:
        for k2, v in r["externals"].items(): ext[k2] = ext.get(k2, 0) + v
    nfind = len(findings)
    disc = sum(1 for o in allobs if o["status"] == "proved")
    real = any(o[0][2].get("fp") != "1" for o in results)
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=dict(
        obligations=len(allobs), discharged=disc,
        checker_cmd="python3-vt -m irvc.check %s --tier %s" % (pid, tier),
        trusted_base=trusted(prop, ext, real),
        harnesses={("%s:%s" % (units[a[0]]["driver"], r["harness"])): dict(status=r.get("role", r["status"]), obligations=len(r["obs"]),
                   discharged=sum(1 for o in r["obs"] if o["status"] == "proved"), paths=r["paths"], steps=r["steps"], why=r["why"] or None,
                   memory_accesses_checked=r["accesses"], covers=r["covers"], contracts_used=len(r["contracts"]), wall_s=r["wall"])
                   for a, r, _ in results},
        discharged_by=by, solver_queries=sum(r["queries"] for _, r, _ in results),
        solver_s=round(sum(r["solver_s"] for _, r, _ in results), 2),
        functions_under_contract=funcs, functions_under_contract_count=len(funcs),
        callee_contracts_used=sorted(set(_names.get(n, n) for _, r, _ in results for n in r["contracts"])),
        lemmas=sorted(set(n for _, r, _ in results for n in r["lemmas"])),
        memory_accesses_checked=sum(r["accesses"] for _, r, _ in results),
        denominators_assumed_nonzero=sum(r["divassume"] for _, r, _ in results),
        **({} if tier == "quick" else dict(second_judgement={k2: sum(r.get("second", {}).get(k2, 0) for _, r, _ in results) for k2 in sorted(set(x for _, r, _ in results for x in r.get("second", {})))},
             executed_natively=executed)),
        bounded_stand_ins=bounded, known_findings=[k["what"] for k in findings], compile_commands=cmds,
        samples=[dict(harness=r["harness"], obligation=o["name"], kind=o["kind"], backend=o["backend"]) for _, r, _ in results for o in r["obs"][:1]][:8],
        notes=log),
        assumptions=prop.get("assumptions", []) , wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only and not os.environ.get("VC_OUT"):
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    # ------------------------------------------------ report
    print("%s: %d harnesses, %d obligations, %d discharged %r, %d functions, %.1fs" % (pid, len(results), len(allobs), disc, by, len(funcs), time.time() - t0))
    if verbose:
        for a, r, role in results:
            print("  %-50s %-9s obs=%d paths=%d steps=%d %.1fs %s" % (r["harness"], r["status"], len(r["obs"]), r["paths"], r["steps"], r["wall"], r["why"][:300]))
            if r["status"] != "proved":
                seen = set()
                for o in r["obs"]:
                    if o["status"] != "proved" and (o["name"], o["note"]) not in seen and len(seen) < 12:
                        seen.add((o["name"], o["note"])); print("      %-8s %s [%s] in %s %s" % (o["status"], o["name"], o["note"], o["fn"], o["model"]))
    for b in bounded: print("BOUNDED: property=%s harness=%s not proved (%s); %s" % (pid, b["harness"], b["why"][:200].replace("\n", " "), "; ".join(b["stand_in"])))
    for k in findings: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    for i, v in enumerate(violations):
        fn = os.path.join(replay_dir, "%s-%d.txt" % (pid, i))
        write_replay(fn, pid, v)
        print("VIOLATION property=%s replay=%s%s" % (pid, fn, "" if v["confirmed"] else " no-failing-input-found"))
        rc = 1
    if not os.environ.get("VC_KEEP"): shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)


def write_replay(fn, pid, v):
    with open(fn, "w") as f:
        f.write("property %s violated\nharness: %s\nfailed obligation(s): %s\n" % (pid, v["harness"], v["what"]))
        if v.get("inputs"):
            u = v["unit"]
            f.write("failing inputs: %s\nreplay on the real code:\n  cd %s && python3-vt -m irvc.replay %s %s %s\n" % (" ".join(v["inputs"]), VERIF, pid, v["harness"], " ".join(v["inputs"][:2] if v["inputs"][0] == "random" else v["inputs"])))
            f.write("output:\n%s\n" % v["output"])
        f.write("verifier output:\n")
        if v.get("detail"): f.write(v["detail"] + "\n")
        for o in v.get("obligations", []): f.write(json.dumps(o) + "\n")
        for n in v.get("native", []): f.write(n + "\n")


def trusted(prop, ext, real):
    t = ["irvc (this repository's VC generator: IR reader, symbolic executor, ring and Z/2^n normalisers)",
         "clang 18 front end at -O0: the IR verified is what it generates from /repo/include on this run",
         "z3 / cvc5 for the obligations they discharge"]
    if real: t.append("machine arithmetic: float/double treated as mathematical reals (rounding, overflow, NaN and infinities excluded); integers exact")
    if ext: t.append("assumed contracts on external functions: " + ", ".join("%s(x%d)" % kv for kv in sorted(ext.items())))
    return t + prop.get("trusted", [])


if __name__ == "__main__":
    main()
