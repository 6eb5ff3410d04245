"""Runner shared by all checks: generates cases, executes them in the instrumented
driver, hands the recorded event log to the property's oracle, and reports."""
import os, sys, json, random, time, signal, subprocess, tempfile, shutil, hashlib, re, collections
import multiprocessing as mp, multiprocessing.connection
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
VERIF = B.VERIF
MAXV = 40            # violations kept per run

# ---------------------------------------------------------------- script encoding
def enc(x):
    if x is None:
        return "-"
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return "#%d" % x
    if isinstance(x, str):
        x = x.encode("latin-1")
    return "=" + x.hex()

def op(name, *args):
    return " ".join([name] + [enc(a) for a in args])

class Case:
    """lines: script; data: whatever the oracle needs; alarm: seconds"""
    def __init__(self, lines, alarm=60, **data):
        self.lines = lines
        self.alarm = alarm
        self.__dict__.update(data)

class Crash:
    def __init__(self, sig, text):
        self.sig, self.text = sig, text

# ---------------------------------------------------------------- sanitizer reports
def _signature(text, rc):
    kind = None
    m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z0-9-]+)", text)
    if m:
        kind = m.group(1)
    m = re.search(r"WARNING: MemorySanitizer:? ([A-Za-z0-9-]+)", text)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: ([^\n]*)", text)
    if kind is None and m2:
        kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:60].strip().replace(" ", "_")
    if kind is None and "LeakSanitizer" in text:
        kind = "leak"
    if kind is None:
        kind = "exit%s" % rc
    frame = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) ([^\s:]+):(\d+)", text):
        f = os.path.basename(m.group(2))
        if f.startswith("drv"):
            continue
        if f.startswith("cligen") or f.startswith("lex.cligen"):
            frame = m.group(1)
            break
    return "%s:%s" % (kind, frame)

ENV = dict(os.environ)
ENV.update({"LC_ALL": "C", "TZ": "UTC", "TERM": "dumb", "HOME": "/nonexistent"})
for k in list(ENV):
    if k.startswith("VERIF") is False and k in ("LD_PRELOAD", "MALLOC_PERTURB_"):
        del ENV[k]

def _env(scratch):
    e = dict(ENV)
    common = "log_path=%s/san:exitcode=77:abort_on_error=0:symbolize=1:handle_abort=1" % scratch
    e["ASAN_OPTIONS"] = common + ":detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12"
    e["UBSAN_OPTIONS"] = common + ":print_stacktrace=1:halt_on_error=1"
    e["MSAN_OPTIONS"] = common + ":allocator_may_return_null=1"
    return e

def _reports(scratch, pid=None):
    main, other = "", []
    for f in sorted(os.listdir(scratch)):
        if f.startswith("san."):
            t = open(os.path.join(scratch, f), errors="replace").read()
            if pid is not None and f == "san.%d" % pid:
                main = t
            elif t.strip():
                other.append(t)
    return main, other

def exec_script(bindir, lines, tmo):
    """Run one script. Returns (list of per-case event lists, done, crash or None, child reports)"""
    sc = tempfile.mkdtemp(prefix="vp", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    try:
        with open(sc + "/script", "w") as f:
            f.write("\n".join(lines) + "\n")
        p = subprocess.Popen([bindir + "/drv", "script", "log", sc], cwd=sc, env=_env(sc),
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=open(sc + "/stderr", "wb"), start_new_session=True)
        hung = False
        try:
            rc = p.wait(tmo)
        except subprocess.TimeoutExpired:
            hung = True
            rc = -14
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        main, other = _reports(sc, p.pid)
        err = open(sc + "/stderr", errors="replace").read()[-2000:]
        for f in os.listdir(sc):
            if f.startswith("err"):
                err += open(os.path.join(sc, f), errors="replace").read()[-6000:]
        evs, cur, done = [], None, False
        try:
            logtxt = open(sc + "/log", encoding="latin-1").read()
        except OSError:
            logtxt = ""
        for ln in logtxt.split("\n"):
            if not ln:
                continue
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if "case" in d:
                cur = []
                evs.append(cur)
            elif "done" in d:
                done = True
            elif cur is not None:
                cur.append(d)
        crash = None
        if hung or rc == -14:
            crash = Crash("hang", "no answer within the watchdog time")
        elif rc != 0 or not done or main.strip():
            txt = main if main.strip() else err
            sig = _signature(txt, rc)
            if rc in (97, 98, 99):
                raise B.BuildError("driver error rc=%d %s" % (rc, logtxt[-500:]))
            crash = Crash(sig, txt[-6000:] or "exit status %s" % rc)
        return evs, done, crash, other
    finally:
        shutil.rmtree(sc, ignore_errors=True)

def run_cases(bindir, cases, maxcrash=6):
    """-> list of (events|None, Crash|None), None/None = not run"""
    res = [(None, None)] * len(cases)
    todo = list(range(len(cases)))
    crashes = 0
    while todo and crashes < maxcrash:
        lines = []
        for i in todo:
            lines.append(op("case", i, cases[i].alarm))
            lines += cases[i].lines
        tmo = 30 + sum(min(cases[i].alarm, 60) for i in todo)
        evs, done, crash, other = exec_script(bindir, lines, tmo)
        if other and not crash:   # a report in a forked child: find its case
            if len(todo) == 1:
                crash = Crash("child:" + _signature(other[0], 0), other[0][:6000])
                res[todo[0]] = (evs[0] if evs else [], crash)
                return res
            for i in todo:
                res[i] = run_cases(bindir, [cases[i]])[0]
            return res
        n = len(evs)
        if crash is None:
            for k, i in enumerate(todo):
                res[i] = (evs[k], None)
            break
        # last case in the log is the one that crashed, unless it happened in the
        # reset which belongs to the case before: the log then ends with that case too
        k = max(n - 1, 0)
        for j in range(k):
            res[todo[j]] = (evs[j], None)
        res[todo[k]] = (evs[k] if evs else [], crash)
        todo = todo[k + 1:]
        crashes += maxcrash if crash.sig == "hang" else 1 # a watchdog takes its time
    return res

# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.obs = collections.Counter()
        self.nt = set()
        self.samples = []
        self.viol = []
        self.cur = None
    def see(self, what, n=1):
        self.obs[what] += n
    def nontrivial(self, *key):
        self.nt.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)
    def fail(self, key, desc):
        self.viol.append((key, desc))

_MOD = None; _BIN = None; _SEED = None; _PROP = None; _TIER = None

def _check_one(case, ev, crash, ctx=None):
    c = ctx or Ctx()
    n0 = len(c.viol)
    if crash is not None:
        if getattr(_MOD, "on_crash", None):
            _MOD.on_crash(c, case, ev, crash)
        else:
            c.fail(("hang" if crash.sig == "hang" else "crash:" + crash.sig), crash.text)
    elif ev is not None:
        try:
            _MOD.check(c, case, ev)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, StopIteration, AssertionError, ArithmeticError, RecursionError) as e:
            import traceback
            if os.environ.get("VERIF_DEBUG"):
                raise
            c.fail("log-shape", "event log not of the expected shape: %s\n%s" % (e, traceback.format_exc()[-1500:]))
    return c.viol[n0:]

def _work(b):
    lo, hi = b
    ctx = Ctx()
    try:
        cases = []
        for i in range(lo, hi):
            rng = random.Random("%s/%s/%d" % (_SEED, _PROP, i))
            c = _MOD.gen(rng, i, _TIER)
            if c is not None:
                c.idx = i
                cases.append(c)
        binx = _BIN[lo // getattr(_MOD, "BATCH", 25) % len(_BIN)] if len(_BIN) > 1 else _BIN[0]
        if len(_BIN) > 1: ctx.see("batches on the %s build" % os.path.basename(binx).split("-")[0])
        res = run_cases(binx, cases)
        out = []
        for c, (ev, crash) in zip(cases, res):
            if ev is None and crash is None:
                ctx.see("skipped after crashes")
                continue
            ctx.see("cases")
            v = _check_one(c, ev, crash, ctx)
            if v:
                # confirm alone, in a fresh process
                retry = getattr(_MOD, "RETRY", 1)
                conf = None
                for _ in range(retry):
                    saved = c.alarm
                    c.alarm = saved * 2
                    r = run_cases(binx, [c])[0]
                    c.alarm = saved
                    conf = _check_one(c, r[0], r[1])
                    if not conf:
                        break
                if conf:
                    for key, desc in conf[:3]:
                        out.append((key, desc, c.idx, [op("case", c.idx, c.alarm)] + c.lines))
                elif crash is None or crash.sig != "hang":
                    # depends on earlier cases in the process: repeat the batch
                    if retry == 1:
                        upto = cases[:cases.index(c) + 1]
                        r = run_cases(binx, upto)[-1]
                        conf = _check_one(c, r[0], r[1])
                    if conf and retry == 1:
                        lines = []
                        for x in upto:
                            lines += [op("case", x.idx, x.alarm)] + x.lines
                        for key, desc in conf[:3]:
                            out.append((key, "(after earlier cases in the same process) " + desc, c.idx, lines))
                    else:
                        ctx.see("inconclusive (not reproduced)")
                else:
                    ctx.see("inconclusive (watchdog, not reproduced)")
        ctx.viol = out
        return ("ok", ctx.obs, ctx.nt, ctx.samples, ctx.viol)
    except B.BuildError as e:
        return ("err", str(e))
    except Exception as e:
        import traceback
        return ("err", traceback.format_exc())

def _serve(fn, c):
    while True:
        try:
            x = c.recv()
        except EOFError:
            os._exit(0)
        try:
            r = fn(x)
        except BaseException:
            import traceback
            r = ("err", traceback.format_exc())
        c.send(r)

def pmap(fn, items, deadline):
    """fn over items in worker processes, results in any order. Yields None and ends when the deadline has
    passed. Whoever stops reading may: the workers are killed, nothing is shared with them (a pool's
    terminate() can wait for ever for the rest of a result)."""
    ctx = mp.get_context("fork")
    todo = iter(items)
    work = {}
    try:
        for _ in range(int(os.environ.get("VERIF_JOBS", "8"))):
            try:
                x = next(todo)
            except StopIteration:
                break
            a, b = ctx.Pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for o in work:
                        o.close()
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                    _serve(fn, b)
                finally:
                    os._exit(1)
            b.close()
            work[a] = pid
            a.send(x)
        left = set(work)
        while left:
            t = deadline - time.time()
            rd = mp.connection.wait(list(left), max(t, 0))
            if not rd:
                yield None
                return
            for c in rd:
                try:
                    r = c.recv()
                except EOFError:
                    yield ("err", "a worker process was ended (out of memory?)")
                    return
                try:
                    c.send(next(todo))
                except StopIteration:
                    left.discard(c)
                yield r
    finally:
        for c, pid in work.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            c.close()

def known(prop):
    ks = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", ln.strip())
            if m and m.group(1) == prop:
                ks[m.group(2)] = m.group(3)
    return ks

def main(mod, prop, tier):
    global _MOD, _BIN, _SEED, _PROP, _TIER
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        sans = getattr(mod, "SANS", [getattr(mod, "SAN", "asan")])
        bins = [B.build(x) for x in sans]
        bindir = bins[0]
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    _MOD, _BIN, _SEED, _PROP, _TIER = mod, bins, seed, prop, tier
    if hasattr(mod, "setup"):
        mod.setup(bindir, tier)
    n = mod.N[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(n * scale))
    bs = getattr(mod, "BATCH", 25)
    batches = [(lo, min(lo + bs, n)) for lo in range(0, n, bs)]
    ctx = Ctx()
    viol = []
    errs = []
    limit = getattr(mod, "TIME", {"quick": 420, "thorough": 780})[tier]
    stopped = False
    for r in pmap(_work, batches, t0 + limit):
        if r is None:
            stopped = True
            break
        if r[0] == "err":
            errs.append(r[1]); break
        ctx.obs.update(r[1]); ctx.nt |= r[2]
        if len(ctx.samples) < 4:
            ctx.samples += r[3][:2]
        viol += r[4]
        if len(viol) >= MAXV or sum(v[0] in ("hang", "program:hang") for v in viol) >= 4:
            stopped = True
            break
    if hasattr(mod, "extra") and not errs:
        try:
            viol += mod.extra(ctx, bindir, tier, seed)
        except B.BuildError as e:
            errs.append(str(e))
    if errs:
        print("HARNESS-ERROR", errs[0])
        return 2
    ks = known(prop)
    kseen, new = {}, {}
    for key, desc, idx, script in viol:
        k = key.replace(" ", "_")
        if k in ks:
            kseen[k] = ks[k]
        elif k not in new:
            new[k] = (desc, idx, script)
    for k in sorted(ks):
        # a listed finding is announced whether or not this run met it
        print("KNOWN-FINDING: property=%s %s%s" % (prop, ks[k], "" if k in kseen else " (not met in this run)"))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=ctx.obs["cases"], distinct_nontrivial=len(ctx.nt),
                            rule=mod.RULE, samples=ctx.samples[:4] or ["(none)"],
                            observed={k: v for k, v in sorted(ctx.obs.items())},
                            stopped_early=stopped),
              assumptions=getattr(mod, "ASSUME", []), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("property=%s tier=%s seed=%d cases=%d nontrivial=%d violations=%d wall=%.1fs" %
          (prop, tier, seed, ctx.obs["cases"], len(ctx.nt), len(new), wall))
    for k, v in sorted(ctx.obs.items()):
        print("  observed %s: %d" % (k, v))
    if new:
        os.makedirs(VERIF + "/out", exist_ok=True)
        for k, (desc, idx, script) in new.items():
            name = "%s/out/%s-%s.json" % (VERIF, prop, hashlib.sha1(k.encode()).hexdigest()[:10])
            with open(name, "w") as f:
                json.dump(dict(property=prop, seed=seed, index=idx, key=k, description=desc, san=sans[idx // bs % len(sans)], script=script), f, indent=1)
            print("  key=%s\n    %s" % (k, desc[:1500].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (prop, name))
        return 1
    if ctx.obs["cases"] == 0 or len(ctx.nt) < getattr(mod, "MIN_NT", 2):
        print("HARNESS-ERROR nothing observed")
        return 2
    return 0
