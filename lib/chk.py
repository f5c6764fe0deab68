"""Shared frame of every check: seed, tier, counting, known findings, evidence, exit code.

  with chk.Check("C01", rule=...) as c:      (body runs in a forked child: a crash of the code under test
      c.case(key, nontrivial=True)            is seen by the parent)
      c.ok(cond, key, message, data)          one oracle evaluation

exit 0: held on everything; 1: VIOLATION printed; anything else: no answer (e.g. the build failed)."""
import json, os, sys, time, signal, traceback, shutil, hashlib, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PXR_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
SCRATCH = os.environ.get("PXR_SCRATCH", "/tmp")


def rng(*salt):
    import numpy as np
    h = hashlib.sha256(repr((SEED,) + salt).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: ") and f"property={pid} " in l:
                k = l.split(" key=", 1)[1].split(" ", 1)
                out[k[0]] = k[1].strip()
    return out


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid, self.rule, self.level, self.assumptions = pid, rule, level, list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.viol = []
        self.knownhit = {}
        self.extra = {}
        self.known = known(pid)
        self.kinds = {}

    # --- bookkeeping
    def case(self, key, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            self.keys.add(key if isinstance(key, (str, int)) else repr(key))
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + int(n)

    def worst(self, name, v):
        """largest deviation seen by an oracle, in units of its tolerance"""
        v = float(v)
        w = self.extra.setdefault("worst_over_tolerance", {})
        if not (v <= w.get(name, -1)):
            w[name] = v

    def violation(self, key, msg, data=None):
        key = str(key).replace(" ", "_")
        if key in self.known:
            self.knownhit.setdefault(key, msg)
            return
        n = self.kinds.get(key, 0)
        self.kinds[key] = n + 1
        if n < 3 and len(self.viol) < 40:
            self.viol.append({"key": key, "message": msg, "data": data})

    def ok(self, cond, key, msg, data=None):
        self.count("oracle_evaluations")
        if not cond:
            self.violation(key, msg() if callable(msg) else msg, data() if callable(data) else data)
        return bool(cond)

    def close(self, got, ref, tol, key, msg, scale=None, data=None):
        """max|got-ref| <= tol*scale, NaN never passes"""
        import numpy as np
        got, ref = np.asarray(got, float), np.asarray(ref, float)
        if scale is None:
            scale = max(float(np.max(np.abs(ref))) if ref.size else 0.0, 1e-300)
        if got.shape != ref.shape and ref.shape != ():
            return self.ok(False, key, f"{msg}: shape {got.shape} != {ref.shape}", data)
        d = float(np.max(np.abs(got - ref))) if got.size else 0.0
        r = d / (tol * scale)
        self.worst(key.split("/")[0], r if r == r else float("inf"))
        good = r <= 1.0

        def where():
            e = np.abs(got - ref)
            e = np.where(np.isnan(e), np.inf, e)
            i = np.unravel_index(int(np.argmax(e)), e.shape) if e.ndim else ()
            return f"{msg}: |diff|={d:.6g} > {tol:g}*{scale:.6g} at {tuple(int(q) for q in i)} got {got[i] if e.ndim else got} expected {np.broadcast_to(ref, got.shape)[i] if e.ndim else ref}"
        return self.ok(good, key, where, data)

    # --- output
    def _finish(self, crashed=None):
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.keys), "rule": self.rule,
                           "samples": self.samples[:12], **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": sum(self.kinds.values()), "known_findings_seen": sorted(self.knownhit)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.known):
            if k in self.knownhit:
                print(f"KNOWN-FINDING: property={self.pid} {k}: {self.known[k]}")
        if not self.viol:
            print(f"{self.pid}: held on {self.evals} cases ({len(self.keys)} distinct), {self.extra.get('oracle_evaluations', 0)} oracle evaluations, {ev['wall_s']} s")
            return 0
        rp = os.path.join(VERIF, "evidence", f"replay_{self.pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "seed": SEED, "tier": TIER,
                       "rerun": f"cd /verif && VERIF_SEED={SEED} VERIF_TIER={TIER} python3-vt checks/{self.pid}.py",
                       "violations": self.viol, "counts": self.kinds}, f, indent=1, default=str)
        for v in self.viol[:10]:
            print(f"  {self.pid} {v['key']}: {v['message']}")
        print(f"VIOLATION property={self.pid} replay={rp}")
        return 1


class Scratch:
    def __init__(self, pid):
        self.d = tempfile.mkdtemp(prefix=f"pxr_{pid}_", dir=SCRATCH)

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        if not os.environ.get("PXR_KEEP"):
            shutil.rmtree(self.d, ignore_errors=True)


def run(pid, rule, body, assumptions=(), crash_is_violation=True):
    """body(check, scratchdir) in a forked child; body's violations decide.  When the child dies from
    SIGSEGV/SIGFPE/SIGBUS/SIGILL/SIGABRT inside code under test, that is a violation as well."""
    sys.stdout.flush()
    sys.setrecursionlimit(10000)
    with Scratch(pid) as d:
        pidc = os.fork()
        if pidc == 0:
            rc = 3
            try:
                c = Check(pid, rule, assumptions=assumptions)
                c.current = None
                c._curfile = os.path.join(d, "current_case")
                body(c, d)
                rc = c._finish()
            except BaseException:
                traceback.print_exc()
                rc = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        _, st = os.waitpid(pidc, 0)
        if os.WIFSIGNALED(st):
            s = os.WTERMSIG(st)
            if crash_is_violation and s in (signal.SIGSEGV, signal.SIGFPE, signal.SIGBUS, signal.SIGILL, signal.SIGABRT):
                c = Check(pid, rule, assumptions=assumptions)
                cur = ""
                try:
                    cur = open(os.path.join(d, "current_case")).read()
                except OSError:
                    pass
                c.case("crash")
                c.violation("crash/" + cur.split(" ")[0], f"the code under test died from signal {s} in case {cur}")
                rc = c._finish()
            else:
                print(f"{pid}: the check's process died from signal {s}: no answer")
                rc = 4
        else:
            rc = os.WEXITSTATUS(st)
    sys.stdout.flush()
    sys.exit(rc)


def isolated(c, key, fn, *args):
    """fn(c, *args) in a forked child whose facts are merged back; the child's death (a Fortran runtime check, a signal) is a violation"""
    import pickle
    base = c._curfile + ".iso"
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            fd = os.open(base + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
            fn(c, *args)
            with open(base, "wb") as f:
                pickle.dump(c.__dict__, f)
            rc = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    err = open(base + ".err", errors="replace").read() if os.path.exists(base + ".err") else ""
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and os.path.exists(base):
        with open(base, "rb") as f:
            c.__dict__.update(pickle.load(f))
        os.remove(base)
        return True
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
        raise RuntimeError("isolated part failed:\n" + err[-3000:])
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL:
        raise RuntimeError("isolated part was killed")
    cur = open(c._curfile).read() if os.path.exists(c._curfile) else ""
    c.case("crash " + key)
    c.violation("crash/" + key, f"the code under test ended the process (status {st}) in case {cur}: {err[-500:]}")
    return False


def mark(c, s):
    """remembers the case being run, for the report when it crashes"""
    with open(c._curfile, "w") as f:
        f.write(s)
