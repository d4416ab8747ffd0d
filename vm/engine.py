"""Builds generated monitor programs against /repo's working tree, runs them under sanitizers,
feeds the recorded events to the oracles, and reports."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-O1", "-g1", "-fsanitize=thread"]
PLAIN = ["-O1"]

RUNENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:check_initialization_order=0",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
}


class Case:
    """One monitored program fragment.

    body    C++ statements; `p` is a const std::size_t* with the runtime parameters
    psets   list of (values, ctx): executions to perform
    check   fn(ctx, events) -> list of violation strings; events = list of log lines (str)
    prelude C++ at namespace scope
    """

    def __init__(self, cid, body, psets, check, prelude="", desc=None, key=None, group=None, flags=None, cxx=None):
        self.cid, self.body, self.psets, self.check = cid, body, psets, check
        self.prelude, self.desc = prelude, desc or cid
        self.key = key or cid
        self.group = group
        self.flags = flags
        self.cxx = cxx


class HarnessError(Exception):
    pass


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vmon-%s-" % prop)
        self.viol = []          # (key, message, replay-files)
        self.n_exec = 0
        self.n_events = 0
        self.nontrivial = set()
        self.samples = []
        self.notes = {}
        self.rule = ""
        self.assumptions = []

    # ------------------------------------------------------------------ spelling
    INTS = ["int", "short", "long long", "unsigned", "unsigned char", "std::uint16_t", "long"]
    DIMS = ["noarr::dim<'%s'>{}", "noarr::dim<int('%s')>{}", "noarr::dim<vm::tg<'%s'>{}>{}", "noarr::dim<static_cast<unsigned char>('%s')>{}"]
    spell = ("dims", "ints")    # what a property lets vary: "dims", "ints"

    def respell(self, c):
        """the same program with other names of dimensions (noarr::dim objects) and other types of its run-time parameters"""
        body = c.body
        h = hashlib.sha256(("%s/%s" % (c.cid, self.seed)).encode()).digest()
        if "dims" in self.spell and not re.search(r"'.'", c.prelude) and h[0] % 3 == 0:
            def dim(m):
                x = m.group(1)
                k = hashlib.sha256((c.cid + x).encode()).digest()[0] % (len(self.DIMS) + 2)
                return self.DIMS[k] % x if k < len(self.DIMS) else m.group(0)
            body = re.sub(r"(?<!\()'([A-Za-z#@?])'", dim, body)          # not a character passed to a function
        if "ints" in self.spell and h[1] % 3 == 0:
            def par(m):
                i = int(m.group(1))
                if any(len(v) <= i or v[i] > 100 for v, _ in c.psets):
                    return m.group(0)
                k = hashlib.sha256(("%s/%d" % (c.cid, i)).encode()).digest()[0] % (len(self.INTS) + 2)
                return "static_cast<%s>(%s)" % (self.INTS[k], m.group(0)) if k < len(self.INTS) else m.group(0)
            body = re.sub(r"\bp\[(\d+)\]", par, body)
        return body

    # ------------------------------------------------------------------ compiling
    def cc(self, src, exe, flags, cxx="g++", std="c++20", timeout=600):
        cmd = [cxx, "-std=" + std, "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + flags + [src, "-o", exe]
        # flags may contain libs; put -l last
        libs = [f for f in flags if f.startswith("-l")]
        if libs:
            cmd = [c for c in cmd if c not in libs] + libs
        for attempt in (1, 2):
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                if attempt == 1:
                    continue
                return False, "compile timeout"
            if r.returncode == 0:
                return True, ""
            # killed compiler (resources) is not a verdict: retry once
            if r.returncode < 0 or "Killed" in r.stderr or "internal compiler error" in r.stderr:
                if attempt == 1:
                    continue
                raise HarnessError("compiler died: " + r.stderr[-500:])
            return False, r.stderr
        return False, ""

    def sanity(self, includes, flags=SAN):
        """the library's headers on their own must build, else there is nothing to monitor"""
        src = os.path.join(self.work, "sanity.cpp")
        with open(src, "w") as f:
            for i in includes:
                f.write("#include %s\n" % i)
            f.write("int main() { return 0; }\n")
        ok, err = self.cc(src, os.path.join(self.work, "sanity"), flags)
        if not ok:
            raise HarnessError("the library headers do not build: " + err[-1500:])

    def tu(self, cases, includes):
        s = ["// generated monitor program"]
        for i in includes:
            s.append("#include %s" % i)
        seen = set()
        for c in cases:
            if c.prelude and c.prelude not in seen:
                seen.add(c.prelude)
                s.append(c.prelude)
        for c in cases:
            s.append("static void fn_%s([[maybe_unused]] const std::size_t *p) {\n%s\n}" % (c.cid, self.respell(c)))
        s.append("static const vm::entry tab[] = {%s};" % ", ".join('{"%s", fn_%s}' % (c.cid, c.cid) for c in cases))
        s.append("int main(int argc, char **argv) { return vm::run(argc, argv, tab, sizeof tab / sizeof *tab); }")
        return "\n".join(s) + "\n"

    def run_cases(self, cases, per_tu=4, includes=('"vmon.hpp"',), flags=SAN, sanity=True, timeout=300, libs=(),
                  runs=1, env=None, cxx="g++", serial_run=False):
        """compile groups of cases and run them; returns nothing, records violations"""
        if sanity:
            self.sanity(includes, flags + list(libs))
        groups = []
        byg = {}
        for c in cases:
            byg.setdefault((c.group, tuple(c.flags or ())), []).append(c)
        for (g, fl), cs in byg.items():
            n = per_tu
            for i in range(0, len(cs), n):
                groups.append((cs[i:i + n], list(fl)))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self._group, k, g, includes, flags + fl + list(libs), timeout, runs, env, cxx)
                    for k, (g, fl) in enumerate(groups)]
            for f in cf.as_completed(futs):
                f.result()

    _n = 0

    def _group(self, k, cases, includes, flags, timeout, runs, env, cxx):
        Run._n += 1
        tag = "g%d_%d" % (Run._n, k)
        src = os.path.join(self.work, tag + ".cpp")
        exe = os.path.join(self.work, tag)
        text = self.tu(cases, includes)
        with open(src, "w") as f:
            f.write(text)
        ok, err = self.cc(src, exe, flags, cxx)
        if not ok:
            if len(cases) > 1:
                for c in cases:
                    self._group(k, [c], includes, flags, timeout, runs, env, cxx)
                return
            c = cases[0]
            errs = [l for l in err.splitlines() if "error" in l][:4]
            self.violation(c, "build", "valid use does not build: %s\n  %s" % (c.desc, "\n  ".join(errs) or err[-400:]), text, None, [])
            os.unlink(src)
            return
        for rn in range(runs):
            self._exec(tag, exe, cases, text, timeout, env)
        for fn in (exe, src):
            try:
                os.unlink(fn)
            except OSError:
                pass

    def _exec(self, tag, exe, cases, text, timeout, env):
        todo = [(c, i) for c in cases for i in range(len(c.psets))]
        while todo:
            pf, lf = os.path.join(self.work, tag + ".in"), os.path.join(self.work, tag + ".log")
            with open(pf, "w") as f:
                for c, i in todo:
                    vals = c.psets[i][0]
                    f.write("%s %d %d %s\n" % (c.cid, i, len(vals), " ".join(map(str, vals))))
            e = dict(os.environ, **RUNENV)
            e["TMPDIR"] = self.work
            if env:
                e.update(env)
            hang = False
            for attempt in (1, 2):
                try:
                    r = subprocess.run([exe, pf, lf], capture_output=True, text=True, errors="replace", timeout=timeout,
                                       env=e, cwd=self.work)
                    hang = False
                    break
                except subprocess.TimeoutExpired:
                    hang = True
            blocks = {}
            cur = None
            ended = False
            try:
                with open(lf, errors="replace") as f:
                    for line in f:
                        line = line.rstrip("\n")
                        if line.startswith("@"):
                            if line == "@end":
                                ended = True
                                break
                            _, nm, pi = line.split()
                            cur = [False, []]
                            blocks[(nm, int(pi))] = cur
                        elif line == ".":
                            cur[0] = True
                        elif cur is not None:
                            cur[1].append(line)
            except OSError:
                raise HarnessError("no log from %s: %s" % (exe, r.stderr[-500:] if not hang else "timeout"))
            crashed = None
            done = set()
            for c, i in todo:
                b = blocks.get((c.cid, i))
                if b is None:
                    continue
                if not b[0]:
                    crashed = (c, i, b[1])
                    continue
                done.add((c.cid, i))
                self._judge(c, i, b[1], text)
            if hang:
                c, i, evs = crashed or (todo[0][0], todo[0][1], [])
                self.violation(c, "hang", "did not terminate within %d s (twice): %s params=%s" % (
                    timeout, c.desc, c.psets[i][0]), text, i, evs)
                return
            if crashed:
                c, i, evs = crashed
                rep = self.sanreport(r)
                self.violation(c, "abort", "execution aborted (exit %s): %s params=%s\n%s" % (
                    r.returncode, c.desc, c.psets[i][0], rep), text, i, evs)
                done.add((c.cid, i))
                # go on with the other cases of this program, skipping the crashed case
                todo = [(a, b) for a, b in todo if (a.cid, b) not in done and a is not c]
                continue
            if r.returncode != 0:
                # after the end of the last case: leaks and the like
                if ended and r.returncode in (97, 98, 99, 23):
                    self.violation(cases[0], "exit", "sanitizer report at exit (%s) in %s\n%s" % (
                        r.returncode, ",".join(x.cid for x in cases), self.sanreport(r)), text, None, [])
                    return
                raise HarnessError("program ended with %s: %s" % (r.returncode, r.stderr[-800:]))
            missing = [(c, i) for c, i in todo if (c.cid, i) not in done]
            if missing:
                raise HarnessError("missing results for %s" % missing[:3])
            return

    @staticmethod
    def sanreport(r):
        lines = r.stderr.splitlines()
        keep = [l for l in lines if re.search(r"ERROR|runtime error|WARNING: Thread|SUMMARY|terminate|what\(\)", l)]
        return "\n".join(keep[:6]) or r.stderr[-600:]

    def _judge(self, c, i, evs, text):
        vals, ctx = c.psets[i]
        self.n_exec += 1
        self.n_events += len(evs)
        bad = []
        if any(l.startswith("!overflow") for l in evs):
            bad = ["produced far more events than the structure has elements"]
        else:
            xs = [l for l in evs if l.startswith("X ")]
            if xs:
                bad = ["unexpected exception: " + xs[0][2:]]
            else:
                bad = c.check(ctx, evs)
        if len(evs) >= 2:
            self.nontrivial.add((c.cid, tuple(vals)))
        if len(self.samples) < 5 and len(evs) >= 4 and (self.n_exec % 17 == 1):
            self.samples.append({"case": c.desc[:300], "params": list(vals), "events": len(evs), "first_events": evs[:4]})
        for b in bad[:3]:
            self.violation(c, "oracle", "%s\n  case %s params=%s" % (b, c.desc, list(vals)), text, i, evs)

    def violation(self, c, kind, msg, text, pset, evs):
        self.viol.append({"key": c.key, "kind": kind, "msg": msg, "text": text, "case": c.cid, "pset": pset,
                          "vals": list(c.psets[pset][0]) if pset is not None else None, "evs": evs[:200]})

    # ------------------------------------------------------------------ verdict
    def finish(self, min_exec=1):
        known, fixed = load_known(self.prop)
        unknown = []
        hit = {}
        for v in self.viol:
            m = [k for k in known if k["case"] == v["key"] and k.get("kind", v["kind"]) == v["kind"]
                 and k.get("match", "") in v["msg"]]
            if m:
                hit.setdefault(m[0]["id"], m[0])
            else:
                unknown.append(v)
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        wall = time.time() - self.t0
        cov = {
            "evaluations": self.n_exec,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            "samples": self.samples[:5],
            "events_observed": self.n_events,
        }
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(unknown)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if unknown:
            v = unknown[0]
            rp = os.path.join(VERIF, "evidence", "replay-%s" % self.prop)
            os.makedirs(rp, exist_ok=True)
            h = hashlib.sha1((v["key"] + v["msg"]).encode()).hexdigest()[:10]
            path = os.path.join(rp, "%s-%s.txt" % (v["case"], h))
            with open(path, "w") as f:
                f.write("property %s seed %d tier %s\n%s\n\n" % (self.prop, self.seed, self.tier, v["msg"]))
                f.write("replay: build the program below with g++ -std=c++20 -I/repo/include -I/verif/harness %s, run it with\n"
                        "  an input file containing the line: %s %s %s\n  and an output file name\n" % (
                            " ".join(SAN), v["case"], v["pset"] if v["pset"] is not None else 0,
                            " ".join(map(str, [len(v["vals"] or [])] + (v["vals"] or [])))))
                f.write("\n--- recorded events\n%s\n\n--- program\n%s" % ("\n".join(v["evs"]), v["text"]))
            for u in unknown[:8]:
                print("  [%s] %s" % (u["kind"], u["msg"]))
            print("%d violation records" % len(unknown))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.n_exec < min_exec:
            raise HarnessError("observed only %d executions" % self.n_exec)
        print("OK property=%s executions=%d distinct=%d events=%d wall=%.1fs" % (
            self.prop, self.n_exec, len(self.nontrivial), self.n_events, wall))
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return [], []
    d = json.load(open(p))
    return ([k for k in d.get("findings", []) if k["property"] == prop],
            [k for k in d.get("fixed", []) if prop in k])
