"""C30, C31: checked casts and arithmetic, bound to the Quint specification Num and to Num8Trace."""
import json, shutil
from fractions import Fraction
from lib import *

ERANGE, EDOM = 34, 33


def quint_behaviours(ctx, step, nseeds, ntraces, steps):
    """Simulates Num with its own properties as invariant; returns the calls of all behaviours."""
    def one(k):
        d = ctx.tmp("itf")
        os.makedirs(d)
        cmd = ["quint", "run", "--main", "Num", "--invariant", "sane", "--step", step, f"--max-steps={steps}",
               f"--max-samples={ntraces}", f"--n-traces={ntraces}", "--verbosity=1", f"--seed={SEED * 1000 + k}",
               "--backend=typescript", f"--out-itf={d}/t_{{seq}}.itf.json", os.path.join(SPEC, "Num.qnt")]
        rc, o, e = ctx.run(cmd, timeout=scale(400, 3000), cwd=d)
        if rc != 0:
            raise Infra(f"quint run of Num ({step}) failed: {rc}\n{o[-3000:]}{e[-2000:]}")
        calls = []
        for f in sorted(os.listdir(d)):
            for s in json.load(open(os.path.join(d, f)))["states"]:
                if s["op"] == "none":
                    continue
                calls.append(s)
        shutil.rmtree(d, ignore_errors=True)
        return calls
    return [c for cs in parallel(one, range(nseeds)) for c in cs]


def big(x):
    return int(x["#bigint"]) if isinstance(x, dict) else int(x)


def num(n):
    return big(n["m"]), big(n["e"])


def frac(m, e):
    return Fraction(m) * (Fraction(2) ** e)


def check_calls(ctx, calls):
    def shard(k):
        part = calls[k::NCPU]
        inp, out = ctx.tmp("calls"), ctx.tmp("outcomes")
        with open(inp, "w") as f:
            for c in part:
                am, ae = num(c["a"])
                bm, be = num(c["b"])
                f.write(f"{c['op']} {c['ty']} {c['dst']} {am} {ae} {bm} {be}\n")
        rc, o, e = ctx.run([ctx.drv("drv_num"), "calls", inp, out], timeout=scale(120, 900))
        lines = open(out).read().splitlines() if os.path.exists(out) else []
        for i, c in enumerate(part):
            want = c["out"]
            got = lines[i].split() if i < len(lines) else ["nothing", str(rc)]
            tag = want["tag"]
            if tag == "Value" or tag == "Edge" and got[0] == "v":
                ok = got[0] == "v" and (int(got[1]), int(got[2])) != (0, 99999) and int(got[2]) < 90000 and \
                    frac(int(got[1]), int(got[2])) == frac(*num(want["value"]))
            elif tag == "Edge" and got == ["r", str(ERANGE)]:
                ok = True
            else:
                ok = got == ["r", str(ERANGE if tag == "ERange" else EDOM)]
            if not ok:
                am, ae = num(c["a"])
                bm, be = num(c["b"])
                w = tag if tag not in ("Value", "Edge") else "%d*2^%d" % num(want["value"])
                ctx.violation(f"{c['op']} {c['ty']}->{c['dst']} of {am}*2^{ae}, {bm}*2^{be}: outcome {' '.join(got)}, but Num has {w}",
                              f"# drv_num calls\n{c['op']} {c['ty']} {c['dst']} {am} {ae} {bm} {be}\n# outcome: {' '.join(got)}; specified: {w}\n{e[-500:]}")
                return
        with ctx._lk:
            ctx.traces += len(part)
            ctx.events += len(part)
    parallel(shard, range(NCPU))
    for c in calls[:8]:
        ctx.sample(f"{c['op']} {c['ty']} {c['dst']} a={num(c['a'])} b={num(c['b'])} -> {c['out']['tag']}")


def rows(ctx, what, n):
    """Exhaustive tables of the small types against Num8Trace."""
    out = ctx.tmp(what)
    rc, o, e = ctx.run([ctx.drv("drv_num"), what, out], timeout=300)
    if rc != 0:
        with open(out, "a") as f:
            f.write("\n")
        fix_tail(out)
    lines = [l for l in open(out).read().splitlines() if l]

    def shard(k):
        part = lines[k::NCPU]
        p = ctx.tmp("rows")
        want = len(range(k, n, NCPU))
        open(p, "w").write("\n".join(part) + "\n")
        r = ctx.tlc("Num8Trace", "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n", env={"TRACE": p})
        if r.progress is None:
            raise Infra(f"TLC gave no verdict with Num8Trace:\n{r.out[-3000:]}")
        with ctx._lk:
            ctx.mc_states += r.distinct
            ctx.mc_trans += r.generated
        if r.progress != r.length or len(part) != want:
            bad = part[r.progress] if r.progress < len(part) else "(rows are missing)"
            m = re.search(r'<<"WRONG".*>>', r.out)
            ctx.violation(f"table {what}: {m.group(0) if m else bad[:200]} is not allowed by Num8Trace", f"# drv_num {what}\n{bad}\n{m.group(0) if m else ''}\n{e[-500:]}")
            return
        with ctx._lk:
            ctx.traces += len(part)
            ctx.events += sum(l.count(",") for l in part)
    parallel(shard, range(NCPU))


def c30(ctx):
    ctx.build("drv_num")
    rows(ctx, "rows16", 17850)
    check_calls(ctx, quint_behaviours(ctx, "stepCast", NCPU, scale(6, 60), scale(300, 1000)))


def c31(ctx):
    ctx.build("drv_num")
    rows(ctx, "rows8", 4663)
    check_calls(ctx, quint_behaviours(ctx, "stepArith", NCPU, scale(6, 60), scale(300, 1000)))


CHECKS = {"C30": c30, "C31": c31}
