"""cov.py [runs]: which lines of ruleskit the worlds execute (all properties together), by sys.monitoring."""
import ast, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PROPS = [f"C{i:02d}" for i in range(1, 13)]


def child(prop, runs):
    from sim import host, engine
    host.setup()
    seen = {}
    mon = sys.monitoring
    mon.use_tool_id(3, "cov")

    def line(code, n):
        if code.co_filename.startswith(host.PKG):
            seen.setdefault(os.path.relpath(code.co_filename, host.PKG), set()).add(n)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    w = engine.world_of(prop)
    for i in range(runs):
        t = w.gen(engine.rng_for(5, prop, i), prop, "quick")
        t["prop"], t["seed"], t["index"] = prop, 5, i
        engine.run_trace(t)
    sys.stdout.write("\n@@" + json.dumps({k: sorted(v) for k, v in seen.items()}) + "\n")
    sys.stdout.flush()
    os._exit(0)


if len(sys.argv) > 2:
    child(sys.argv[1], int(sys.argv[2]))
runs = sys.argv[1] if len(sys.argv) > 1 else "300"
ps = {p: subprocess.Popen([sys.executable, __file__, p, runs], stdout=subprocess.PIPE, text=True,
                          env=dict(os.environ, PYTHONHASHSEED="0")) for p in PROPS}
seen = {}
for p, pr in ps.items():
    for l in pr.communicate()[0].splitlines():
        if l.startswith("@@"):
            for f, ls in json.loads(l[2:]).items():
                for n in ls:
                    seen.setdefault(f, {}).setdefault(n, []).append(p)
from sim import host
for f in sorted(seen):
    if "_version" in f:
        continue
    src = open(os.path.join(host.PKG, f)).read()
    lines = src.splitlines()
    stm = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.stmt) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            stm.add(n.lineno)
    miss = sorted(n for n in stm if n not in seen[f])
    print(f"== {f}: {len(stm) - len(miss)}/{len(stm)} statements executed")
    for n in miss:
        print(f"{n:5d} {lines[n - 1]}")
