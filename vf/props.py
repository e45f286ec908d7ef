"""The properties: their statements, and how each is run.  gen.py writes
properties.jsonl and MANIFEST.json from this table."""
import glob, os

PROPS = {}
TECH = "runtime monitoring: ASan+UBSan build of the real code, reference-model oracles over generated workloads"


def prop(pid, title, statement, over, quant, why, files, mechanism, rule, stages, observe=(), state=(), hook=None,
         note="", technique=TECH, sources=None, assumptions=(), **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mechanism, rule=rule, stages=stages, observe=list(observe), state=list(state), hook=hook,
                      note=note, technique=technique, sources=sources or [pid.lower() + ".cpp"],
                      assumptions=list(assumptions), **kw)


for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"prop": prop, "TECH": TECH})
