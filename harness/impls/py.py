"""Reads JSON strings, one per line; answers with the tree that implementations/styx-py makes of each."""
import json, sys
sys.path.insert(0, sys.argv[1])
import styx
from styx.parser import Parser
from styx.types import ParseError, Scalar, Sequence, StyxObject

def val(v):
    j = {}
    if v.tag is not None:
        j["g"] = v.tag.name
    p = v.payload
    if isinstance(p, Scalar):
        j["s"], j["k"] = p.text, p.kind.value
        if v.tag is None and j["k"] != "heredoc":
            j["sp"] = [p.span.start, p.span.end]
    elif isinstance(p, Sequence):
        j["q"] = [val(x) for x in p.items]
    elif isinstance(p, StyxObject):
        j["o"] = ents(p.entries)
    elif p is not None:
        j["odd"] = repr(p)
    return j
def ents(es):
    return [[val(e.key), val(e.value)] for e in es]

for l in sys.stdin:
    t = json.loads(l)
    try:
        d = Parser(t).parse()
        r = {"ok": ents(d.entries)}
    except ParseError as e:
        r = {"error": str(e.message), "sp": [e.span.start, e.span.end]}
    except BaseException as e:
        r = {"crash": f"{type(e).__name__}: {e}"[:300]}
    try:
        s = json.dumps(r)
    except RecursionError:
        s = '{"deep":true}'
    sys.stdout.write(s + "\n")
    sys.stdout.flush()
