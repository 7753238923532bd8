"""Registry: property -> (module, function, metadata), filled from spec/."""
from spec import PROPS

REGISTRY = {}
for p in PROPS:
    if p.get("fn"):
        mod, fn = p["fn"].split(".")
        REGISTRY[p["id"]] = (mod, fn, {
            "explanation": p["explanation"], "min": p["min"],
            "assumptions": p.get("assumptions", [])})
