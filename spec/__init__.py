"""The properties: statements, anchors, and how each is decided."""
from . import (access, atomics, buffers, containers, copying, gpu, memory,
               owners, statics, watch)

PROPS = []
for m in (memory, watch, owners, copying, containers, buffers, access,
          atomics, statics, gpu):
    PROPS += m.PROPS

NOT_APPLICABLE = [{"property": p["id"], "reason": p["na"]}
                  for p in PROPS if not p.get("fn")]

NOTES = ("All checks are static: they compile /repo's current sources to LLVM "
         "bitcode with clang 18 (never executing anything), canonicalise the "
         "code with a fact extractor (tool/vpx.cpp) and decide rules over the "
         "resulting flow graphs, or decide compile-time witnesses.")
