from . import faults, inputs, world, batch, sources, finished, lib

ALL = {c.id: c for m in (faults, inputs, world, batch, sources, finished, lib) for c in m.CHECKS}
