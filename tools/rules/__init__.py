"""Rule registry: RULES[property id] = function(report)."""
RULES = {}


def rule(pid):
    def d(f):
        RULES[pid] = f
        return f
    return d


from . import time_values
from . import clocks
from . import channels
from . import endpoints
from . import adapters
from . import contexts
from . import templates, memory, compute, running, logs, widths, program, dot, builds
