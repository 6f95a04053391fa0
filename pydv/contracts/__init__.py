"""The contracts, one module per area of the code."""
from . import base, callstack, state, variables, state2, story, paths, lists, listdefs, natives, values  # noqa: F401
from . import story2  # noqa: F401
from . import ownership18  # noqa: F401
from . import sweeps  # noqa: F401
from . import determinism03  # noqa: F401
from . import lemmas  # noqa: F401
from . import tokenizer  # noqa: F401
