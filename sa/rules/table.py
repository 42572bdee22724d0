"""Property id -> rule."""
import os

from .containers import check_c24, check_c27, check_c31, check_c32
from .endtoend import (
    more_c01, more_c06, more_c07, more_c08, more_c09, more_c10, more_c11, more_c14, more_c15, more_c18, more_c17, more_c21, more_c22,
    more_c23,
)
from .histories import more_c09 as unloading, more_c31, more_c32
from .locks import check_c12, check_c13, check_c16
from .lookup import check_c21, check_c22, check_c23
from .names import check_c04, check_c05
from .protocol import check_c08, check_c09, check_c10, check_c11
from .roundtrip import check_c01
from .state import check_c06, check_c07
from .store import check_c14, check_c15, check_c17, check_c18, check_c19
from .objects import check_c02, check_c26, check_c28, check_c30, check_c33, check_c34
from .system import check_c20


def both(local, programs):
    """A local rule and the analysis of client programs."""
    def check(ctx):
        broken = []
        for rule in (local, programs):
            try:
                rule(ctx)
            except Exception as e:      # the other rule may still decide
                if os.environ.get("SA_DEBUG"):
                    raise
                broken.append(e)
        if len(broken) == 2:
            raise broken[0]
        for e in broken:
            ctx.unknown("incomplete", type(e).__name__, str(e))
    return check


RULES = {
    "C01": both(check_c01, more_c01),
    "C02": check_c02,
    "C04": check_c04,
    "C05": check_c05,
    "C06": both(check_c06, more_c06),
    "C07": both(check_c07, more_c07),
    "C08": both(check_c08, more_c08),
    "C09": both(both(check_c09, more_c09), unloading),
    "C10": both(check_c10, more_c10),
    "C11": both(check_c11, more_c11),
    "C12": check_c12,
    "C13": check_c13,
    "C14": both(check_c14, more_c14),
    "C15": both(check_c15, more_c15),
    "C16": check_c16,
    "C17": both(check_c17, more_c17),
    "C18": both(check_c18, more_c18),
    "C19": check_c19,
    "C20": check_c20,
    "C21": both(check_c21, more_c21),
    "C22": both(check_c22, more_c22),
    "C23": both(check_c23, more_c23),
    "C24": check_c24,
    "C26": check_c26,
    "C27": check_c27,
    "C28": check_c28,
    "C30": check_c30,
    "C31": both(check_c31, more_c31),
    "C32": both(check_c32, more_c32),
    "C33": check_c33,
    "C34": check_c34,
}
