"""Which findings, in which modules, break which property."""
from .spec import MODULES

UNI = ["utf8", "utf16_be", "utf16_le", "utf32_be", "utf32_le"]
SB = [m for m in MODULES if m.startswith("single_byte::")]
MB = ["utf8", "utf16_be", "utf16_le", "utf32_be", "utf32_le", "big5_whatwg", "shiftjis_whatwg"]
TAB = SB + ["big5_whatwg", "shiftjis_whatwg"]

CRASH = {"PANIC", "UNSAFE"}
MATCH = {"WRITTEN", "STALE", "CONSUMED", "PARTIAL", "VALUE", "ERR_WRITTEN", "ERR_STALE", "INC_OUTPUT", "ACCEPTED"}
WHEN = {"MISSED_ERROR", "ACCEPTED", "SPURIOUS_ERROR", "EARLY_ERROR"}
INFO = {"ERR_RANGE", "INC_RANGE", "ERR_CHAR", "ERR_CAUSE", "ERR_WRITTEN", "ERR_STALE"}
STOPS = {"PREMATURE_STOP", "DROPPED_INCOMPLETE"}
ALL = CRASH | MATCH | WHEN | INFO | STOPS | {"TERM"}


def fns(mods, *dirs):
    return [(m, d) for m in mods for d in dirs]


# id -> (functions, predicate(kind, tags, direction, module))
def k(*sets):
    s = set().union(*sets)
    return lambda kind, tags, d, m: kind in s


def c02(kind, tags, d, m):
    if kind == "UNSAFE":
        return True
    if d != "dec":
        return False
    return kind in ("PARTIAL", "STALE", "ERR_STALE") or "notutf8" in tags


def c07(kind, tags, d, m):
    if kind in ("DROPPED_INCOMPLETE", "INC_OUTPUT", "EARLY_ERROR", "INC_RANGE", "PREMATURE_STOP", "MISSED_ERROR") or kind in CRASH:
        return True
    if kind == "ERR_CAUSE":
        return "inc" in tags
    # an encoder with a final flag must not treat a pending pair as an error
    return kind in ("SPURIOUS_ERROR", "VALUE", "CONSUMED") and d == "enc"


def c19(kind, tags, d, m):
    return "ascii" in tags and kind in ("VALUE", "ACCEPTED", "SPURIOUS_ERROR", "PREMATURE_STOP", "PARTIAL", "STALE",
                                        "EARLY_ERROR", "PANIC", "UNSAFE", "WRITTEN", "CONSUMED",
                                        "TERM", "ERR_RANGE")


def c23(kind, tags, d, m):
    return kind in ALL and kind not in ("ERR_CAUSE", "ERR_CHAR", "TERM")


def c24(kind, tags, d, m):
    if d == "enc":
        if kind == "VALUE":
            return "rt" in tags
        if kind == "SPURIOUS_ERROR":
            return "known" in tags
        return kind in ("ACCEPTED", "CONSUMED", "WRITTEN", "STALE", "PARTIAL", "INC_OUTPUT")
    return "image" in tags and kind in ("VALUE", "SPURIOUS_ERROR", "CONSUMED", "WRITTEN", "STALE", "PARTIAL",
                                        "EARLY_ERROR", "INC_OUTPUT", "PANIC", "UNSAFE")


PROPS = {
    "C01": (fns(MODULES, "enc", "dec"), k({"PANIC"})),
    "C02": (fns(MODULES, "enc", "dec"), c02),
    "C03": (fns(MODULES, "enc", "dec"), k({"TERM", "MISSED_ERROR"}, STOPS)),
    "C04": (fns(MODULES, "enc"), k(MATCH, CRASH)),
    "C05": (fns(MODULES, "dec"), k(MATCH, CRASH)),
    "C06": (fns(MODULES, "enc", "dec"), k({"PARTIAL", "PREMATURE_STOP", "CONSUMED", "WRITTEN", "STALE"}, CRASH)),
    "C07": (fns(MB, "dec") + [("big5_whatwg", "enc")], c07),
    "C08": (fns(MODULES, "enc"), k(WHEN, INFO, CRASH, {"FULL_ERROR"})),
    "C09": (fns(MODULES, "dec"), k(WHEN, INFO, CRASH, {"DROPPED_INCOMPLETE", "FULL_ERROR"})),
    "C10": (fns(["utf8"], "enc", "dec"), k(ALL)),
    "C11": (fns(["utf16_be", "utf16_le"], "enc", "dec"), k(ALL)),
    "C12": (fns(["utf32_be", "utf32_le"], "enc", "dec"), k(ALL)),
    "C13": (fns(SB, "dec"), k(ALL)),
    "C14": (fns(SB, "enc"), k(ALL)),
    "C15": (fns(["big5_whatwg"], "dec"), k(ALL)),
    "C16": (fns(["big5_whatwg"], "enc"), k(ALL)),
    "C17": (fns(["shiftjis_whatwg"], "dec"), k(ALL)),
    "C18": (fns(["shiftjis_whatwg"], "enc"), k(ALL)),
    "C19": (fns(["utf8"] + TAB, "enc", "dec"), c19),
    "C20": (fns(MODULES, "enc", "dec"), lambda kind, tags, d, m: kind in ("STALE", "ERR_STALE") or "stale" in tags),
    "C21": (fns(MODULES, "enc", "dec"), k(ALL)),
    "C23": (fns(MODULES, "enc", "dec"), c23),
    "C24": (fns(MODULES, "enc", "dec"), c24),
}
