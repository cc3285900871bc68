"""property id -> (check, level)"""
REGISTRY = {}


def check(pid, level="other"):
    def d(f):
        REGISTRY[pid] = (f, level)
        return f

    return d


from . import check_parser, check_printer, check_cmd, check_structures, check_macros, check_attrs  # noqa: E402,F401
