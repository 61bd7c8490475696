from . import cross, dicts, faults, lists, proto, reent, renew, resource, scale, sets  # noqa: F401
