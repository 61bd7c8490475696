"""atheris child: python fuzz_target.py PROPERTY OUT.json [libFuzzer flags]"""
import hashlib
import json
import os
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import atheris  # noqa: E402

from vt import sut  # noqa: E402


def main():
    pid, out = sys.argv[1], sys.argv[2]
    argv = [sys.argv[0]] + sys.argv[3:]
    with atheris.instrument_imports(include=['sortedcontainers']):
        pkg = sut.load()
    for name in (
        'SortedList SortedKeyList SortedSet SortedDict SortedKeysView SortedItemsView SortedValuesView'
    ).split():
        setattr(sut, name, getattr(pkg, name))
    sut.package = pkg
    from vt import engine
    import props.all  # noqa: F401

    prop = engine.REGISTRY[pid]
    tally = engine.Tally()

    def dump(failure=None):
        with open(out, 'w') as f:
            json.dump(
                {
                    'evaluations': tally.evaluations, 'choices': tally.choices, 'tags': tally.tags,
                    'keys': [k.hex() for k in tally.keys], 'failure': failure,
                }, f,
            )

    signal.signal(signal.SIGVTALRM, engine._on_alarm)

    def one(data):
        case, why = engine.run_case(prop, engine.ByteSource(data), small=False)
        tally.absorb(case)
        if why is not None:
            dump((list(case.tape), why))
            os._exit(77)
        if tally.evaluations % 500 == 0:
            dump()

    atheris.Setup(argv, one)
    import atexit

    atexit.register(dump)
    atheris.Fuzz()


main()
