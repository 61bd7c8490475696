"""Loads the code under test from /repo/src, fresh, and nothing else.

Hypothesis has its own dependency on (a site-packages copy of) sortedcontainers.
It is imported first, so it keeps that copy; the copy is then evicted and the
package is imported from the repository.  No byte code is read or written.
"""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache-prefix'

HYPOTHESIS_ERROR = None
try:  # the Hypothesis engine is optional at run time, see engine.run_hypothesis
    import hypothesis  # noqa: F401
    import hypothesis.internal.conjecture.engine  # noqa: F401
    import hypothesis.internal.conjecture.pareto  # noqa: F401
    import hypothesis.internal.conjecture.providers  # noqa: F401
    import hypothesis.strategies  # noqa: F401
except Exception as exc:  # pragma: no cover
    HYPOTHESIS_ERROR = repr(exc)

REPO = os.environ.get('VT_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


def load():
    for name in [n for n in sys.modules if n.split('.')[0] == 'sortedcontainers']:
        del sys.modules[name]
    sys.path.insert(0, SRC)
    import sortedcontainers

    where = os.path.realpath(sortedcontainers.__file__)
    assert where.startswith(os.path.realpath(SRC) + os.sep), where
    return sortedcontainers


package = load()

SortedList = package.SortedList
SortedKeyList = package.SortedKeyList
SortedSet = package.SortedSet
SortedDict = package.SortedDict
SortedKeysView = package.SortedKeysView
SortedItemsView = package.SortedItemsView
SortedValuesView = package.SortedValuesView

DEFAULT_LOAD = SortedList.DEFAULT_LOAD_FACTOR
