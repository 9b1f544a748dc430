"""Which virtual socket belongs to which session (private attributes of the session are not used)."""
import weakref

_weak = weakref.WeakKeyDictionary()
_strong = {}


def register(sess, fd):
    try:
        _weak[sess] = fd
    except TypeError:  # no weak references to it
        _strong[id(sess)] = sess, fd


def fd_of(sess):
    return _strong[id(sess)][1] if id(sess) in _strong else _weak[sess]
