"""Canonical, lock-free dump of an object's internal state (for state dedup)."""
import threading

_LOCKS = (type(threading.Lock()), type(threading.RLock()))


def canon(x, depth=8):
  if depth <= 0:
    return '...'
  if x is None or isinstance(x, (bool, int, float, str, bytes)):
    return (type(x).__name__, x)
  if isinstance(x, _LOCKS) or type(x).__name__ in ('CRLock', 'Condition', 'Event', 'Semaphore'):
    return 'LOCK'
  if isinstance(x, dict):  # order matters: insertion order is observable
    return ('dict', tuple((canon(k, depth - 1), canon(v, depth - 1)) for k, v in x.items()))
  if isinstance(x, (list, tuple)) or type(x).__name__ == 'deque':
    return (type(x).__name__, tuple(canon(v, depth - 1) for v in x))
  if isinstance(x, (set, frozenset)):
    return ('set', tuple(sorted(map(repr, (canon(v, depth - 1) for v in x)))))
  if callable(x) and not hasattr(x, '__dict__'):
    return ('callable', getattr(x, '__qualname__', '?'))
  d = getattr(x, '__dict__', None)
  s = getattr(type(x), '__slots__', None)
  if d is not None:
    return (type(x).__name__, tuple((k, canon(v, depth - 1)) for k, v in sorted(d.items())))
  if s:
    if isinstance(s, str):
      s = (s,)
    return (type(x).__name__, tuple((k, canon(getattr(x, k, None), depth - 1)) for k in s))
  return (type(x).__name__,)
