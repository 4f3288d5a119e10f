"""D01/D02/K01: dataclass conversion helpers and decorator unwrapping."""

import collections.abc
import dataclasses
import functools
import itertools
import types
import typing
from typing import Any, Optional, Union

from mc import core


# ---------------------------------------------------------------- D01
def run_d01(ctx):
  core.setup_imports()
  from koladata.base.py_conversions import dataclasses_util as du
  names = ['x', 'y', 'z']
  vals = [None, 0, 1, 'a', [1], float('inf')]
  n = 0
  classes = {}
  for k in range(0, 4):
    for attrs in itertools.permutations(names, k):
      c = du.make_dataclass('Obj', list(attrs))
      classes[attrs] = c
      if [f.name for f in dataclasses.fields(c)] != list(attrs) or c.__name__ != 'Obj':
        ctx.violation('fields', f'make_dataclass{attrs}: fields {[f.name for f in dataclasses.fields(c)]}')
      d = c()
      if any(getattr(d, a) is not None for a in attrs):
        ctx.violation('default', f'make_dataclass{attrs}(): defaults are not None')

  @dataclasses.dataclass
  class User:
    x: Any = None
    y: Any = None

  @dataclasses.dataclass(frozen=True)
  class Frozen:
    x: Any = None
    y: Any = None

  @dataclasses.dataclass(slots=True)
  class Slots:
    x: Any = None
    y: Any = None

  @dataclasses.dataclass(kw_only=True)
  class KwOnly:
    x: Any = None

  @dataclasses.dataclass
  class Parent:
    x: Any = None

  @dataclasses.dataclass
  class Grown(Parent):
    y: Any = 1
    ignored: typing.ClassVar[int] = 3

  @dataclasses.dataclass(eq=False)
  class NoEq:
    x: Any = None

  @dataclasses.dataclass(eq=False)
  class Never:
    x: Any = None

    def __eq__(self, other):
      return NotImplemented

    __hash__ = None

  objs = []
  for attrs, c in classes.items():
    if len(attrs) > 2:
      continue
    for v in itertools.product([None, 1, 'a'], repeat=len(attrs)):
      objs.append((c(*v), dict(zip(attrs, v)), 'gen'))
      kw = c(**dict(zip(attrs, v)))
      if du.fields_names_and_values(kw) != list(zip(attrs, v)):
        ctx.violation('kw', f'{attrs} {v}: {du.fields_names_and_values(kw)}')
  for v in itertools.product([None, 1, 'a'], repeat=2):
    objs.append((User(*v), dict(zip('xy', v)), 'user'))
    objs.append((Frozen(*v), dict(zip('xy', v)), 'frozen'))
  inner = classes[('x',)]
  for v in (None, 1):
    objs.append((inner(inner(v)), {'x': {'x': v}}, 'gen'))
    objs.append((inner([inner(v)]), {'x': [{'x': v}]}, 'gen'))
    objs.append((User(inner(v), None), {'x': {'x': v}, 'y': None}, 'user'))
    objs.append((inner({'k': inner(v)}), {'x': {'k': {'x': v}}}, 'gen'))
  # Attributes that are not fields do not count; deleted fields fall back to the
  # default; fields may be assigned later; other shapes of user classes.
  for v in (None, 1, 'a'):
    o = inner(v)
    o.note = 'not a field'
    objs.append((o, {'x': v}, 'gen'))
    o = inner('later')
    o.x = v
    objs.append((o, {'x': v}, 'gen'))
    o = User(v, None)
    o.note = 1
    objs.append((o, {'x': v, 'y': None}, 'user'))
    objs.append((Slots(v, 1), {'x': v, 'y': 1}, 'slots'))
    objs.append((KwOnly(x=v), {'x': v}, 'kwonly'))
    objs.append((Grown(v), {'x': v, 'y': 1}, 'inherited'))
    objs.append((NoEq(v), {'x': v}, 'noeq'))
    objs.append((Never(v), {'x': v}, 'never-first'))
    o = inner(None)
    o.y = 1
    objs.append((o, {'x': None}, 'gen'))
  o = classes[('x', 'y')](1, 'a')
  del o.y
  objs.append((o, {'x': 1, 'y': None}, 'gen'))
  other_inner = du.make_dataclass('Other', ['x'])
  objs.append((other_inner(1), {'x': 1}, 'gen'))
  sub = type('Sub', (inner,), {})
  objs.append((sub(1), {'x': 1}, 'gen'))
  objs.append((1, None, 'other'))
  objs.append((None, None, 'other'))
  objs.append(({'x': 1}, None, 'other'))
  objs.append((types.SimpleNamespace(x=1), None, 'other'))
  objs.append((inner, None, 'other'))
  objs.append((User, None, 'other'))
  for (a, da, ka), (b, db, kb) in itertools.product(objs, repeat=2):
    if 'gen' not in (ka, kb):
      continue
    n += 1
    want = da is not None and db is not None and da == db
    for what, f in (('==', lambda: (a == b) is want), ('!=', lambda: (a != b) is (not want))):
      try:
        ok = f()
      except Exception as e:
        ok = f'raised {e!r}'
      if ok is not True:
        ctx.violation('eq:' + kb + ('-type' if isinstance(b, type) or isinstance(a, type) else ''),
                      f'{a!r} {what} {b!r}: {ok if ok is not False else "wrong"} (expected equal={want})',
                      {'a': repr(a), 'b': repr(b)})
    ctx.outcome((ka, kb, want))
  # fields_names_and_values
  for k in range(0, 4):
    for attrs in itertools.permutations(names, k):
      for v in itertools.product(vals[:4], repeat=k):
        n += 1
        want = list(zip(attrs, v))
        ns = types.SimpleNamespace(**dict(want))
        o = classes[attrs](*v)
        for x in (ns, o):
          got = du.fields_names_and_values(x)
          if got != want:
            ctx.violation('fnv', f'fields_names_and_values({x!r}) = {got!r}, expected {want!r}')
  class Plain:
    x = 1
  for x in (1, None, 'a', [1], {'a': 1}, Plain(), (1,), object()):
    if du.fields_names_and_values(x) is not None:
      ctx.violation('fnv-none', f'fields_names_and_values({x!r}) is not None')
  # Insertion order and deletion on SimpleNamespace; the result is a snapshot.
  ns = types.SimpleNamespace(b=1, a=2)
  got = du.fields_names_and_values(ns)
  ns.c = 3
  if got != [('b', 1), ('a', 2)]:
    ctx.violation('fnv-order', f'{got}')
  @dataclasses.dataclass
  class Base:
    p: int = 1
    q: int = 2
  @dataclasses.dataclass
  class Derived(Base):
    r: int = 3
    p: int = 4
    s: typing.ClassVar[int] = 5
  if du.fields_names_and_values(Derived()) != [('p', 4), ('q', 2), ('r', 3)]:
    ctx.violation('fnv-inherit', f'{du.fields_names_and_values(Derived())}')
  for bad in (['x', 'x'], [''], ['1a'], ['class']):
    try:
      du.make_dataclass('Obj', bad)
      ctx.violation('bad-names', f'make_dataclass accepts {bad}')
    except (TypeError, ValueError):
      pass
  ctx.states = n
  ctx.transitions = n
  ctx.traces = n
  ctx.sample(repr(objs[5][0]))


# ---------------------------------------------------------------- D02
@dataclasses.dataclass
class DC:
  a: int


ERR = 'ERR'


def spec_decay(t):
  """The documented contract, written on a syntactic description of types."""
  kind, py, *rest = t
  if kind == 'any':
    return (None, True)
  if kind != 'union':
    return (py, False)
  members = rest[0]
  if len(members) != 2:
    return ERR
  non_none = [m for m in members if m[0] != 'none']
  if len(non_none) != 1:
    return ERR
  if non_none[0][0] == 'any':
    return (None, True)
  return (non_none[0][1], True)


def base_types():
  return [
      ('prim', int), ('prim', str), ('any', Any), ('dc', DC), ('ns', types.SimpleNamespace),
      ('gen', list[int]), ('gen', list[DC]), ('gen', dict[str, DC]), ('gen', tuple[int, ...]),
      ('typing', typing.List[int]), ('none', type(None)),
  ]


def all_types():
  base = base_types()
  out = list(base)
  none = ('none', type(None))
  for b in base:
    if b[0] == 'none':
      continue
    out.append(('union', Optional[b[1]], [b, none]))
    if b[0] != 'any':
      out.append(('union', b[1] | None, [b, none]))
      out.append(('union', None | b[1], [none, b]))
    out.append(('union', Union[None, b[1]], [none, b]))
  for b, c in itertools.combinations([x for x in base if x[0] not in ('none',)], 2):
    out.append(('union', Union[b[1], c[1]], [b, c]))
    out.append(('union', Union[b[1], c[1], None], [b, c, none]))
    out.append(('union', Union[None, c[1], b[1]], [none, c, b]))
  return out


def run_d02(ctx):
  core.setup_imports()
  from koladata.base.py_conversions import dataclasses_util as du
  ts = all_types()
  n = 0

  def call(f):
    try:
      return f()
    except ValueError:
      return ERR

  def same(g, w):
    if w is ERR or g is ERR or w is None or g is None:
      return g is w
    return type(g) is tuple and len(g) == 2 and (g[0] is w[0] or g[0] == w[0]) and g[1] is w[1]

  for t in ts:
    n += 1
    got, want = call(lambda: du.maybe_decay_optional(t[1])), spec_decay(t)
    ctx.outcome(repr(want))
    if not same(got, want):
      ctx.violation('decay', f'maybe_decay_optional({t[1]}) = {got!r}, expected {want!r}', {'type': repr(t[1])})

  def spec_field(t, for_primitive):
    kind, py = t[0], t[1]
    if kind == 'any':
      return (None, True)
    if kind == 'dc':
      return (py, False)
    d = spec_decay(t)
    if d is ERR:
      return ERR
    if d[1]:
      return d
    if kind in ('gen', 'ns'):
      return (py, False)
    if for_primitive:
      return (py, False)
    return ERR

  shared_cache = {}
  holders = []
  for i, t in enumerate(ts):
    # Same class name on purpose: caches must be keyed by the class itself.
    holders.append((t, dataclasses.make_dataclass('H', [('f', t[1]), ('g', int)])))
  for rnd in range(2):  # the second round is served by the cache
    order = holders if rnd == 0 else list(reversed(holders))
    for t, h in order:
      for fp in (False, True):
        for cache in (shared_cache, {}):
          n += 1
          # A field annotated with None is a field of type NoneType.
          want = spec_field(t, fp)
          got = call(lambda: du.get_class_field_type(h, 'f', fp, cache))
          if not same(got, want):
            ctx.violation('field', f'field of type {t[1]} for_primitive={fp}: {got!r}, expected {want!r}', {'type': repr(t[1]), 'for_primitive': fp})
          got = call(lambda: du.get_class_field_type(h, 'nope', fp, cache))
          if got is not None:
            ctx.violation('absent', f'absent field: {got!r}')
          got = call(lambda: du.get_class_field_type(h, 'g', True, cache))
          if got != (int, False):
            ctx.violation('other-field', f'{got!r}')
  # Inherited, overridden and string annotations.
  for t, h in holders:
    @dataclasses.dataclass
    class Sub(h):
      g: str = ''
      extra: Any = None

    @dataclasses.dataclass
    class Text:
      f: 'Optional[int]' = None
      g: 'int' = 0
      h: 'list[DC]' = None
      d: 'DC' = None
      u: 'DC | None' = None
      bad: 'int | str' = 0

    for fp in (False, True):
      for cache in (shared_cache, {}):
        for c, a, want in [(Sub, 'f', spec_field(t, fp)), (Sub, 'extra', (None, True)),
                           (Sub, 'g', (str, False) if fp else ERR),
                           (Text, 'f', (int, True)), (Text, 'g', (int, False) if fp else ERR),
                           (Text, 'h', (list[DC], False)), (Text, 'd', (DC, False)),
                           (Text, 'u', (DC, True)), (Text, 'bad', ERR), (Text, 'zz', None)]:
          n += 1
          got = call(lambda: du.get_class_field_type(c, a, fp, cache))
          if not same(got, want):
            ctx.violation('derived:' + a, f'{c.__name__}.{a} (base field {t[1]}) for_primitive={fp}: {got!r}, expected {want!r}', {'type': repr(t[1])})
  for t in ts:
    want = spec_decay(t)
    py = t[1]
    for fp in (False, True):
      for holder, attr, w in [
          (list[py], '__items__', want), (tuple[py, ...], '__items__', want),
          (collections.abc.Sequence[py], '__items__', want),
          (typing.List[py], '__items__', want),
          (tuple[py, py], '__items__', ERR), (tuple[py], '__items__', ERR),
          (dict[py, int], '__keys__', want), (dict[int, py], '__values__', want),
          (dict[int, py], '__keys__', (int, False)), (dict[py, int], '__values__', (int, False)),
          (collections.abc.Mapping[int, py], '__values__', want),
          (collections.abc.Mapping[py, int], '__keys__', want),
          (dict[py, int], '__items__', ERR),
          (list[py], '__keys__', ERR), (list[py], '__values__', ERR),
          (set[py], '__items__', ERR), (list[py], 'zz', ERR),
      ]:
        n += 1
        got = call(lambda: du.get_class_field_type(holder, attr, fp, {}))
        if not same(got, w):
          ctx.violation('container:' + attr, f'{holder} {attr} for_primitive={fp}: {got!r}, expected {w!r}', {'holder': repr(holder)})
  for attr in ('a', '__items__', '__keys__'):
    for fp in (False, True):
      n += 1
      if du.get_class_field_type(None, attr, fp, {}) != (None, True):
        ctx.violation('none', 'no class: expected (None, True)')
      w = (None, True) if fp else (types.SimpleNamespace, True)
      if du.get_class_field_type(types.SimpleNamespace, attr, fp, {}) != w:
        ctx.violation('ns', f'SimpleNamespace for_primitive={fp}')
      for bad in (int, str, list, dict, object):
        if call(lambda: du.get_class_field_type(bad, attr, fp, {})) is not ERR:
          ctx.violation('bad', f'{bad} accepted')
  ctx.states = n
  ctx.transitions = n
  ctx.traces = n
  ctx.sample([repr(t[1]) for t in ts[10:16]])


# ---------------------------------------------------------------- K01
def run_k01(ctx):
  core.setup_imports()
  from koladata.util import kd_functools
  import signal

  class CallableObj:
    def __call__(self):
      pass

  class Unhashable(CallableObj):
    def __eq__(self, other):
      return isinstance(other, Unhashable)

  class EqualHashable(CallableObj):
    def __eq__(self, other):
      return isinstance(other, EqualHashable)

    def __hash__(self):
      return 7

  class Host:
    def method(self):
      pass

    @classmethod
    def cmethod(cls):
      pass

  def leaf(kind):
    """Callables that can be wrapped but carry no link themselves."""
    return {'bound': lambda: Host().method, 'cmethod': lambda: Host.cmethod,
            'builtin': lambda: len, 'bound-builtin': lambda: [].append,
            'class': lambda: type('T', (), {}), 'partial': lambda: functools.partial(len, 'a'),
            'partial-bound': lambda: functools.partial(Host().method),
            'lambda': lambda: lambda: None, 'slot': lambda: (1).__add__,
            'bound-call': lambda: CallableObj().__call__}[kind]()

  def make(kind):
    if kind == 'partial':
      return functools.partial(lambda: None)
    if kind == 'partial-wrapping':
      # The wrapped function of a partial is not a link.
      def f():
        pass
      f.__wrapped__ = len
      return functools.partial(f)
    if kind == 'class':
      return type('T', (), {})
    if kind == 'unhashable':
      return Unhashable()
    if kind == 'equal':
      return EqualHashable()
    if kind == 'fn':
      def f():
        pass
      return f
    if kind == 'obj':
      return CallableObj()
    return functools.lru_cache()(lambda: None)

  n = 0

  def alarm(*a):
    raise TimeoutError()

  signal.signal(signal.SIGALRM, alarm)
  # Chains of every length 0..3 of every kind of wrapper around every kind of leaf.
  kinds = ('fn', 'obj', 'unhashable', 'equal', 'partial', 'partial-wrapping', 'class')
  for lk in ('bound', 'cmethod', 'builtin', 'bound-builtin', 'class', 'partial', 'partial-bound', 'lambda', 'slot', 'bound-call'):
    for depth in range(0, 3 if ctx.quick else 4):
      for ks in itertools.product(kinds, repeat=depth):
        n += 1
        end = leaf(lk)
        cur = end
        chain = [end]
        for k in ks:
          w = make(k)
          w.__wrapped__ = cur
          cur = w
          chain.append(w)
        before = [dict(getattr(c, '__dict__', {})) for c in chain]
        got = kd_functools.unwrap(cur)
        if got is not end:
          ctx.violation('leaf:' + lk, f'unwrap of wrappers {ks} around a {lk} gives {got!r}, expected {end!r}', {'wrappers': ks, 'leaf': lk})
        if [dict(getattr(c, '__dict__', {})) for c in chain] != before:
          ctx.violation('mutates', f'unwrap modified the functions of {ks} around {lk}')
        ctx.transitions += depth + 1
  size = 4 if ctx.quick else 5
  for k in range(1, size + 1):
    # every function graph: node i wraps node g[i], or nothing (k), or a
    # non-callable (k+1)
    for g in itertools.product(range(k + 2), repeat=k):
      for kind in ('fn', 'obj', 'lru', 'unhashable', 'equal', 'partial', 'class') if k <= 3 else ('fn',):
        n += 1
        nodes = [make(kind) for _ in range(k)]
        for i, j in enumerate(g):
          if j < k:
            nodes[i].__wrapped__ = nodes[j]
          elif j == k + 1:
            nodes[i].__wrapped__ = 'not callable'
          elif hasattr(nodes[i], '__wrapped__'):
            del nodes[i].__wrapped__
        # model
        cur, seen = 0, []
        while cur not in seen and g[cur] < k:
          seen.append(cur)
          cur = g[cur]
        cyc = cur in seen
        signal.setitimer(signal.ITIMER_REAL, 5)
        try:
          got = kd_functools.unwrap(nodes[0])
        except TimeoutError:
          ctx.violation('hang', f'unwrap does not terminate on wrap graph {g}', {'graph': g})
          continue
        finally:
          signal.setitimer(signal.ITIMER_REAL, 0)
        for i, j in enumerate(g):
          w = nodes[j] if j < k else ('not callable' if j == k + 1 else None)
          if getattr(nodes[i], '__wrapped__', None) is not w:
            ctx.violation('mutates', f'unwrap modified the functions of {g}', {'graph': g})
        ctx.transitions += len(seen) + 1
        ctx.outcome((cyc, len(seen)))
        if not cyc and got is not nodes[cur]:
          ctx.violation('inner', f'unwrap on chain {g} does not return the innermost function', {'graph': g})
        if cyc and not any(got is nodes[c] for c in seen[seen.index(cur):]):
          ctx.violation('cycle', f'unwrap on {g} returns something outside the cycle', {'graph': g})
  ctx.states = n
  ctx.traces = n
  ctx.sample({'graph': [1, 2, 1]})
