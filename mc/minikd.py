"""A small pure-python stand-in for `koladata.kd`.

The real kd needs the C++ extension and arolla, neither of which can be built
here.  koladata.ext.storage is written against the public kd API only; this
module models the part of that API it relies on: data slices over immutable
bags of (item, attribute) -> value, list and dict contents, and schemas that
are themselves stored in bags.  It is validated by running koladata's own
storage tests on top of it (tools/validate_minikd.py).

Anything that is not modelled raises core.ShimGap, which makes a check answer
"cannot decide" instead of blaming the code under test.
"""

import base64
import hashlib
import io
import itertools
import pickle
import sys
import types as pytypes
from typing import NamedTuple

from mc import core


class _Removed:

  def __repr__(self):
    return 'REMOVED'

  def __reduce__(self):
    return 'REMOVED'


REMOVED = _Removed()
_NOTHING = object()


class V(NamedTuple):
  """A primitive value."""
  dtype: str
  val: object


class DType(NamedTuple):
  """A schema without an item id."""
  name: str


class ItemId(NamedTuple):
  kind: str  # entity, list, dict, schema
  uid: str


_PRIMITIVES = ('INT32', 'INT64', 'FLOAT32', 'FLOAT64', 'STRING', 'BYTES',
               'BOOLEAN', 'MASK', 'EXPR')
_NUMERIC = ('INT32', 'INT64', 'FLOAT32', 'FLOAT64')
_counter = itertools.count(1)


def reset_ids(start=1):
  global _counter
  _counter = itertools.count(start)


def _alloc(kind):
  return ItemId(kind, f'n{next(_counter)}')


def _uu(kind, *parts):
  return ItemId(kind, 'u' + hashlib.sha1(repr(parts).encode()).hexdigest()[:16])


MASK_PRESENT = V('MASK', True)


# -- bags ---------------------------------------------------------------------
class DataBag:
  """attrs: item -> attr -> value; lists: item -> tuple; dicts: item -> map."""

  def __init__(self, attrs=None, lists=None, dicts=None, mutable=False):
    self._a = attrs if attrs is not None else {}
    self._l = lists if lists is not None else {}
    self._d = dicts if dicts is not None else {}
    self._mutable = mutable

  # internal
  def _attr(self, item, name):
    d = self._a.get(item)
    if d is None:
      return _NOTHING
    return d.get(name, _NOTHING)

  def _set(self, item, name, v):
    self._a.setdefault(item, {})[name] = v

  def _copy(self, mutable=False):
    return DataBag({k: dict(v) for k, v in self._a.items()}, dict(self._l),
                   {k: dict(v) for k, v in self._d.items()}, mutable)

  def _content(self):
    return ({k: v for k, v in self._a.items() if v}, self._l,
            {k: v for k, v in self._d.items()})

  def _is_empty(self):
    return not any(self._a.values()) and not self._l and not self._d

  # public
  def merge_fallbacks(self):
    return self._copy()

  def get_approx_byte_size(self):
    n = 0
    for v in self._a.values():
      n += 16 * len(v)
    for v in self._l.values():
      n += 16 + 16 * len(v)
    for v in self._d.values():
      n += 16 + 32 * len(v)
    return n

  def is_mutable(self):
    return self._mutable

  def freeze(self):
    return self._copy()

  def fork(self, mutable=True):
    return self._copy(mutable)

  def get_fallbacks(self):
    return []

  def get_size(self):
    return sum(map(len, self._a.values())) + sum(map(len, self._l.values())) + sum(
        map(len, self._d.values()))

  def dict(self, items_or_keys=None, values=None, *, key_schema=None,
           value_schema=None, schema=None, itemid=None):
    assert self._mutable
    r = dict_(items_or_keys if items_or_keys is not None else {}, values,
              key_schema=key_schema, value_schema=value_schema, schema=schema,
              itemid=itemid)
    _merge_into(self, r._bag, override=True)
    return r.with_bag(self)

  def list(self, items=None, **kw):
    assert self._mutable
    r = list_(items, **kw)
    _merge_into(self, r._bag, override=True)
    return r.with_bag(self)

  def new(self, *args, **kw):
    assert self._mutable
    r = new(*args, **kw)
    _merge_into(self, r._bag, override=True)
    return r.with_bag(self)

  def __eq__(self, other):
    raise core.ShimGap('DataBag ==')

  __hash__ = object.__hash__

  def __lshift__(self, other):
    return updated_bags(self, other)

  def __rshift__(self, other):
    return updated_bags(other, self)

  def __repr__(self):
    return f'DataBag({self._a}, {self._l}, {self._d})'

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise core.ShimGap('DataBag.' + name)


def _merge_into(dst, src, override):
  for item, attrs in src._a.items():
    d = dst._a.setdefault(item, {})
    for k, v in attrs.items():
      if override or k not in d:
        d[k] = v
  for item, vals in src._l.items():
    if override or item not in dst._l:
      dst._l[item] = vals
  for item, m in src._d.items():
    d = dst._d.setdefault(item, {})
    for k, v in m.items():
      if override or k not in d:
        d[k] = v


def updated_bags(*bags):
  """Later bags win."""
  r = DataBag()
  for b in bags:
    if not isinstance(b, DataBag):
      raise ValueError(f'expected a DataBag, got {b!r}')
    _merge_into(r, b, override=True)
  return r


def enriched_bags(*bags):
  """Earlier bags win."""
  r = DataBag()
  for b in bags:
    if not isinstance(b, DataBag):
      raise ValueError(f'expected a DataBag, got {b!r}')
    _merge_into(r, b, override=False)
  return r


def _union(*bags):
  bags = [b for b in bags if b is not None]
  if not bags:
    return None
  if all(b is bags[0] for b in bags):
    return bags[0]
  return enriched_bags(*bags)


# -- nested helpers -----------------------------------------------------------
def _map(f, nd, *xs):
  if nd == 0:
    return f(*xs)
  return [_map(f, nd - 1, *ys) for ys in zip(*xs, strict=True)]


def _flat(x, nd):
  if nd == 0:
    yield x
  else:
    for y in x:
      yield from _flat(y, nd - 1)


def _shape_of(x, nd):
  return _map(lambda _: None, nd, x)


class JaggedShape:

  def __init__(self, nest, nd):
    self._nest, self._nd = nest, nd

  def __eq__(self, o):
    return isinstance(o, JaggedShape) and self._nd == o._nd and self._nest == o._nest

  def __hash__(self):
    return hash(repr(self._nest))

  def rank(self):
    return self._nd

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise core.ShimGap('JaggedShape.' + name)


def _broadcast(x, nd, shape, snd):
  """Expands x (ndim nd) to shape (ndim snd)."""
  if nd > snd:
    raise ValueError(f'cannot expand from rank {nd} to rank {snd}')
  if nd == 0:
    return _map(lambda _: x, snd, shape)
  if len(x) != len(shape):
    raise ValueError('incompatible shapes')
  return [_broadcast(a, nd - 1, b, snd - 1) for a, b in zip(x, shape)]


def _align(*dss):
  best = max(dss, key=lambda d: d._nd)
  shape = _shape_of(best._v, best._nd)
  return shape, best._nd, [_broadcast(d._v, d._nd, shape, best._nd) for d in dss]


# -- slices -------------------------------------------------------------------
# Public names of the real DataSlice that are not modelled: using one of them is
# a gap of this stand-in, not an attribute access.
_REAL_NAMES = frozenset('''get_attr_names reshape reshape_as flatten_end select
 select_present select_items select_keys list_size dict_size
 get_present_keys with_dict_update with_list_append_update follow clone
 shallow_clone deep_clone clone_as_full deep_uuid fork_bag with_merged_bag
 with_name ref get_dtype with_schema_from_obj get_present_count strict_with_attrs
 take display get_sizes pipe append clear pop set_attr set_attrs
 set_schema set_name_and_default internal_as_arolla_value internal_as_dense_array
 embed_schema get_text_repr is_mutable has_bag get_attr_with_default
 internal_register_reserved_class_method_name internal_is_itemid_schema
 internal_is_any_schema select_values fingerprint qtype is_struct_schema_slice'''.split())


class DataSlice:

  def __init__(self, *a, **k):
    raise core.ShimGap('DataSlice()')

  @staticmethod
  def _make(v, nd, schema, bag):
    if nd:
      cls = DataSlice
    elif schema == DType('SCHEMA'):
      cls = SchemaItem
    elif isinstance(schema, ItemId) and bag is not None and _is_list_schema(schema, bag):
      cls = ListItem
    elif isinstance(schema, ItemId) and bag is not None and _is_dict_schema(schema, bag):
      cls = DictItem
    elif isinstance(v, ItemId) and v.kind == 'list' and schema == DType('OBJECT'):
      cls = ListItem
    elif isinstance(v, ItemId) and v.kind == 'dict' and schema == DType('OBJECT'):
      cls = DictItem
    else:
      cls = DataItem
    s = object.__new__(cls)
    s._v, s._nd, s._s, s._bag = v, nd, schema, bag
    return s

  # -- basic
  def _items(self):
    return list(_flat(self._v, self._nd))

  def _with(self, v=None, nd=None, schema=None, bag=_NOTHING):
    return DataSlice._make(self._v if v is None and nd is None else v,
                           self._nd if nd is None else nd,
                           self._s if schema is None else schema,
                           self._bag if bag is _NOTHING else bag)

  def _mapv(self, f, schema=None, bag=_NOTHING):
    return DataSlice._make(_map(f, self._nd, self._v), self._nd,
                           self._s if schema is None else schema,
                           self._bag if bag is _NOTHING else bag)

  def get_schema(self):
    if isinstance(self._s, DType):
      return _schema(self._s, None)
    return _schema(self._s, self._bag)

  def get_bag(self):
    return self._bag

  def has_bag(self):
    return _mask(self._bag is not None)

  def no_bag(self):
    return self._with(bag=None)

  def with_bag(self, bag):
    return self._with(bag=bag)

  def freeze_bag(self):
    return self if self._bag is None else self._with(bag=self._bag._copy())

  def with_schema(self, schema):
    schema = to_slice(schema)
    return DataSlice._make(self._v, self._nd, schema._v, _union(self._bag, schema._bag))

  def get_shape(self):
    return JaggedShape(_shape_of(self._v, self._nd), self._nd)

  def get_ndim(self):
    return to_slice(self._nd)

  def get_size(self):
    return to_slice(len(self._items()))

  def is_empty(self):
    return all(x is None for x in self._items())

  def flatten(self, from_dim=0, to_dim=None):
    if from_dim or to_dim is not None:
      raise core.ShimGap('flatten with dims')
    return DataSlice._make(self._items(), 1, self._s, self._bag)

  def expand_to(self, target, ndim=0):
    if ndim:
      raise core.ShimGap('expand_to ndim')
    target = to_slice(target)
    return expand_to_shape(self, target.get_shape())

  def repeat(self, n):
    return DataSlice._make(_map(lambda x: [x] * n, self._nd, self._v), self._nd + 1,
                           self._s, self._bag)

  @property
  def L(self):
    if not self._nd:
      raise ValueError('DataItem has no L')
    return [DataSlice._make(x, self._nd - 1, self._s, self._bag) for x in self._v]

  @property
  def S(self):
    return _Slicer(self)

  def enriched(self, *bags):
    return self._with(bag=enriched_bags(*([self._bag] if self._bag else []), *bags))

  def updated(self, *bags):
    return self._with(bag=updated_bags(*([self._bag] if self._bag else []), *bags))

  # -- schema predicates (as python truthy masks)
  def is_entity_schema(self):
    return self._all_schema(_is_entity_schema)

  def is_list_schema(self):
    return self._all_schema(_is_list_schema)

  def is_dict_schema(self):
    return self._all_schema(_is_dict_schema)

  def is_struct_schema(self):
    return self._all_schema(lambda s, b: isinstance(s, ItemId))

  def is_primitive_schema(self):
    return self._all_schema(lambda s, b: isinstance(s, DType) and s.name in _PRIMITIVES)

  def _all_schema(self, f):
    if self._nd:
      raise core.ShimGap('schema predicate on a slice')
    return _mask(self._s == DType('SCHEMA') and self._v is not None and f(self._v, self._bag))

  def is_primitive(self):
    return _mask(self._s != DType('SCHEMA') and all(
        x is None or isinstance(x, V) for x in self._items())
                 and (isinstance(self._s, DType) and self._s.name not in ('ITEMID',)))

  def is_list(self):
    return _mask(self._kind_is('list'))

  def is_dict(self):
    return _mask(self._kind_is('dict'))

  def is_entity(self):
    return _mask(self._kind_is('entity'))

  def _kind_is(self, kind):
    if isinstance(self._s, ItemId):
      return _schema_kind(self._s, self._bag) == kind
    if self._s == DType('OBJECT'):
      return all(x is None or isinstance(x, ItemId) and x.kind == kind for x in self._items())
    return False

  def is_item(self):
    return self._nd == 0

  def get_item_schema(self):
    return self._schema_attr('__items__')

  def get_key_schema(self):
    return self._schema_attr('__keys__')

  def get_value_schema(self):
    return self._schema_attr('__values__')

  def _schema_attr(self, name):
    if self._s != DType('SCHEMA') or self._nd:
      raise ValueError(f'expected a schema item with {name}')
    v = _schema_lookup(self._v, name, self._bag)
    if v is _NOTHING:
      raise ValueError(f'schema does not have {name}')
    return _schema(v, self._bag)

  def get_nofollowed_schema(self):
    raise core.ShimGap('get_nofollowed_schema')

  # -- ids
  def get_itemid(self):
    if isinstance(self._s, DType) and self._s.name not in ('ITEMID', 'SCHEMA', 'OBJECT', 'NONE'):
      raise ValueError('get_itemid: not allowed on primitives')
    for x in self._items():
      if x is not None and not isinstance(x, ItemId):
        raise ValueError('get_itemid: not allowed on primitives')
    return self._with(schema=DType('ITEMID'), bag=self._bag)

  # -- attributes
  def get_attr(self, name, default=_NOTHING):
    name = _pystr(name)
    if self._bag is None:
      if default is not _NOTHING:
        return _or_default(self._mapv(lambda x: None, DType('NONE')), default)
      raise ValueError(
          f'failed to get attribute {name!r}: the DataSlice has no DataBag')
    b = self._bag
    if self._s == DType('SCHEMA'):
      def one(s):
        if s is None:
          return None
        v = _schema_lookup(s, name, b)
        if v is _NOTHING:
          if default is _NOTHING:
            raise ValueError(f"the attribute '{name}' is missing on the schema")
          return None
        return v
      rs = _map(one, self._nd, self._v)
      sch = _META_ATTR_SCHEMAS.get(name, DType('SCHEMA'))
      r = DataSlice._make(rs, self._nd, sch, b)
      return r if default is _NOTHING else _or_default(r, default)
    if self._s == DType('OBJECT'):
      schemas = []

      def one(x):
        if x is None:
          return None
        if not isinstance(x, ItemId):
          raise ValueError('primitives do not have attributes')
        s = b._attr(x, '__schema__')
        if s is _NOTHING or s is REMOVED:
          raise ValueError('object schema is missing')
        if name == '__schema__':
          schemas.append(DType('SCHEMA'))
          return s
        a = _schema_lookup(s, name, b)
        if a is _NOTHING:
          if default is _NOTHING:
            raise ValueError(f"the attribute '{name}' is missing")
          return None
        schemas.append(a)
        return _val(b._attr(x, name))
      rs = _map(one, self._nd, self._v)
      r = DataSlice._make(rs, self._nd, _common(schemas), b)
      return r if default is _NOTHING else _or_default(r, default)
    if self._s == DType('NONE'):
      return self._mapv(lambda x: None, DType('NONE'))
    if not isinstance(self._s, ItemId):
      raise ValueError(f'{self._s.name} does not have attributes')
    if not _is_entity_schema(self._s, b):
      raise ValueError('lists and dicts do not have attributes')
    a = _schema_lookup(self._s, name, b)
    if a is _NOTHING:
      if default is not _NOTHING:
        return _or_default(self._mapv(lambda x: None, DType('NONE')), default)
      raise ValueError(
          f"failed to get attribute '{name}': the attribute is missing on the schema.\n")
    r = self._mapv(lambda x: None if x is None else _val(b._attr(x, name)), a)
    return r if default is _NOTHING else _or_default(r, default)

  def maybe(self, name):
    return self.get_attr(name, default=None)

  def has_attr(self, name):
    name = _pystr(name)
    b = self._bag
    if b is None:
      return self._mapv(lambda x: None, DType('MASK'), None)
    if self._s == DType('SCHEMA'):
      return self._mapv(
          lambda s: MASK_PRESENT if s is not None and isinstance(s, ItemId)
          and _schema_lookup(s, name, b) is not _NOTHING else None, DType('MASK'), None)
    if isinstance(self._s, ItemId):
      ok = _schema_lookup(self._s, name, b) is not _NOTHING
      return self._mapv(lambda x: MASK_PRESENT if ok and x is not None else None,
                        DType('MASK'), None)
    if self._s == DType('OBJECT'):
      def one(x):
        if not isinstance(x, ItemId):
          return None
        s = b._attr(x, '__schema__')
        return MASK_PRESENT if isinstance(s, ItemId) and _schema_lookup(
            s, name, b) is not _NOTHING else None
      return self._mapv(one, DType('MASK'), None)
    return self._mapv(lambda x: None, DType('MASK'), None)

  def __getattr__(self, name):
    if name.startswith('__') or name in ('_v', '_nd', '_s', '_bag'):
      raise AttributeError(name)
    if name in _REAL_NAMES:
      raise core.ShimGap('DataSlice.' + name)
    try:
      return self.get_attr(name)
    except ValueError as e:
      raise AttributeError(str(e)) from e

  def with_attrs(self, /, *, overwrite_schema=False, **kw):
    return self.updated(attrs(self, overwrite_schema=overwrite_schema, **kw))

  def with_attr(self, name, value, overwrite_schema=False):
    return self.with_attrs(overwrite_schema=overwrite_schema, **{_pystr(name): value})

  def new(self, /, *args, **kw):
    if self._s != DType('SCHEMA') or self._nd:
      raise ValueError('new() is only allowed on schemas')
    if _schema_kind(self._v, self._bag) == 'list':
      return list_(*args, schema=self)
    if _schema_kind(self._v, self._bag) == 'dict':
      return dict_(*args, schema=self)
    if not isinstance(self._v, ItemId):
      if self._v == DType('OBJECT'):
        return obj(*args, **kw)
      return to_slice(*args, schema=self)
    return new(schema=self, **kw)

  def get_attr_names(self, *, intersection=True):
    return dir_(self)

  # -- lists and dicts
  def explode(self, ndim=1):
    r = self
    for _ in range(ndim):
      r = r._explode1()
    return r

  def _elem_schema(self, which):
    b = self._bag
    if b is None:
      raise ValueError('the DataSlice has no DataBag')
    if isinstance(self._s, ItemId):
      v = _schema_lookup(self._s, which, b)
      if v is _NOTHING:
        raise ValueError('not a list or dict')
      return v
    if self._s == DType('OBJECT'):
      ss = []
      for x in self._items():
        if x is not None:
          s = b._attr(x, '__schema__')
          ss.append(_schema_lookup(s, which, b))
      return _common(ss)
    raise ValueError('not a list or dict')

  def _explode1(self):
    s = self._elem_schema('__items__')
    b = self._bag
    return DataSlice._make(
        _map(lambda x: [] if x is None else list(b._l.get(x, ())), self._nd, self._v),
        self._nd + 1, s, b)

  def _dict_entries(self, x):
    if x is None:
      return []
    es = [(k, v) for k, v in self._bag._d.get(x, {}).items()]
    return sorted(es, key=lambda kv: repr(kv[0]))

  def get_keys(self):
    s = self._elem_schema('__keys__')
    return DataSlice._make(
        _map(lambda x: [k for k, v in self._dict_entries(x) if v is not REMOVED],
             self._nd, self._v),
        self._nd + 1, s, self._bag)

  def get_values(self, key_ds=None):
    if key_ds is not None:
      return self[key_ds]
    s = self._elem_schema('__values__')
    return DataSlice._make(
        _map(lambda x: [v for _, v in self._dict_entries(x) if v is not REMOVED],
             self._nd, self._v), self._nd + 1, s, self._bag)

  def __getitem__(self, k):
    if isinstance(k, slice):
      if (k.start, k.stop, k.step) == (None, None, None):
        if self._elem_kind() == 'dict':
          return self.get_values()
        return self._explode1()
      r = self._explode1()
      return DataSlice._make(_map(lambda x: x[k], self._nd, r._v), self._nd + 1, r._s, r._bag)
    if self._elem_kind() == 'list':
      ks = to_slice(k)
      s = self._elem_schema('__items__')
      shape, nd, (xs, ks_) = _align(self, ks)

      def at(x, i):
        if x is None or i is None:
          return None
        l = self._bag._l.get(x, ())
        return l[i.val] if -len(l) <= i.val < len(l) else None
      return DataSlice._make(_map(at, nd, xs, ks_), nd, s, self._bag)
    ks = to_slice(k)
    s = self._elem_schema('__values__')
    shape, nd, (xs, ks_) = _align(self, ks)

    def look(x, key):
      if x is None or key is None:
        return None
      return _val(self._bag._d.get(x, {}).get(key, _NOTHING))
    return DataSlice._make(_map(look, nd, xs, ks_), nd, s, _union(self._bag, None))

  def __setitem__(self, k, v):
    if self._bag is None or not self._bag._mutable:
      raise ValueError('cannot modify an immutable DataBag')
    if self._elem_kind() != 'dict':
      raise core.ShimGap('list assignment')
    ks, v = to_slice(k), to_slice(v)
    shape, nd, (xs, ks_, vs) = _align(self, ks, v)
    for x, key, val in zip(_flat(xs, nd), _flat(ks_, nd), _flat(vs, nd)):
      if x is None or key is None:
        continue
      self._bag._d.setdefault(x, {})[key] = REMOVED if val is None else val

  def _elem_kind(self):
    if isinstance(self._s, ItemId):
      return _schema_kind(self._s, self._bag)
    for x in self._items():
      if isinstance(x, ItemId):
        return x.kind
    return None

  def implode(self, ndim=1, itemid=None):
    r = self
    if ndim == -1:
      ndim = r._nd
    if itemid is not None and ndim != 1:
      raise core.ShimGap('implode itemid with ndim != 1')
    for _ in range(ndim):
      r = _implode1(r, itemid)
    return r

  # -- extraction
  def stub(self, attrs=None):
    if attrs is not None:
      raise core.ShimGap('stub(attrs=)')
    out = DataBag()
    if self._bag is not None and self._s != DType('SCHEMA'):
      for x in self._items():
        _stub_item(x, self._s, self._bag, out)
      _stub_schema(self._s, self._bag, out)
    return self._with(bag=out)

  def extract(self, schema=None):
    if schema is not None:
      schema = to_slice(schema)
      out = DataBag()
      _extract([(x, schema._v) for x in self._items()], [schema._v],
               self._bag or DataBag(), out, schema._bag or DataBag())
      return self._with(schema=schema._v, bag=out)
    if self._bag is None:
      raise ValueError('cannot extract without a DataBag')
    out = DataBag()
    _extract([(x, self._s) for x in self._items()], [self._s], self._bag, out)
    return self._with(bag=out)

  def extract_update(self):
    return self.extract().get_bag()

  # -- operators
  def __and__(self, m):
    m = to_slice(m)
    if m._s not in (DType('MASK'), DType('NONE')):
      raise ValueError('kd.masking.apply_mask: argument `y` must be a slice of MASK')
    shape, nd, (xs, ms) = _align(self, m)
    return DataSlice._make(_map(lambda x, y: x if y is not None else None, nd, xs, ms),
                           nd, self._s, self._bag)

  def __rand__(self, o):
    return to_slice(o) & self

  def __or__(self, o):
    o = to_slice(o)
    shape, nd, (xs, ys) = _align(self, o)
    return DataSlice._make(_map(lambda x, y: x if x is not None else y, nd, xs, ys), nd,
                           _common([self._s, o._s]), _union(self._bag, o._bag))

  def __invert__(self):
    if self._s != DType('MASK'):
      raise ValueError('~ expects a MASK')
    return self._mapv(lambda x: MASK_PRESENT if x is None else None, DType('MASK'), None)

  def _cmp(self, o, f):
    try:
      o = to_slice(o)
    except core.ShimGap:
      raise
    shape, nd, (xs, ys) = _align(self, o)

    def one(x, y):
      if x is None or y is None:
        return None
      return MASK_PRESENT if f(x, y) else None
    return DataSlice._make(_map(one, nd, xs, ys), nd, DType('MASK'), None)

  def __eq__(self, o):
    if o is None:
      return self._mapv(lambda x: None, DType('MASK'), None)
    if not isinstance(o, (DataSlice, int, float, str, bytes, bool)):
      return NotImplemented
    return self._cmp(o, _raw_eq)

  def __ne__(self, o):
    if not isinstance(o, (DataSlice, int, float, str, bytes, bool)):
      return NotImplemented
    return self._cmp(o, lambda x, y: not _raw_eq(x, y))

  def __lt__(self, o):
    return self._cmp(o, lambda x, y: x.val < y.val)

  def __le__(self, o):
    return self._cmp(o, lambda x, y: x.val <= y.val)

  def __gt__(self, o):
    return self._cmp(o, lambda x, y: x.val > y.val)

  def __ge__(self, o):
    return self._cmp(o, lambda x, y: x.val >= y.val)

  def _arith(self, o, f):
    o = to_slice(o)
    shape, nd, (xs, ys) = _align(self, o)
    s = _common([self._s, o._s])

    def one(x, y):
      if x is None or y is None:
        return None
      return V(s.name, f(x.val, y.val))
    return DataSlice._make(_map(one, nd, xs, ys), nd, s, None)

  def __add__(self, o):
    return self._arith(o, lambda a, b: a + b)

  def __sub__(self, o):
    return self._arith(o, lambda a, b: a - b)

  def __mod__(self, o):
    return self._arith(o, lambda a, b: a % b)

  def __mul__(self, o):
    return self._arith(o, lambda a, b: a * b)

  __hash__ = None

  def __len__(self):
    raise TypeError('len() of a DataSlice')

  def __iter__(self):
    raise ValueError('DataSlice is not iterable')

  def __bool__(self):
    raise ValueError('Cannot cast a non-MASK DataItem to bool')

  def select(self, fltr, expand_filter=True):
    m = fltr(self) if callable(fltr) else to_slice(fltr)
    ms = _broadcast(m._v, m._nd, _shape_of(self._v, self._nd), self._nd)

    def sel(x, y, nd):
      if nd == 1:
        return [a for a, b in zip(x, y) if b is not None]
      return [sel(a, b, nd - 1) for a, b in zip(x, y)]
    return DataSlice._make(sel(self._v, ms, self._nd), self._nd, self._s, self._bag)

  # -- python conversion
  def to_py(self, max_depth=2, obj_as_dict=False, include_missing_attrs=True):
    return _to_py(self, max_depth, obj_as_dict, include_missing_attrs)

  def to_pytree(self, max_depth=2, include_missing_attrs=True):
    return _to_py(self, max_depth, True, include_missing_attrs)

  def get_obj_schema(self):
    return self.get_attr('__schema__')

  def __repr__(self):
    return f'DataSlice({self}, schema: {_fmt(self._s, self._bag)})'

  def __str__(self):
    def f(x, nd):
      if nd == 0:
        return repr(x.val) if isinstance(x, V) and x.dtype == 'STRING' else _fmt(x, self._bag)
      return '[' + ', '.join(f(y, nd - 1) for y in x) + ']'
    return f(self._v, self._nd)


class DataItem(DataSlice):

  def __bool__(self):
    if self._s not in (DType('MASK'), DType('NONE'), DType('BOOLEAN')):
      raise ValueError('Cannot cast a non-MASK DataItem to bool')
    if self._s == DType('BOOLEAN'):
      return self._v is not None and bool(self._v.val)
    return self._v is not None

  def __hash__(self):
    return hash((self._v, self._s))

  def __int__(self):
    if not isinstance(self._v, V):
      raise ValueError('not a number')
    return int(self._v.val)

  __index__ = __int__

  def __float__(self):
    return float(self._v.val)

  def __repr__(self):
    return f'DataItem({_fmt(self._v, self._bag)}, schema: {_fmt(self._s, self._bag)})'

  def __str__(self):
    return _fmt(self._v, self._bag)


class SchemaItem(DataItem):

  def __call__(self, *a, **k):
    raise core.ShimGap('schema call')


class ListItem(DataItem):

  def __len__(self):
    return len(self._bag._l.get(self._v, ()))

  def __iter__(self):
    return iter(self[:].L)


class DictItem(DataItem):

  def __len__(self):
    return len(self.get_keys()._v)

  def __iter__(self):
    return iter(self.get_keys().L)

  def keys(self):
    return iter(self.get_keys().L)

  def values(self):
    return iter(self.get_values().L)

  def __contains__(self, k):
    return self[k]._v is not None


class _Slicer:

  def __init__(self, ds):
    self._ds = ds

  def __getitem__(self, idx):
    ds = self._ds
    if isinstance(idx, tuple):
      if len(idx) > 2 or ds._nd < len(idx):
        raise core.ShimGap('S[multi]')
      a, b = idx
      r = ds.S[b]
      return r.S[a]
    if isinstance(idx, slice):
      v = _map(lambda x: x[idx], ds._nd - 1, ds._v)
      return DataSlice._make(v, ds._nd, ds._s, ds._bag)
    i = int(idx) if not isinstance(idx, int) else idx

    def at(x):
      return x[i] if -len(x) <= i < len(x) else None
    return DataSlice._make(_map(at, ds._nd - 1, ds._v), ds._nd - 1, ds._s, ds._bag)


def _fmt(x, bag):
  if x is None:
    return 'None'
  if isinstance(x, DType):
    return x.name
  if isinstance(x, V):
    return 'present' if x.dtype == 'MASK' else (repr(x.val) if x.dtype == 'BYTES' else str(x.val))
  if x.kind == 'list' and bag is not None:
    return 'List[' + ', '.join(
        repr(y.val) if isinstance(y, V) and y.dtype == 'STRING' else _fmt(y, bag)
        for y in bag._l.get(x, ())) + ']'
  if x.kind == 'schema' and bag is not None:
    n = bag._attr(x, '__schema_name__')
    body = ', '.join(
        f'{k}={_fmt1(v, bag)}' for k, v in sorted(bag._a.get(x, {}).items())
        if v is not REMOVED and not k.startswith('__'))
    if _is_list_schema(x, bag):
      return f"LIST[{_fmt1(_schema_lookup(x, '__items__', bag), bag)}]"
    if _is_dict_schema(x, bag):
      return (f"DICT{{{_fmt1(_schema_lookup(x, '__keys__', bag), bag)}, "
              f"{_fmt1(_schema_lookup(x, '__values__', bag), bag)}}}")
    if isinstance(n, V):
      return f'{n.val}({body})'
    return f'ENTITY({body})'
  return f'{x.kind}:${x.uid}'


def _fmt1(x, bag):
  if isinstance(x, ItemId):
    n = bag._attr(x, '__schema_name__')
    if isinstance(n, V):
      return n.val
    return f'${x.uid}'
  return _fmt(x, bag)


def _raw_eq(x, y):
  if isinstance(x, V) and isinstance(y, V):
    if x.dtype in _NUMERIC and y.dtype in _NUMERIC:
      return x.val == y.val
    return x == y
  return type(x) is type(y) and x == y


def _val(v):
  return None if v is _NOTHING or v is REMOVED else v


def _or_default(r, default):
  if default is None:
    return r
  return r | to_slice(default)


def _pystr(x):
  if isinstance(x, DataSlice):
    x = x.to_py()
  if not isinstance(x, str):
    raise ValueError('attribute name must be a string')
  return x


_META_ATTR_SCHEMAS = {
    '__schema_name__': DType('STRING'),
    '__schema_metadata__': DType('OBJECT'),
}


def _schema_lookup(s, name, bag):
  if isinstance(s, DType):
    if name.startswith('__'):
      return _NOTHING
    raise ValueError(f'{s.name} does not have attributes')
  if bag is None:
    return _NOTHING
  v = bag._attr(s, name)
  return _NOTHING if v is REMOVED else v


def _is_list_schema(s, bag):
  return isinstance(s, ItemId) and bag is not None and _schema_lookup(
      s, '__items__', bag) is not _NOTHING


def _is_dict_schema(s, bag):
  return isinstance(s, ItemId) and bag is not None and (
      _schema_lookup(s, '__keys__', bag) is not _NOTHING
      or _schema_lookup(s, '__values__', bag) is not _NOTHING)


def _is_entity_schema(s, bag):
  return isinstance(s, ItemId) and not _is_list_schema(s, bag) and not _is_dict_schema(s, bag)


def _schema_kind(s, bag):
  if _is_list_schema(s, bag):
    return 'list'
  if _is_dict_schema(s, bag):
    return 'dict'
  return 'entity' if isinstance(s, ItemId) else None


def _schema(raw, bag):
  return DataSlice._make(raw, 0, DType('SCHEMA'), bag)


def _mask(b):
  return DataSlice._make(MASK_PRESENT if b else None, 0, DType('MASK'), None)


def _common(schemas):
  ss = []
  for s in schemas:
    if s != DType('NONE') and s not in ss:
      ss.append(s)
  if not ss:
    return DType('NONE')
  if len(ss) == 1:
    return ss[0]
  if all(isinstance(s, DType) and s.name in _NUMERIC for s in ss):
    return max(ss, key=lambda s: _NUMERIC.index(s.name))
  if DType('SCHEMA') in ss or any(isinstance(s, ItemId) for s in ss):
    if len([s for s in ss if s != DType('OBJECT')]) > 1:
      raise ValueError(f'cannot find a common schema for {ss}')
  return DType('OBJECT')


def _prim(x):
  if x is None:
    return None, DType('NONE')
  if isinstance(x, bool):
    return V('BOOLEAN', x), DType('BOOLEAN')
  if isinstance(x, int):
    t = 'INT32' if -2**31 <= x < 2**31 else 'INT64'
    return V(t, x), DType(t)
  if isinstance(x, float):
    return V('FLOAT32', x), DType('FLOAT32')
  if isinstance(x, str):
    return V('STRING', x), DType('STRING')
  if isinstance(x, bytes):
    return V('BYTES', x), DType('BYTES')
  from koladata.types import mask_constants
  if x is mask_constants.present:
    return MASK_PRESENT, DType('MASK')
  raise core.ShimGap(f'boxing of {type(x)}')


def _cast(v, frm, to):
  """Casts a raw value to a schema (as kd.slice(schema=) does)."""
  if v is None:
    return None
  if isinstance(to, DType) and to.name in _PRIMITIVES:
    if not isinstance(v, V):
      raise ValueError(f'cannot cast to {to.name}')
    if v.dtype == to.name:
      return v
    if v.dtype in _NUMERIC and to.name in _NUMERIC:
      return V(to.name, float(v.val) if to.name.startswith('F') else int(v.val))
    raise ValueError(f'cannot cast {v.dtype} to {to.name}')
  return v


def to_slice(x, schema=None):
  """kd.slice / kd.item and auto-boxing."""
  if schema is not None and not isinstance(schema, DataSlice):
    schema = named_schema(schema) if isinstance(schema, str) else to_slice(schema)
  if isinstance(x, DataSlice):
    r = x
  elif isinstance(x, (list, tuple)):
    parts = [to_slice(y) for y in x]
    nd = max([p._nd for p in parts], default=0)
    if any(p._nd != nd for p in parts if p._v is not None or p._nd):
      raise ValueError('kd.slice: input has to be a valid nested list')
    s = (_common([p._s for p in parts]) if schema is None else schema._v)
    vs = []
    for p in parts:
      if p._nd != nd:
        raise ValueError('kd.slice: input has to be a valid nested list')
      vs.append(_map(lambda v, p=p: _cast(v, p._s, s), p._nd, p._v))
    r = DataSlice._make(vs, nd + 1, s, _union(*[p._bag for p in parts]))
  elif isinstance(x, dict):
    raise ValueError('dict is not convertible')
  else:
    v, s = _prim(x)
    r = DataSlice._make(v, 0, s, None)
  if schema is not None and (r._s != schema._v or schema._bag is not None):
    r = DataSlice._make(
        _map(lambda v: _cast(v, r._s, schema._v), r._nd, r._v), r._nd, schema._v,
        _union(r._bag, schema._bag))
  return r


def slice_(x, schema=None):
  return to_slice(x, schema)


def item(x, schema=None):
  r = to_slice(x, schema)
  if r._nd:
    raise ValueError('kd.item: expected a scalar')
  return r


# -- schemas ------------------------------------------------------------------
def _coerce_schema(x):
  if isinstance(x, str):
    return named_schema(x)
  x = to_slice(x)
  if x._s != DType('SCHEMA') and x._s != DType('NONE'):
    raise ValueError(f'expected a schema, got {x!r}')
  return x


def named_schema(name, /, **kw):
  name = _pystr(name)
  s = _uu('schema', 'named', name)
  b = DataBag()
  b._set(s, '__schema_name__', V('STRING', name))
  return _with_schema_attrs(s, b, kw)


def _with_schema_attrs(s, b, kw):
  for k, v in kw.items():
    v = _coerce_schema(v)
    b._set(s, k, v._v)
    if v._bag is not None:
      sub = DataBag()
      _extract([], [v._v], v._bag, sub)
      _merge_into(b, sub, override=False)
  return _schema(s, b)


def new_schema(**kw):
  return _with_schema_attrs(_alloc('schema'), DataBag(), kw)


def uu_schema(**kw):
  parts = sorted((k, repr(_coerce_schema(v)._v)) for k, v in kw.items())
  return _with_schema_attrs(_uu('schema', 'uu', parts), DataBag(), kw)


def list_schema(item_schema):
  i = _coerce_schema(item_schema)
  s = _uu('schema', 'list', repr(i._v))
  return _with_schema_attrs(s, DataBag(), {'__items__': i})


def dict_schema(key_schema, value_schema):
  k, v = _coerce_schema(key_schema), _coerce_schema(value_schema)
  s = _uu('schema', 'dict', repr(k._v), repr(v._v))
  return _with_schema_attrs(s, DataBag(), {'__keys__': k, '__values__': v})


def is_entity_schema(s):
  return to_slice(s).is_entity_schema()


# -- creation -----------------------------------------------------------------
def _box_value(v, schema=None):
  """Boxes attribute values; python lists and dicts become Koda lists/dicts."""
  if isinstance(v, (list, tuple)):
    return list_(list(v)) if schema is None else list_(list(v), schema=schema)
  if isinstance(v, dict):
    return dict_(v)
  return to_slice(v)


def _adopt(bag, ds):
  """Merges the reachable part of ds's bag into bag."""
  if ds._bag is None:
    return
  sub = DataBag()
  _extract([(x, ds._s) for x in ds._items()], [ds._s], ds._bag, sub)
  _merge_into(bag, sub, override=False)


def _implicit_cast(v, frm, to):
  if v is None:
    return None
  if frm == to:
    return v
  if isinstance(frm, DType) and isinstance(to, DType):
    if frm.name in _NUMERIC and to.name in _NUMERIC and (
        _NUMERIC.index(frm.name) < _NUMERIC.index(to.name)):
      return _cast(v, frm, to)
  if to == DType('OBJECT') and isinstance(frm, DType):
    return v
  if frm == DType('NONE'):
    return v
  raise ValueError(f'the schema is incompatible: expected {to}, got {frm}')


def new(arg=None, /, *, schema=None, overwrite_schema=False, itemid=None, **kw):
  if arg is not None or itemid is not None:
    raise core.ShimGap('kd.new(arg)')
  if schema is None:
    s, sbag, known = _alloc('schema'), DataBag(), False
  else:
    if isinstance(schema, str):
      schema = named_schema(schema)
    if schema._s != DType('SCHEMA'):
      raise ValueError('schema expected')
    s, known = schema._v, True
    sbag = DataBag()
    if schema._bag is not None:
      _extract([], [s], schema._bag, sbag)
  vals = {k: _box_value(v) for k, v in kw.items()}
  nd, shape = 0, None
  for v in vals.values():
    if v._nd >= nd:
      nd, shape = v._nd, _shape_of(v._v, v._nd)
  ids = _map(lambda _: _alloc('entity'), nd, shape)
  bag = sbag
  for k, v in vals.items():
    _adopt(bag, v)
    old = bag._attr(s, k)
    target = v._s
    if known and old is not _NOTHING and old is not REMOVED and not overwrite_schema:
      target = old
      if v._s != old:
        v = v._mapv(lambda x, f=v._s: _implicit_cast(x, f, old), old)
    bag._set(s, k, target)
    vs = _broadcast(v._v, v._nd, shape, nd)
    for i, x in zip(_flat(ids, nd), _flat(vs, nd)):
      bag._set(i, k, REMOVED if x is None else x)
  return DataSlice._make(ids, nd, s, bag)


def uu(seed='', *, schema=None, **kw):
  parts = sorted((k, repr(to_slice(v)._v)) for k, v in kw.items())
  i = _uu('entity', 'uu', seed, parts)
  s = uu_schema(**{k: to_slice(v).get_schema() for k, v in kw.items()}) if schema is None else (
      named_schema(schema) if isinstance(schema, str) else schema)
  bag = DataBag()
  _extract([], [s._v], s._bag, bag)
  for k, v in kw.items():
    v = to_slice(v)
    _adopt(bag, v)
    bag._set(s._v, k, v._s)
    bag._set(i, k, REMOVED if v._v is None else v._v)
  return DataSlice._make(i, 0, s._v, bag)


def obj(arg=None, /, **kw):
  if arg is not None:
    d = to_slice(arg) if not isinstance(arg, (list, dict)) else _box_value(arg)
    if not isinstance(d._s, ItemId):
      return d._with(schema=DType('OBJECT'))
    bag = d._bag._copy()
    for x in d._items():
      if x is not None:
        bag._set(x, '__schema__', d._s)
    return DataSlice._make(d._v, d._nd, DType('OBJECT'), bag)
  return obj(new(**kw)) if kw or True else None


def new_itemid():
  return DataSlice._make(_alloc('entity'), 0, DType('ITEMID'), None)


def list_(items=None, *, item_schema=None, schema=None, itemid=None):
  if schema is not None:
    item_schema = schema.get_item_schema()
  if items is None:
    items = []
  if isinstance(items, DataSlice):
    if itemid is not None:
      raise core.ShimGap('kd.list(slice, itemid=)')
    r = items
    if item_schema is not None:
      r = to_slice(r, item_schema)
    return r.implode()
  parts = [_box_value(x) for x in items]
  if any(p._nd for p in parts):
    raise ValueError('kd.list: nested slices')
  s = _common([p._s for p in parts]) if item_schema is None else _coerce_schema(item_schema)._v
  bag = DataBag()
  for p in parts:
    _adopt(bag, p)
  if item_schema is not None:
    ls = schema if schema is not None else list_schema(item_schema)
  else:
    ls = list_schema(_schema(s, bag))
  _extract([], [ls._v], ls._bag, bag)
  i = _alloc('list') if itemid is None else to_slice(itemid)._v
  bag._l[i] = tuple(_cast(p._v, p._s, s) for p in parts)
  return DataSlice._make(i, 0, ls._v, bag)


def _implode1(ds, itemid=None):
  if ds._nd < 1:
    raise ValueError('cannot implode a DataItem')
  nd = ds._nd - 1
  ls = list_schema(_schema(ds._s, ds._bag))
  bag = DataBag()
  if ds._bag is not None:
    _adopt(bag, ds)
  _merge_into(bag, ls._bag, override=False)
  if itemid is None:
    ids = _map(lambda _: _alloc('list'), nd, ds._v)
  else:
    itemid = to_slice(itemid)
    if itemid._nd != nd:
      raise ValueError('itemid has a wrong shape')
    ids = itemid._v
    seen = [x for x in _flat(ids, nd) if x is not None]
    if len(set(seen)) != len(seen):
      raise ValueError('itemid cannot have duplicate ItemIds')
    if any(x.kind != 'list' for x in seen):
      raise ValueError('itemid argument to list creation requires List ItemIds')
  def put(i, xs):
    if i is not None:
      bag._l[i] = tuple(xs)
    return i
  return DataSlice._make(_map(put, nd, ids, ds._v), nd, ls._v, bag)


def implode(ds, ndim=1, itemid=None):
  return to_slice(ds).implode(ndim, itemid)


def dict_(items_or_keys=None, values=None, *, key_schema=None, value_schema=None,
          schema=None, itemid=None):
  if schema is not None:
    key_schema, value_schema = schema.get_key_schema(), schema.get_value_schema()
  if items_or_keys is None:
    items_or_keys = {}
  bag = DataBag()
  if isinstance(items_or_keys, dict):
    if values is not None:
      raise ValueError('values with a dict')
    ks = [to_slice(k) for k in items_or_keys]
    vs = [_box_value(v) for v in items_or_keys.values()]
    kds = (to_slice(ks, key_schema) if ks else
           DataSlice._make([], 1, DType('NONE') if key_schema is None else _coerce_schema(key_schema)._v, None))
    vds = (to_slice(vs, value_schema) if vs else
           DataSlice._make([], 1, DType('NONE') if value_schema is None else _coerce_schema(value_schema)._v, None))
  else:
    kds, vds = to_slice(items_or_keys, key_schema), to_slice(values, value_schema)
    if kds._nd < 1:
      raise ValueError('keys must have at least one dimension')
    vds = vds._with(v=_broadcast(vds._v, vds._nd, _shape_of(kds._v, kds._nd), kds._nd), nd=kds._nd)
  _adopt(bag, kds)
  _adopt(bag, vds)
  ds = (schema if schema is not None else
        dict_schema(_schema(kds._s, bag) if key_schema is None else key_schema,
                    _schema(vds._s, bag) if value_schema is None else value_schema))
  if ds._bag is not None:
    _extract([], [ds._v], ds._bag, bag)
  nd = kds._nd - 1
  if itemid is None:
    ids = _map(lambda _: _alloc('dict'), nd, kds._v)
  else:
    itemid = to_slice(itemid)
    if itemid._nd != nd:
      raise ValueError('itemid has a wrong shape')
    ids = itemid._v
    seen = [x for x in _flat(ids, nd) if x is not None]
    if len(set(seen)) != len(seen):
      raise ValueError('itemid cannot have duplicate ItemIds')
    if any(x.kind != 'dict' for x in seen):
      raise ValueError('itemid argument to dict creation requires Dict ItemIds')

  def put(i, k, v):
    if i is not None:
      # An empty dict leaves no trace in a bag.
      for a, b in zip(k, v):
        if a is not None:
          bag._d.setdefault(i, {})[a] = REMOVED if b is None else b
    return i
  return DataSlice._make(_map(put, nd, ids, kds._v, vds._v), nd, ds._v, bag)


def attrs(x, /, *, overwrite_schema=False, **kw):
  """Returns a bag with the attribute update."""
  x = to_slice(x)
  out = DataBag()
  for k, v in kw.items():
    v = _box_value(v)
    _adopt(out, v)
    if x._s == DType('SCHEMA'):
      if k in _META_ATTR_SCHEMAS:
        pass
      elif v._s not in (DType('SCHEMA'), DType('NONE')):
        raise ValueError(f'only schemas can be assigned as attributes of schemas, got {v!r}')
      vs = _broadcast(v._v, v._nd, _shape_of(x._v, x._nd), x._nd)
      for s, y in zip(_flat(x._v, x._nd), _flat(vs, x._nd)):
        if s is None:
          continue
        if not isinstance(s, ItemId):
          raise ValueError('cannot set an attribute of a primitive schema')
        out._set(s, k, REMOVED if y is None else y)
      continue
    if isinstance(x._s, ItemId):
      if x._bag is not None and not _is_entity_schema(x._s, x._bag):
        raise ValueError('failed to create attribute update; lists and dicts do not support attributes')
      old = _NOTHING if x._bag is None else _schema_lookup(x._s, k, x._bag)
      if x._bag is None:
        raise ValueError('the DataSlice is a reference without a Bag')
      if not overwrite_schema and old is not _NOTHING and old != v._s:
        v = v._mapv(lambda y, f=v._s: _implicit_cast(y, f, old), old)
      out._set(x._s, k, v._s)
      n = x._bag._attr(x._s, '__schema_name__')
      if n is not _NOTHING:
        out._set(x._s, '__schema_name__', n)
      vs = _broadcast(v._v, v._nd, _shape_of(x._v, x._nd), x._nd)
      for i, y in zip(_flat(x._v, x._nd), _flat(vs, x._nd)):
        if i is not None:
          out._set(i, k, REMOVED if y is None else y)
      continue
    if x._s == DType('OBJECT'):
      vs = _broadcast(v._v, v._nd, _shape_of(x._v, x._nd), x._nd)
      for i, y in zip(_flat(x._v, x._nd), _flat(vs, x._nd)):
        if i is None:
          continue
        if not isinstance(i, ItemId):
          raise ValueError('primitives do not have attributes')
        s = x._bag._attr(i, '__schema__')
        if s is _NOTHING:
          raise ValueError('object schema is missing')
        out._set(i, '__schema__', s)
        out._set(s, k, v._s)
        out._set(i, k, REMOVED if y is None else y)
      continue
    raise ValueError(f'failed to create attribute update; {x._s.name} does not support attributes')
  return out


def attr(x, name, value, overwrite_schema=False):
  return attrs(x, overwrite_schema=overwrite_schema, **{_pystr(name): value})


# -- metadata -----------------------------------------------------------------
def metadata(x, /, **kw):
  x = to_slice(x)
  if x._s != DType('SCHEMA'):
    raise ValueError('metadata is only supported for schemas')
  out = DataBag()
  for s in x._items():
    if s is None:
      continue
    if not isinstance(s, ItemId):
      raise ValueError('primitive schemas have no metadata')
    m = _NOTHING if x._bag is None else x._bag._attr(s, '__schema_metadata__')
    if m is _NOTHING or m is REMOVED:
      m = _uu('entity', 'metadata', s)
    ms = None if x._bag is None else x._bag._attr(m, '__schema__')
    if ms is None or ms is _NOTHING:
      ms = _uu('schema', 'metadata-schema', m)
    out._set(s, '__schema_metadata__', m)
    out._set(m, '__schema__', ms)
    for k, v in kw.items():
      v = _box_value(v)
      _adopt(out, v)
      out._set(ms, k, v._s)
      out._set(m, k, REMOVED if v._v is None else v._v)
  return out


def with_metadata(x, /, **kw):
  x = to_slice(x)
  return x.updated(metadata(x, **kw))


def get_metadata(x):
  x = to_slice(x)
  if x._s != DType('SCHEMA'):
    raise ValueError('failed to get metadata: not a schema')
  return x.get_attr('__schema_metadata__')


# -- extraction ---------------------------------------------------------------
def _extract(items, schemas, bag, out, sbag=None):
  """Copies everything reachable from items (with their schemas) and schemas."""
  sbag = bag if sbag is None else sbag
  seen_i, seen_s = set(), set()
  work = [('s', s, None) for s in schemas] + [('i', x, s) for x, s in items]
  while work:
    kind, x, s = work.pop()
    if x is None or x is REMOVED or isinstance(x, V):
      continue
    if kind == 's':
      if not isinstance(x, ItemId) or x in seen_s:
        continue
      seen_s.add(x)
      for k, v in sbag._a.get(x, {}).items():
        out._set(x, k, v)
        if v is REMOVED or v is None:
          continue
        if k == '__schema_metadata__':
          work.append(('i', v, DType('OBJECT')))
        elif isinstance(v, ItemId):
          work.append(('s', v, None))
      continue
    if s == DType('SCHEMA'):
      work.append(('s', x, None))
      continue
    if not isinstance(x, ItemId) or (x, s) in seen_i:
      continue
    if s == DType('OBJECT'):
      seen_i.add((x, s))
      o = bag._attr(x, '__schema__')
      if o is _NOTHING or o is REMOVED:
        continue
      out._set(x, '__schema__', o)
      work.append(('s', o, None))
      work.append(('i', x, o))
      continue
    if not isinstance(s, ItemId):
      continue  # ITEMID etc.: opaque
    seen_i.add((x, s))
    work.append(('s', s, None))
    if _is_list_schema(s, sbag):
      if x in bag._l:
        out._l[x] = bag._l[x]
        e = sbag._attr(s, '__items__')
        work.extend(('i', y, e) for y in bag._l[x])
    elif _is_dict_schema(s, sbag):
      if x in bag._d:
        out._d[x] = dict(bag._d[x])
        ks, vs = sbag._attr(s, '__keys__'), sbag._attr(s, '__values__')
        for k, v in bag._d[x].items():
          work.append(('i', k, ks))
          work.append(('i', v, vs))
    else:
      mine = bag._a.get(x, {})
      for k, e in sbag._a.get(s, {}).items():
        if k.startswith('__') or e is REMOVED:
          continue
        if k in mine:
          out._set(x, k, mine[k])
          work.append(('i', mine[k], e))


def _stub_schema(s, bag, out):
  """Just enough schema to support direct updates."""
  if not isinstance(s, ItemId):
    return
  for k in ('__items__', '__keys__', '__values__'):
    v = bag._attr(s, k)
    if v is not _NOTHING:
      out._set(s, k, v)


def _stub_item(x, s, bag, out):
  if not isinstance(x, ItemId):
    return
  if s == DType('OBJECT'):
    o = bag._attr(x, '__schema__')
    if isinstance(o, ItemId):
      out._set(x, '__schema__', o)
      _stub_schema(o, bag, out)
      _stub_item(x, o, bag, out)
    return
  if isinstance(s, ItemId) and _is_list_schema(s, bag) and x not in out._l:
    # (as in koda, a list without information about its items becomes empty)
    out._l[x] = bag._l.get(x, ())
    e = bag._attr(s, '__items__')
    _stub_schema(s, bag, out)
    for y in out._l[x]:
      _stub_item(y, e, bag, out)


# -- other operators ----------------------------------------------------------
def has(x):
  x = to_slice(x)
  return x._mapv(lambda v: None if v is None else MASK_PRESENT, DType('MASK'), None)


def has_not(x):
  return ~has(x)


def maybe(x, name):
  return to_slice(x).maybe(name)


def get_attr(x, name, default=_NOTHING):
  return to_slice(x).get_attr(name, default)


def has_attr(x, name):
  return to_slice(x).has_attr(name)


def dir_(x):
  """Sorted attribute names."""
  x = to_slice(x)
  b = x._bag
  if x._s == DType('SCHEMA'):
    ss = [s for s in x._items() if s is not None]
    if any(not isinstance(s, ItemId) for s in ss):
      if b is None or True:
        if all(isinstance(s, DType) for s in ss):
          raise ValueError('failed to get attribute names: primitives do not have attributes')
  elif x._s == DType('OBJECT'):
    ss = []
    for i in x._items():
      if i is None:
        continue
      if not isinstance(i, ItemId):
        raise ValueError('primitives do not have attributes')
      ss.append(b._attr(i, '__schema__'))
  elif isinstance(x._s, ItemId):
    ss = [x._s]
  else:
    raise ValueError('failed to get attribute names: primitives do not have attributes')
  if b is None:
    raise ValueError('cannot get available attributes without a DataBag')
  sets = [{k for k, v in b._a.get(s, {}).items() if v is not REMOVED and not k.startswith('__')}
          for s in ss]
  if not sets:
    return []
  return sorted(set.intersection(*sets))


def unique(x, sort=False):
  x = to_slice(x)
  if x._nd == 0:
    return x

  def u(xs):
    seen, r = set(), []
    for v in xs:
      if v is not None and v not in seen:
        seen.add(v)
        r.append(v)
    return r
  return DataSlice._make(_map(u, x._nd - 1, x._v), x._nd, x._s, x._bag)


def expand_to_shape(x, shape, ndim=0):
  if ndim:
    raise core.ShimGap('expand_to_shape ndim')
  x = to_slice(x)
  if x._nd == 1 and not x._v and shape._nd != 1:
    if shape._nd == 0:
      raise ValueError('cannot expand')
  return DataSlice._make(_broadcast(x._v, x._nd, shape._nest, shape._nd), shape._nd, x._s, x._bag)


def list_append_update(x, values):
  x, v = to_slice(x), _box_value(values) if not isinstance(values, DataSlice) else values
  if x._bag is None:
    raise ValueError('no DataBag')
  out = DataBag()
  es = x._elem_schema('__items__')
  _stub_schema(x._s, x._bag, out)
  _adopt(out, v)
  if v._s != es:
    v = v._mapv(lambda y, f=v._s: _implicit_cast(y, f, es), es)
  shape = _shape_of(x._v, x._nd)
  if v._nd <= x._nd:
    vs = _map(lambda y: [y], x._nd, _broadcast(v._v, v._nd, shape, x._nd))
  elif v._nd == x._nd + 1:
    vs = v._v
  else:
    raise ValueError('wrong rank')
  for i, ys in zip(_flat(x._v, x._nd), _flat(vs, x._nd)):
    if i is not None:
      out._l[i] = tuple(x._bag._l.get(i, ())) + tuple(ys)
  return out


def dict_update(x, keys, values=None):
  x = to_slice(x)
  out = DataBag()
  if values is None:
    d = keys
    if not isinstance(d, DataSlice):
      d = dict_(d)
    ks, vs = d.get_keys(), d.get_values()
  else:
    ks, vs = to_slice(keys), _box_value(values) if not isinstance(values, DataSlice) else values
  if x._bag is not None:
    _stub_schema(x._s, x._bag, out)
  _adopt(out, ks)
  _adopt(out, vs)
  nd = ks._nd
  if nd != x._nd + 1:
    raise core.ShimGap('dict_update shape')
  vv = _broadcast(vs._v, vs._nd, _shape_of(ks._v, ks._nd), nd)
  for i, k, v in zip(_flat(x._v, x._nd), _flat(ks._v, x._nd), _flat(vv, x._nd)):
    if i is not None:
      for a, b in zip(k, v):
        if a is not None:
          out._d.setdefault(i, {})[a] = REMOVED if b is None else b
  return out


def list_size(x):
  x = to_slice(x)
  if x._bag is None:
    raise ValueError('no DataBag')
  x._elem_schema('__items__')
  return x._mapv(lambda i: None if i is None else V('INT64', len(x._bag._l.get(i, ()))),
                 DType('INT64'), None)


def agg_any(x, ndim=None):
  x = to_slice(x)
  if x._nd == 0:
    raise ValueError('agg_any: expected rank >= 1')
  nd = 1 if ndim is None else ndim
  k = x._nd - nd
  return DataSlice._make(
      _map(lambda v: MASK_PRESENT if any(y is not None for y in _flat(v, nd)) else None, k, x._v),
      k, DType('MASK'), None)


def any_(x):
  x = to_slice(x)
  return _mask(any(v is not None for v in x._items()))


def all_(x):
  x = to_slice(x)
  return _mask(all(v is not None for v in x._items()))


def is_item(x):
  return isinstance(x, DataSlice) and x._nd == 0


def is_empty(x):
  return _mask(to_slice(x).is_empty())


_ALNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'


def encode_itemid(x):
  x = to_slice(x)

  def enc(i):
    if i is None:
      return None
    if not isinstance(i, ItemId):
      raise ValueError('not an item id')
    n = int(hashlib.sha1(repr(i).encode()).hexdigest()[:32], 16)
    s = ''
    for _ in range(22):
      s += _ALNUM[n % 62]
      n //= 62
    return V('STRING', s)
  return x._mapv(enc, DType('STRING'), None)


def hash_itemid(x):
  raise core.ShimGap('hash_itemid')


def _strf(f, frm, to):
  def g(x, *a, **k):
    x = to_slice(x)
    for v in x._items():
      if v is not None and v.dtype != frm:
        raise ValueError(f'expected {frm}')
    return x._mapv(lambda v: None if v is None else V(to, f(v.val)), DType(to), None)
  return g


def _b64d(s):
  # As absl::Base64Unescape (compared on 111111 strings): ASCII whitespace is
  # ignored, padding ('=' or '.') is optional but complete.
  s = ''.join(c for c in s if c not in ' \t\n\v\f\r')
  t = s.rstrip('=.')
  pad = len(s) - len(t)
  if any(c not in _ALNUM + '+/' for c in t) or len(t) % 4 == 1 or (pad and pad != -len(t) % 4):
    raise ValueError('invalid base64 string')
  return base64.b64decode(t + '=' * (-len(t) % 4))


def _dec(b):
  try:
    return b.decode('utf-8')
  except UnicodeDecodeError as e:
    raise ValueError('invalid UTF-8') from e


def _contains(x, sub):
  x = to_slice(x)
  s = to_slice(sub)._v.val
  return x._mapv(lambda v: MASK_PRESENT if v is not None and s in v.val else None,
                 DType('MASK'), None)


def val_like(x, val):
  x, v = to_slice(x), to_slice(val)
  return DataSlice._make(_map(lambda y: None if y is None else v._v, x._nd, x._v), x._nd,
                         v._s, v._bag)


def translate_group(keys_to, keys_from, values_from):
  kt, kf, vf = to_slice(keys_to), to_slice(keys_from), to_slice(values_from)
  if kf._nd != 1:
    raise core.ShimGap('translate_group rank')
  return DataSlice._make(
      _map(lambda k: [v for a, v in zip(kf._v, vf._v) if k is not None and a == k], kt._nd, kt._v),
      kt._nd + 1, vf._s, vf._bag)


def uuid(seed='', **kw):
  parts = {k: to_slice(v) for k, v in kw.items()}
  if not parts:
    return DataSlice._make(_uu('entity', 'uuid', seed), 0, DType('ITEMID'), None)
  names = sorted(parts)
  shape, nd, vs = _align(*[parts[n] for n in names])
  return DataSlice._make(
      _map(lambda *xs: _uu('entity', 'uuid', seed, names, xs), nd, *vs), nd, DType('ITEMID'), None)


# -- python conversion ---------------------------------------------------------
def _to_py(ds, max_depth, as_dict, include_missing):
  b = ds._bag
  cache = {}

  def conv(x, s, depth):
    if x is None:
      return None
    if isinstance(x, V):
      if x.dtype == 'MASK':
        from koladata.types import mask_constants
        return mask_constants.present
      return x.val
    if isinstance(x, DType) or s in (DType('SCHEMA'), DType('ITEMID')):
      return _schema(x, b) if s == DType('SCHEMA') else DataSlice._make(x, 0, s, b)
    if b is None:
      return DataSlice._make(x, 0, s, b)
    if s == DType('OBJECT'):
      s = b._attr(x, '__schema__')
    if max_depth >= 0 and depth >= max_depth:
      return DataSlice._make(x, 0, s, b)
    key = (x, s, depth if max_depth >= 0 else 0)
    if key in cache:
      return cache[key]
    if x.kind == 'list' and not _is_list_schema(s, b):
      return [None] * len(b._l.get(x, ()))
    if _is_list_schema(s, b):
      r = cache[key] = []
      e = b._attr(s, '__items__')
      r.extend(conv(y, e, depth + 1) for y in b._l.get(x, ()))
      return r
    if _is_dict_schema(s, b):
      r = cache[key] = {}
      ks, vs = b._attr(s, '__keys__'), b._attr(s, '__values__')
      for k, v in b._d.get(x, {}).items():
        if v is not REMOVED:
          r[conv(k, ks, max_depth if max_depth >= 0 else depth + 1)
            if isinstance(k, V) else DataSlice._make(k, 0, ks, b)] = conv(v, vs, depth + 1)
      return r
    r = cache[key] = {} if as_dict else pytypes.SimpleNamespace()
    for k, e in sorted(b._a.get(s, {}).items()):
      if k.startswith('__') or e is REMOVED:
        continue
      v = conv(_val(b._attr(x, k)), e, depth + 1)
      if v is None and not include_missing:
        continue
      if as_dict:
        r[k] = v
      else:
        setattr(r, k, v)
    return r
  return _map(lambda x: conv(x, ds._s, 0), ds._nd, ds._v)


# -- testing ------------------------------------------------------------------
def _bags_equal(a, b):
  a = a._content() if a is not None else ({}, {}, {})
  b = b._content() if b is not None else ({}, {}, {})
  return a == b


def assert_equal(actual, expected, *, msg=None, **kw):
  if isinstance(actual, DataBag) or isinstance(expected, DataBag):
    if not (isinstance(actual, DataBag) and isinstance(expected, DataBag)
            and _bags_equal(actual, expected)):
      raise AssertionError(f'{actual!r} != {expected!r}')
    return
  if not isinstance(actual, DataSlice) or not isinstance(expected, DataSlice):
    raise core.ShimGap('assert_equal of other values')
  if (actual._v, actual._nd, actual._s) != (expected._v, expected._nd, expected._s):
    raise AssertionError(f'{actual!r} != {expected!r}')
  if (actual._bag is None) != (expected._bag is None):
    raise AssertionError('one of the slices has no bag')


def canon(ds, ids=True, bag=_NOTHING, schemas=True):
  """A canonical, comparable form of everything reachable from ds.

  With ids=True item ids are part of the form; otherwise they are numbered in
  the order of a deterministic traversal.
  """
  b = ds._bag if bag is _NOTHING else bag
  if b is None:
    b = DataBag()
  num = {}
  table = {}
  work = []

  def name(i, s):
    if not isinstance(i, ItemId):
      return i
    k = i if ids else num.setdefault(i, ('#', len(num)))
    if (i, s) not in table:
      table[(i, s)] = None
      work.append((i, s))
    return k

  def sname(s):
    if not isinstance(s, ItemId):
      return s
    return name(s, 'SCHEMA')

  top = (_map(lambda x: name(x, ds._s), ds._nd, ds._v), ds._nd,
         sname(ds._s) if schemas or not isinstance(ds._s, ItemId) else None)
  rows = []
  while work:
    i, s = work.pop(0)
    if s == 'SCHEMA' or s == DType('SCHEMA'):
      if s == DType('SCHEMA'):
        name(i, 'SCHEMA')
        continue
      d = []
      for k, v in sorted(b._a.get(i, {}).items()):
        if v is REMOVED:
          continue
        if k == '__schema_metadata__':
          d.append((k, name(v, DType('OBJECT'))))
        else:
          d.append((k, sname(v)))
      rows.append((name(i, s), 'schema', d))
      continue
    if s == DType('OBJECT'):
      o = b._attr(i, '__schema__')
      if isinstance(o, ItemId):
        rows.append((name(i, s), 'obj', sname(o) if schemas else None))
        name(i, o)
      continue
    if not isinstance(s, ItemId):
      continue
    if _is_list_schema(s, b):
      e = b._attr(s, '__items__')
      rows.append((name(i, s), 'list', [name(x, e) for x in b._l.get(i, ())]))
    elif _is_dict_schema(s, b):
      ks, vs = b._attr(s, '__keys__'), b._attr(s, '__values__')
      es = [(k, v) for k, v in b._d.get(i, {}).items() if v is not REMOVED]
      es.sort(key=lambda kv: repr(kv[0]) if ids or isinstance(kv[0], V) else '')
      rows.append((name(i, s), 'dict', [(name(k, ks), name(v, vs)) for k, v in es]))
    else:
      d = []
      for k, e in sorted(b._a.get(s, {}).items()):
        if k.startswith('__') or e is REMOVED:
          continue
        v = _val(b._attr(i, k))
        if schemas:
          d.append((k, sname(e), name(v, e)))
        elif v is not None:
          d.append((k, name(v, e)))
      rows.append((name(i, s), 'entity', d))
  if ids:
    rows.sort(key=repr)
  return (top, rows)


def assert_equivalent(actual, expected, *, partial=False, ids_equality=False,
                      schemas_equality=False, msg=None):
  if partial:
    raise core.ShimGap('assert_equivalent(partial)')
  if isinstance(actual, DataBag) or isinstance(expected, DataBag):
    return assert_equal(actual, expected)
  if not isinstance(actual, DataSlice) or not isinstance(expected, DataSlice):
    raise AssertionError(f'{actual!r} vs {expected!r}')
  a, e = (canon(x, ids=ids_equality, schemas=schemas_equality) for x in (actual, expected))
  if a != e:
    raise AssertionError(f'not equivalent:\n{a}\n{e}')


# -- serialization -------------------------------------------------------------
def _get_fs(fs):
  if fs is None:
    from koladata.file_io import file_io
    fs = file_io.get_default_file_system_interaction()
  return fs


_MAGIC = b'MINIKD1'


def dumps(x, /, *, riegeli_options=None):
  if isinstance(x, DataBag):
    data = ('bag', x._a, x._l, x._d)
  elif isinstance(x, DataSlice):
    b = x._bag
    if b is not None:
      try:
        b = x.extract()._bag
      except ValueError:
        pass
    data = ('slice', x._v, x._nd, x._s, None if b is None else (b._a, b._l, b._d))
  else:
    raise core.ShimGap('dump')
  p = pickle.dumps(data)
  return _MAGIC + hashlib.sha1(p).digest() + p


def loads(raw, /):
  if not raw.startswith(_MAGIC) or hashlib.sha1(raw[27:]).digest() != raw[7:27]:
    raise ValueError('corrupted file')
  data = pickle.loads(raw[27:])
  if data[0] == 'bag':
    return DataBag(*data[1:])
  _, v, nd, s, b = data
  return DataSlice._make(v, nd, s, None if b is None else DataBag(*b))


def dump(x, path, /, *, overwrite=False, riegeli_options=None, fs=None):
  fs = _get_fs(fs)
  if not overwrite and fs.exists(path):
    raise ValueError(f'File {path} already exists.')
  raw = dumps(x)
  with fs.open(path, 'wb') as f:
    f.write(raw)


def load(path, /, *, fs=None):
  fs = _get_fs(fs)
  with fs.open(path, 'rb') as f:
    return loads(f.read())


# -- module assembly -----------------------------------------------------------
class _Gap(pytypes.ModuleType):

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise core.ShimGap(f'{self.__name__}.{name}')


def _ns(name, **kw):
  m = _Gap(name)
  m.__dict__.update(kw)
  return m


def _cast_fn(t):
  def f(x):
    return to_slice(x, _schema(DType(t), None))
  return f


def _compliant(name):
  return name.isidentifier() and not name.startswith('_') and not hasattr(DataSlice, name) and (
      name not in _REAL_NAMES)


def install():
  """Installs this model as `koladata.kd` (and returns it)."""
  if 'koladata.kd' in sys.modules:
    return sys.modules['koladata.kd']
  import koladata
  from koladata.file_io import file_io
  kd = _Gap('koladata.kd')
  d = kd.__dict__
  for t in _PRIMITIVES + ('ITEMID', 'SCHEMA', 'OBJECT', 'NONE'):
    d[t] = _schema(DType(t), None)
  d['int32'], d['int64'] = _cast_fn('INT32'), _cast_fn('INT64')
  d['float32'], d['float64'] = _cast_fn('FLOAT32'), _cast_fn('FLOAT64')
  d['present'] = DataSlice._make(MASK_PRESENT, 0, DType('MASK'), None)
  d['missing'] = DataSlice._make(None, 0, DType('MASK'), None)
  d['slice'], d['item'] = slice_, item
  d['str'], d['bytes'] = _cast_fn('STRING'), _cast_fn('BYTES')
  d['bool'] = _cast_fn('BOOLEAN')
  d['types'] = _ns('kd.types', DataSlice=DataSlice, DataItem=DataItem, SchemaItem=SchemaItem,
                   ListItem=ListItem, DictItem=DictItem, DataBag=DataBag, JaggedShape=JaggedShape)
  fns = dict(
      new=new, uu=uu, obj=obj, list=list_, dict=dict_, implode=implode, has=has, has_not=has_not,
      maybe=maybe, get_attr=get_attr, has_attr=has_attr, dir=dir_, unique=unique,
      expand_to_shape=expand_to_shape, list_append_update=list_append_update,
      dict_update=dict_update, list_size=list_size, agg_any=agg_any, any=any_, all=all_,
      is_item=is_item, is_empty=is_empty, encode_itemid=encode_itemid, hash_itemid=hash_itemid,
      attrs=attrs, attr=attr, metadata=metadata, with_metadata=with_metadata,
      get_metadata=get_metadata, named_schema=named_schema, uu_schema=uu_schema,
      list_schema=list_schema, dict_schema=dict_schema, new_itemid=new_itemid, uuid=uuid,
      val_like=val_like, translate_group=translate_group,
      bag=lambda: DataBag(), mutable_bag=lambda: DataBag(mutable=True),
      stub=lambda x, attrs=None: to_slice(x).stub(attrs),
      extract=lambda x, schema=None: to_slice(x).extract(schema),
      extract_update=lambda x: to_slice(x).extract_update(),
      updated=lambda x, *b: to_slice(x).updated(*b),
      enriched=lambda x, *b: to_slice(x).enriched(*b),
      with_attrs=lambda x, /, **k: to_slice(x).with_attrs(**k),
      with_attr=lambda x, n, v, **k: to_slice(x).with_attr(n, v, **k),
      get_itemid=lambda x: to_slice(x).get_itemid(),
      get_schema=lambda x: to_slice(x).get_schema(),
      get_bag=lambda x: to_slice(x).get_bag(),
      get_shape=lambda x: to_slice(x).get_shape(),
      get_keys=lambda x: to_slice(x).get_keys(),
      get_values=lambda x: to_slice(x).get_values(),
      get_item_schema=lambda x: to_slice(x).get_item_schema(),
      get_key_schema=lambda x: to_slice(x).get_key_schema(),
      get_value_schema=lambda x: to_slice(x).get_value_schema(),
      explode=lambda x, ndim=1: to_slice(x).explode(ndim),
      flatten=lambda x: to_slice(x).flatten(),
      no_bag=lambda x: to_slice(x).no_bag(),
      with_bag=lambda x, b: to_slice(x).with_bag(b),
      with_schema=lambda x, s: to_slice(x).with_schema(s),
      is_primitive=lambda x: to_slice(x).is_primitive(),
      freeze_bag=lambda x: to_slice(x).freeze_bag(),
      select=lambda x, f: to_slice(x).select(f),
      to_py=lambda x, **k: to_slice(x).to_py(**k),
      to_pytree=lambda x, **k: to_slice(x).to_pytree(**k),
      encode_itemid_=None,
  )
  fns.pop('encode_itemid_')
  d.update(fns)
  d['lists'] = _ns('kd.lists', size=list_size, list_append_update=list_append_update, new=list_,
                   implode=implode, explode=fns['explode'])
  d['dicts'] = _ns('kd.dicts', dict_update=dict_update, new=dict_, get_keys=fns['get_keys'],
                   get_values=fns['get_values'])
  d['core'] = _ns('kd.core', get_metadata=get_metadata, metadata=metadata, attrs=attrs,
                  with_metadata=with_metadata, get_attr=get_attr, has_attr=has_attr, stub=fns['stub'],
                  extract=fns['extract'], get_itemid=fns['get_itemid'])
  d['schema'] = _ns(
      'kd.schema', new_schema=new_schema, named_schema=named_schema, uu_schema=uu_schema,
      list_schema=list_schema, dict_schema=dict_schema, is_entity_schema=is_entity_schema,
      is_list_schema=lambda s: to_slice(s).is_list_schema(),
      is_dict_schema=lambda s: to_slice(s).is_dict_schema(),
      is_struct_schema=lambda s: to_slice(s).is_struct_schema(),
      is_primitive_schema=lambda s: to_slice(s).is_primitive_schema(),
      get_schema=fns['get_schema'], get_item_schema=fns['get_item_schema'],
      to_bool=_cast_fn('BOOLEAN'))
  d['entities'] = _ns('kd.entities', new=new, uu=uu)
  d['bags'] = _ns('kd.bags', updated=updated_bags, enriched=enriched_bags, new=lambda: DataBag())
  d['ids'] = _ns('kd.ids', encode_itemid=encode_itemid, uuid=uuid)
  d['masking'] = _ns('kd.masking', has=has, has_not=has_not, any=any_, all=all_, agg_any=agg_any)
  d['slices'] = _ns('kd.slices', internal_is_compliant_attr_name=_compliant, unique=unique,
                    expand_to_shape=expand_to_shape, is_empty=is_empty)
  d['strings'] = _ns(
      'kd.strings', encode=_strf(lambda s: s.encode('utf-8', 'surrogatepass'), 'STRING', 'BYTES'),
      decode=_strf(_dec, 'BYTES', 'STRING'),
      encode_base64=_strf(lambda b: base64.b64encode(b).decode(), 'BYTES', 'STRING'),
      decode_base64=_strf(_b64d, 'STRING', 'BYTES'), contains=_contains)
  d['testing'] = _ns('kd.testing', assert_equal=assert_equal, assert_equivalent=assert_equivalent)
  d['s11n'] = _ns('kd.s11n', dump=dump, load=load, dumps=dumps, loads=loads)
  from koladata.file_io import fs_implementation
  from koladata.file_io import fs_interface
  d['file_io'] = _ns(
      'kd.file_io', FileSystemInterface=fs_interface.FileSystemInterface,
      FileSystemInteraction=fs_implementation.FileSystemInteraction,
      get_default_file_system_interaction=file_io.get_default_file_system_interaction)
  if 're2' not in sys.modules:
    import re
    sys.modules['re2'] = re  # google-re2's compile/fullmatch/search subset

  class _I:

    def __getattr__(self, n):
      return ('I', n)
  d['I'] = _I()
  d['expr'] = _ns('kd.expr', pack_expr=lambda e: DataSlice._make(
      V('EXPR', repr(e)), 0, DType('EXPR'), None))
  sys.modules['koladata.kd'] = kd
  koladata.kd = kd
  return kd
