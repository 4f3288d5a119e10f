"""J01-J03: JSON stream processors (koladata/internal/op_utils/json_stream.*).

The real processors are compiled from the current tree into cc/json_driver.cc and
driven exhaustively; what is expected comes from RFC 8259, JSON5 and Python, as
written here and in the driver's own strict validator.
"""

import functools
import itertools
import json
import re
import struct
from decimal import Decimal
from fractions import Fraction

from mc import core
from mc import cxx

SRC = ['koladata/internal/op_utils/json_stream.cc']
PROCS = ('salvage', 'head', 'prettify', 'compactify', 'nonempty_objects', 'nonempty_arrays', 'nonnull',
         'extract', 'implode', 'explode', 'nth', 'unquote', 'quote', 'chunk')
EXE = {}


def driver():
  if 'exe' not in EXE:
    EXE['exe'] = cxx.build('json_driver', 'json_driver.cc', SRC, libs=cxx.ABSL + ['icuuc'])
  return EXE['exe']


def req(proc, chunks, n=0, flags=0, indent='', paths=(), mode=0):
  out = [struct.pack('<BBBq', PROCS.index(proc), mode, flags, n)]

  def s(x):
    b = cxx.text(x)
    out.append(struct.pack('<I', len(b)))
    out.append(b)

  s(indent)
  out.append(struct.pack('<I', len(paths)))
  for p in paths:
    out.append(struct.pack('<I', len(p)))
    for k in p:
      if isinstance(k, int):
        out.append(struct.pack('<Bq', 0, k))
      else:
        out.append(b'\x01')
        s(k)
  if isinstance(chunks, (str, bytes)):
    chunks = [chunks]
  out.append(struct.pack('<I', len(chunks)))
  for c in chunks:
    s(c)
  return b''.join(out)


class Batch:
  """Sends requests and hands (ended_at, [chunks per input], chunking error) back."""

  def __init__(self, ctx, label):
    self.ctx = ctx
    self.label = label
    self.reqs = []
    self.backs = []

  def add(self, data, back):
    self.reqs.append(data)
    self.backs.append(back)
    if len(self.reqs) >= 20000:
      self.flush()

  def flush(self):
    if not self.reqs:
      return
    rc, out, err = cxx.run(driver(), ['batch'], b''.join(self.reqs) + b'\xff')
    i, done = 0, 0

    def num():
      nonlocal i
      (v,) = struct.unpack_from('<i', out, i)
      i += 4
      return v

    def st():
      nonlocal i
      n = num()
      if i + n > len(out):
        raise struct.error()
      i += n
      return out[i - n:i]

    backs, self.reqs, self.backs = self.backs, [], []
    try:
      for back in backs:
        ended, per = num(), []
        for _ in range(num()):
          per.append([st() for _ in range(num())])
        bad = st()
        done += 1
        back(ended, per, bad)
      self.ctx.transitions += num()
    except struct.error:
      self.ctx.violation('crash', f'{self.label}: the processor crashed (rc={rc}) or hung after {done} of {len(backs)} inputs: '
                         f'{err[-300:]!r}', {'rc': rc})


def joined(per):
  return b''.join(c for v in per for c in v)


# ---------------------------------------------------------------- J01
ALPHABETS = {
    'structure': ['{', '}', '[', ']', '(', ')', ',', ':', '"', 'a', '1', '-', '`', "'", ' ', '/'],
    'strings': ['"', "'", '`', '\\', 'a', 'n', 'u', 'd83d', 'dc00', '\n', '\t', '\x01', 'é', '{', '}', ' ', 'x'],
    'numbers': ['0', '1', '-', '+', '.', 'e', 'x', 'b', 'o', '_', 'n', 'f', ',', '[', '{', ':', ' '],
    'utf8': [b'"', b'\xc3', b'\xa9', b'\xe2', b'\x82', b'\xff', b'\\', b'[', b'\xf0', b'\x9f', b'a', b'\xed', b'\xa0'],
    'comments': ['/', '*', '#', '\n', '\r', '1', 'a', '{', '"', ':', ',', ' ', '['],
    'atoms': ['true', 'nul', 'null', 'NaN', '-', '+', 'Infinity', 'n', 'b', 'u', '"', "'", '{', ':', ',', ' ', ']'],
    'escapes': ['\\', '0', '7', '{', '}', 'U', 'x', 'u', 'd8', 'dc', '00', 'f', '"', 'q', '\r', '\n', '\x02'],
}
PREFIXES = {
    'structure': ['', '{"k":', '[[1,{"a":2,'],
    'strings': ['', '{', '"""', "['"],
    'numbers': ['', '{', '{"k":', '[1,'],
    'utf8': ['', '"', '{'],
    'comments': ['', '{"a":', '{'],
    'atoms': ['', '{', '{"a":'],
    'escapes': ['"', "'''", '{"', '[`'],
}


def run_j01(ctx):
  ctx.rule = ('every string of up to k tokens of seven alphabets behind up to four prefixes, x options; each string token by '
              'token, as one chunk, ended after every prefix')
  exe = driver()

  def hx(s):
    return cxx.text(s).hex()

  runs = []
  for name, toks in ALPHABETS.items():
    for pi, prefix in enumerate(PREFIXES[name]):
      for flags in range(4):
        for md in (100, 2, 1, 0):
          depth = 4 if ctx.quick else 5
          if pi == 0 and (flags, md) in ((0, 100), (3, 2)):
            depth += 1
          if pi and md == 0:
            continue
          runs.append((name, prefix, flags, md, depth))
  for name, prefix, flags, md, depth in runs:
    rc, out, err = cxx.run(exe, ['enum', str(depth), str(flags), str(md), hx(prefix) or '-', *[hx(t) for t in ALPHABETS[name]]],
                           timeout=300 if ctx.quick else 3000)
    if rc != 0:
      ctx.violation('crash', f'salvage crashed or hung (rc={rc}) on an input of alphabet {name} after {prefix!r}: {err[-300:]!r}',
                    {'alphabet': ALPHABETS[name], 'prefix': prefix})
      return
    for line in out.decode('utf-8', 'replace').splitlines():
      f = line.split('\t')
      if f[0] == 'NODES':
        ctx.states += int(f[1])
        ctx.transitions += int(f[1])
        ctx.traces += int(f[1])
      elif f[0] == 'BAD':
        inp, res = bytes.fromhex(f[5]), bytes.fromhex(f[6])
        ctx.violation(f[1], f'salvage of {inp!r} (allow_nan={f[2]}, ensure_ascii={f[3]}, max_depth={f[4]}) gives {res!r}: {f[1]}',
                      {'input_hex': f[5], 'output_hex': f[6]})
    ctx.outcome((name, prefix, flags, md))
  ctx.note(enumerations=len(runs))
  # All 2^(n-1) splits of short texts (tokens cut in the middle, as well).
  b = Batch(ctx, 'salvage and quote')
  toks = ['"', '\\', '[', ']', '{', '}', ',', ':', '1', 'n', '\n', ' ', '\\u', 'd83d', 'é'] if ctx.quick else \
      ['"', '\\', '[', ']', '{', '}', ',', ':', '1', 'n', '\n', ' ', '\\u', 'd83d', 'dc00', 'é', 'null', '\t']
  for proc in ('salvage', 'quote'):
    for k in range(0, 4):
      for t in itertools.product(toks, repeat=k):
        s = ''.join(t)

        def back(ended, per, bad, s=s, proc=proc):
          if bad:
            ctx.violation('chunking:' + proc, f'{proc}: {cxx.text(s)!r}: {bad.decode("utf-8", "replace")}')

        ctx.states += 1
        ctx.traces += 1
        b.add(req(proc, s, n={'salvage': 100, 'head': 1, 'nth': 1}.get(proc, 0), indent='  ', mode=1), back)
  b.flush()
  ctx.sample({'alphabet': 'strings', 'example': '"\\ud83d'})


# ---------------------------------------------------------------- J02
class Num(Fraction):
  pass


def num_value(t):
  t = t.replace('_', '')
  sign = 1
  if t[0] in '+-':
    sign = -1 if t[0] == '-' else 1
    t = t[1:]
  if t[:2].lower() in ('0x', '0o', '0b'):
    return sign * Fraction(int(t.rstrip('nlL'), 0))
  t = t.rstrip('nlL')
  return sign * Fraction(Decimal(t))


ESC = re.compile(
    r'\\(?:(?P<oct>[0-7]{1,3})|x(?P<x>[0-9a-fA-F]{2})|u\{(?P<b>[0-9a-fA-F]+)\}|u(?P<u>[0-9a-fA-F]{4})|U(?P<U>[0-9a-fA-F]{8})'
    r'|(?P<eol>\r\n|[\n\r\u2028\u2029])|(?P<c>.))|(?P<raw>.)', re.S)
SIMPLE = {'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, 'a': 7, '"': 34, "'": 39, '\\': 92, '/': 47}


def decode(body):
  """Code points of a string literal body (JSON5 + Python + JavaScript escapes)."""
  units = []
  for m in ESC.finditer(body):
    g = m.groupdict()
    if g['oct']:
      units.append(int(g['oct'], 8))
    elif g['x'] or g['b'] or g['u'] or g['U']:
      units.append(int(g['x'] or g['b'] or g['u'] or g['U'], 16))
    elif g['eol']:
      pass
    elif g['c']:
      units.append(SIMPLE[g['c']])
    else:
      units.append(ord(g['raw']))
  out, i = [], 0
  while i < len(units):
    u = units[i]
    if 0xD800 <= u < 0xDC00 and i + 1 < len(units) and 0xDC00 <= units[i + 1] < 0xE000:
      out.append(0x10000 + ((u - 0xD800) << 10) + (units[i + 1] - 0xDC00))
      i += 2
      continue
    out.append(0xFFFD if 0xD800 <= u < 0xE000 else u)
    i += 1
  return tuple(out)


def canon(v):
  """Comparable form of a parsed output value."""
  if isinstance(v, str):
    return ('s', tuple(map(ord, v)))
  if v is None or isinstance(v, bool):
    return ('a', v)
  if isinstance(v, list):
    return ('l', tuple(canon(x) for x in v))
  return v


NAN, INF, NINF = ('f', 'NaN'), ('f', 'Infinity'), ('f', '-Infinity')
DEC = json.JSONDecoder(
    parse_int=lambda t: ('n', Fraction(t)), parse_float=lambda t: ('n', Fraction(Decimal(t))),
    parse_constant=lambda t: ('f', t),
    object_pairs_hook=lambda ps: ('o', tuple((tuple(map(ord, k)), canon(v)) for k, v in ps)))


def parse_stream(out):
  """Canonical values of newline-separated JSON, or a text saying what is wrong."""
  try:
    s = out.decode('utf-8')
  except UnicodeDecodeError as e:
    return f'output is not UTF-8: {e}'
  vals, i = [], 0
  ws = re.compile(r'[ \t\r\n]*')
  while True:
    m = ws.match(s, i)
    j = m.end()
    if j == len(s):
      return vals
    if vals and '\n' not in s[i:j]:
      return f'values not separated by newlines in {s!r}'
    try:
      v, i = DEC.raw_decode(s, j)
    except ValueError as e:
      return f'output {s!r} is not JSON: {e}'
    vals.append(canon(v))


def lit_str(q, body, prefix=''):
  return (prefix + q + body + q, ('s', decode(body)))


JSON_ESC = ['\\"', '\\\\', '\\/', '\\b', '\\f', '\\n', '\\r', '\\t', '\\u0041', '\\u00e9', '\\u2028', '\\uD83d', '\\ude00', '\\u0000',
            '\\u000a', '\\u0022', '\\u005c', '\\uFFFF']
JSON_RAW = ['a', ' ', '/', 'é', '\u2028', '\U0001f600', '\x7f', '{', ':', "'", '7', '\ufeff']
MORE_ESC = ["\\'", '\\v', '\\0', '\\x41', '\\xe9', '\\\n', '\\\r\n', '\\\r', '\\\u2029', '\\a', '\\12', '\\101', '\\377', '\\U0001F600',
            '\\u{41}', '\\u{1F600}', '\\x22']


def string_literals(ctx):
  """(text, expected) of string spellings, exhaustively over element sequences."""
  def bodies(elems, k):
    for n in range(k + 1):
      for t in itertools.product(elems, repeat=n):
        yield ''.join(t)

  full = 3 if ctx.quick else 4
  for body in bodies(JSON_ESC + JSON_RAW, 3):
    yield 'json', lit_str('"', body)
  small = ['\\\\', '\\n', '\\u0041', '\\uD83d', '\\ude00', '\\"', "\\'", '"', "'", 'a', '7', '\\x41', '\\12', '\\0', '\\\n', '\\\r',
           '\\u{1F600}', '\\U0001F600', '\\a', '\\v', '\\/', '\\377', 'é', '\n', '{', '\\\r\n']
  for q in ('"', "'"):
    for body in bodies([e for e in small if e not in (q, '\n')], full):
      yield 'json5', lit_str(q, body)
    for body in bodies(JSON_RAW + JSON_ESC + MORE_ESC, 2):
      if q not in re.sub(r'\\.', '', body, flags=re.S):
        yield 'json5', lit_str(q, body)
  for q in ('"""', "'''"):
    for body in bodies(small, full):
      # Neither a closing quote inside nor a quote right before the closing one.
      bare = re.sub(r'\\.', '..', body, flags=re.S)
      if q in bare or bare.endswith(q[0]):
        continue
      yield 'python', lit_str(q, body)
  for p in ('b', 'u'):
    for q in ('"', "'", '"""', "'''"):
      for body in bodies(['a', '\\n', '\\x41', '\\\\', 'b', ' '], 3):
        yield 'python', lit_str(q, body, p)


def numbers():
  """(text, value, kind)."""
  out = {}
  ints = ['0', '1', '10', '12', '907', '9' * 40, '1' + '0' * 30]
  fracs = ['', '.0', '.5', '.05', '.5' + '0' * 25 + '1']
  exps = ['', 'e0', 'e5', 'E5', 'e+5', 'E-5', 'e-05', 'e+00', 'e100']
  for s in ('', '-'):
    for i, f, e in itertools.product(ints, fracs, exps):
      out[s + i + f + e] = 'json'
  for s in ('', '-', '+'):
    for i, f, e in itertools.product(ints, fracs + ['.'], exps):
      if s == '+' or f == '.':
        out.setdefault(s + i + f + e, 'json5')
    for f, e in itertools.product(fracs[1:], exps):
      out[s + f + e] = 'json5'
    for h in ('0x0', '0x1', '0XfF', '0xDEADbeef', '0xffffffffffffffff', '0x00e1', '0x1e5'):
      out[s + h] = 'json5'
    for h in ('0o7', '0O17', '0b1', '0B101', '0o1777777777777777777777', '0b' + '1' * 64, '0x_f', '0xf_f', '0o1_7', '0b_1_0',
              '1_0', '1_000_000', '0_0', '1_0.5', '1.0_5', '1.5e1_0', '00', '000', '1n', '10l', '12L', '0n', '0x1fn', '0xfL', '0o17l', '0b11n', '1_0n'):
      out[s + h] = 'python'
  res = []
  for t, k in out.items():
    res.append((t, ('n', num_value(t)), k))
  return res


ATOMS = [('true', ('a', True)), ('false', ('a', False)), ('null', ('a', None))]
PY_ATOMS = [('True', ('a', True)), ('False', ('a', False)), ('None', ('a', None))]
NANS = [('NaN', NAN), ('Infinity', INF), ('-Infinity', NINF), ('+Infinity', INF), ('-NaN', NAN), ('+NaN', NAN)]
# Gaps between tokens.
JSON_WS = ['', ' ', '\n', '\t\r\n ']
GAPS = ['', ' ', '\n', '\r\n', '\t', '\x0b', '\x0c', '\u00a0', '\ufeff', '\u2028', '\u2029', '\u3000', '/**/', '/* c */', '/***/', '/* c **/',
        '/** c */', '/* * / ** /*/', '/*"*/', "/*\\*/", '//c\n', '//\n', '// /*\r', '//c\u2028', '#c\n', '#\r\n', '#"\n', '//"[\n', ' /* a */ // b\n ', '/*é*/']


def shapes(leaves):
  """Documents around leaves: (list of token/gap positions) as functions of a gap."""
  for (a, va), (b, vb) in itertools.product(leaves, repeat=2):
    yield ['[', a, ',', b, ']'], [('l', (va, vb))], 1
    yield ['[', a, ',', b, ',', ']'], [('l', (va, vb))], 1
    yield ['(', a, ',', b, ')'], [('l', (va, vb))], 1
  for a, va in leaves:
    yield [a], [va], 0
    yield ['[', a, ']'], [('l', (va,))], 1
    yield ['(', a, ',', ')'], [('l', (va,))], 1
    yield ['[', '[', a, ']', ',', '{', '}', ',', '(', ')', ']'], [('l', (('l', (va,)), ('o', ()), ('l', ())))], 2
    for k, vk in KEYS:
      yield ['{', k, ':', a, '}'], [('o', ((vk, va),))], 1
      yield ['{', k, ':', a, ',', '"z"', ':', '[', a, ',', ']', ',', '}'], [('o', ((vk, va), ((122,), ('l', (va,)))))], 2


def key(k):
  return tuple(map(ord, k))


KEYS = [('"k"', key('k')), ("'k'", key('k')), ('k', key('k')), ('$_1', key('$_1')), ('é', key('é')), ('true', key('true')),
        ('null', key('null')), ('NaN', key('NaN')), ('Infinity', key('Infinity')), ('b', key('b')), ('u', key('u')), ('""', ()),
        ('"a\\u0062"', key('ab')), ("'''t'''", key('t')), ('u"k"', key('k')), ('nulls', key('nulls')), ('t', key('t'))]
IDENT = re.compile(r'[\w$]+$')


def run_j02(ctx):
  ctx.rule = ('all literal spellings up to the stated number of elements, all contexts of a literal x gaps, all documents up to a '
              'size in every uniform style; whole, byte by byte and at every single cut')
  driver()
  jobs = [('strings', i) for i in range(8)] + [('numbers', 0), ('gaps', 0), ('gaps', 1), ('gaps', 2), ('pairs', 0), ('trees', 0), ('trees', 1),
                                               ('trees', 2), ('trees', 3), ('known', 0)]
  core.parallel(ctx, j02_job, jobs)


def expect(ctx, b, kind, text, want, flags=2, md=100, mode=2, known=None):
  # known: (finding key, the recorded wrong value)
  ctx.states += 1
  ctx.traces += 1

  def back(ended, per, bad):
    out = joined(per)
    opts = f'allow_nan={bool(flags & 1)}, ensure_ascii={bool(flags & 2)}, max_depth={md}'
    if bad:
      ctx.violation('chunking', f'salvage of {text!r} ({opts}) depends on the split: {bad.decode("utf-8", "replace")}', {'input': text})
    got = parse_stream(out)
    ctx.outcome((kind, len(want)))
    if got != want:
      ctx.violation(known[0] if known and got == known[1] else 'value:' + kind, f'salvage of {kind} {text!r} ({opts}) gives {out!r}, which is {got!r}; expected {want!r}',
                    {'input': text})
    elif flags & 2 and any(c >= 128 for c in out):
      ctx.violation('ascii', f'salvage of {text!r} with ensure_ascii gives {out!r}', {'input': text})
    if ended != 1:
      ctx.violation('end', f'salvage of {text!r}: the output ends at input chunk {ended}, not at the end of the input')

  b.add(req('salvage', text, n=md, flags=flags, mode=mode), back)


def j02_job(ctx, job):
  what, part = job
  b = Batch(ctx, 'salvage')
  if what == 'strings':
    for i, (kind, (t, v)) in enumerate(string_literals(ctx)):
      if i % 8 != part:
        continue
      fl = 2 if i % 3 else 0
      expect(ctx, b, kind + ' string', t, [v], flags=fl, mode=1 if len(t) <= 7 else 2)
      if len(t) <= 8:
        expect(ctx, b, kind + ' string', t, [v], flags=2 - fl)
        expect(ctx, b, kind + ' string', '{' + t + ':[' + t + ']}', [('o', ((v[1], ('l', (v,))),))], flags=fl)
  elif what == 'numbers':
    for t, v, kind in numbers():
      for fl in (0, 1, 2, 3):
        expect(ctx, b, kind + ' number', t, [v], flags=fl)
      for pre, post, f in [('[', ']', lambda v: [('l', (v,))]), ('{"a":', '}', lambda v: [('o', ((key('a'), v),))]),
                           ('', '\n', lambda v: [v]), ('[', ',]', lambda v: [('l', (v,))]), ('[1,', ' ]', lambda v: [('l', (('n', Fraction(1)), v))]),
                           ('', ' "a"', lambda v: [v, ('s', (97,))]), ('[', '/**/]', lambda v: [('l', (v,))]), ('', '//c', lambda v: [v]),
                           ('[', '#\n]', lambda v: [('l', (v,))]), ('"a" ', ' null', lambda v: [('s', (97,)), v, ('a', None)])]:
        expect(ctx, b, kind + ' number', pre + t + post, f(v))
    for t, v in ATOMS + PY_ATOMS:
      for fl in range(4):
        for pre, post, f in [('', '', lambda v: [v]), ('[', ']', lambda v: [('l', (v,))]), ('{"a":', '}', lambda v: [('o', ((key('a'), v),))]),
                             ('', ' 1', lambda v: [v, ('n', Fraction(1))]), ('[', ',' + t + ']', lambda v: [('l', (v, v))])]:
          expect(ctx, b, 'literal', pre + t + post, f(v), flags=fl)
    for t, v in NANS:
      for fl in range(4):
        w = v if fl & 1 else ('s', key(t))
        for pre, post, f in [('', '', lambda v: [v]), ('[', ']', lambda v: [('l', (v,))]), ('{"a":', '}', lambda v: [('o', ((key('a'), v),))]),
                             ('', '\n1', lambda v: [v, ('n', Fraction(1))]), ('[', ', ' + t + ']', lambda v: [('l', (v, v))])]:
          expect(ctx, b, 'non-finite literal', pre + t + post, f(w), flags=fl)
  elif what == 'gaps':
    leaves = [('1', ('n', Fraction(1))), ('"s"', ('s', (115,))), ("''", ('s', ())), ('-.5', ('n', Fraction(-1, 2))), ('null', ('a', None)),
              ('{}', ('o', ())), ('0x1f', ('n', Fraction(31))), ("'''t'''", ('s', (116,)))]
    # One gap text at each single position, and everywhere.
    for i, (toks, want, depth) in enumerate(shapes(leaves if not ctx.quick else leaves[:5])):
      if i % 3 != part:
        continue
      for g in GAPS:
        for pos in [None, *range(len(toks) + 1)]:
          parts = []
          ok = True
          for j in range(len(toks) + 1):
            here = g if pos in (None, j) else ''
            if j and here[:1] in ('/', '#') and IDENT.match(toks[j - 1]) and j < len(toks) and toks[j] == ':':
              ok = False  # recorded deviation: comment right behind an unquoted key
            parts.append(here)
            if j < len(toks):
              parts.append(toks[j])
          if ok:
            expect(ctx, b, 'document', ''.join(parts), want, md=100 if pos else depth + ('{}' in toks))
  elif what == 'pairs':
    leaves = [('1', ('n', Fraction(1))), ('"s"', ('s', (115,))), ("'x'", ('s', (120,))), ('null', ('a', None)), ('{}', ('o', ())), ('[2]', ('l', (('n', Fraction(2)),))),
              ('-0', ('n', Fraction(0))), ('0b1', ('n', Fraction(1))), ('True', ('a', True)), ('1.', ('n', Fraction(1))), ('""', ('s', ())), ("''''''", ('s', ()))]
    for x, y, z in itertools.product(leaves, repeat=3):
      for g in (' ', '\n', '/**/ ', '\n#c\n', '\u2028'):
        expect(ctx, b, 'sequence', g.join((x[0], y[0], z[0])), [x[1], y[1], z[1]])
    for x, y in itertools.product(leaves, repeat=2):
      for g in GAPS:
        if g and (g[0] not in '/#' or x[0] not in ('null', 'True')):
          expect(ctx, b, 'sequence', x[0] + g + y[0] + g, [x[1], y[1]])
      # A complete value is emitted before the next one starts.
      ctx.states += 1

      def back(ended, per, bad, x=x, y=y):
        got = parse_stream(b''.join(per[0]))
        if got != [x[1]]:
          ctx.violation('delay', f'salvage: after the input {x[0]!r} + newline the output is {b"".join(per[0])!r}; the value is complete and must be there')

      b.add(req('salvage', [x[0] + '\n', y[0]], n=100), back)
  elif what == 'trees':
    leaf = [('1', ('n', Fraction(1))), ('"a\\n"', ('s', (97, 10))), ('null', ('a', None))]
    size = 4 if ctx.quick else 5
    for i, t in enumerate(gen_trees(leaf, size)):
      if i % 4 != part:
        continue
      v, d = tree_value(t), tree_depth(t)
      for br in ('[]', '()'):
        for tc in (False, True):
          for ks in ('"%s"', "'%s'", '%s'):
            for g in ('', ' ', '\n', '/*,]}*/'):
              if g[:1] == '/' and ks == '%s':
                continue
              text = render(t, br, tc, ks, g)
              expect(ctx, b, 'tree', text, [v], flags=2 if g else 0, md=d if tc else 100, mode=2 if len(text) < 24 else 0)
  elif what == 'known':
    # JSON5 forms that the processor is recorded not to read (known findings).
    one = ('n', Fraction(1))
    for t, k, bad in [('{a\\u0062:1}', 'ab', 'a\\u0062'), ('{\\u0061:1}', 'a', '\\u0061')]:
      expect(ctx, b, 'identifier with an escape', t, [('o', ((key(k), one),))], known=('ident-escape', [('o', ((key(bad), one),))]))
    for t, bad in [('{a/**/:1}', 'a/**/'), ('{a//c\n:1}', 'a//c')]:
      expect(ctx, b, 'identifier before a comment', t, [('o', ((key('a'), one),))],
             known=('ident-comment', [('o', ((key(bad), one),))]))
  b.flush()
  ctx.sample(f'{what}')


def gen_trees(leaf, size):
  """All trees of at most `size` nodes: ('x', text, value) | ('l', kids) | ('o', ((key, kid)...))."""
  @functools.lru_cache(None)
  def of(n):
    out = []
    if n == 1:
      out += [('x', t, v) for t, v in leaf] + [('l', ()), ('o', ())]
    else:
      for kids in forests(n - 1):
        out.append(('l', kids))
        out.append(('o', tuple(zip('abcdefgh', kids))))
    return tuple(out)

  @functools.lru_cache(None)
  def forests(n):
    if n == 0:
      return ((),)
    out = []
    for first in range(1, n + 1):
      for t in of(first):
        for rest in forests(n - first):
          out.append((t, *rest))
    return tuple(out)

  for n in range(1, size + 1):
    yield from of(n)


def tree_value(t):
  if t[0] == 'x':
    return t[2]
  if t[0] == 'l':
    return ('l', tuple(tree_value(k) for k in t[1]))
  return ('o', tuple((key(n), tree_value(k)) for n, k in t[1]))


def tree_depth(t):
  if t[0] == 'x':
    return 0
  return 1 + max([tree_depth(k if t[0] == 'l' else k[1]) for k in t[1]], default=0)


def render(t, br, tc, ks, g):
  if t[0] == 'x':
    return t[1]
  if t[0] == 'l':
    items = [render(k, br, tc, ks, g) for k in t[1]]
    o, c = br
  else:
    items = [(ks % n) + g + ':' + g + render(k, br, tc, ks, g) for n, k in t[1]]
    o, c = '{}'
  s = (g + ',' + g).join(items)
  if items and (tc or (o == '(' and len(items) == 1)):
    s += g + ','
  return o + g + s + g + c


# ---------------------------------------------------------------- J03
# Trees with exact leaf text; references are written on the trees.
def dumps(t):
  if t[0] == 'x':
    return t[1]
  if t[0] == 'l':
    return '[' + ','.join(dumps(k) for k in t[1]) + ']'
  return '{' + ','.join(f'"{n}":{dumps(k)}' for n, k in t[1]) + '}'


def spaced(t, w):
  if t[0] == 'x':
    return t[1]
  if t[0] == 'l':
    return '[' + w + (w + ',' + w).join(spaced(k, w) for k in t[1]) + w + ']'
  return '{' + w + (w + ',' + w).join(f'"{n}"{w}:{w}{spaced(k, w)}' for n, k in t[1]) + w + '}'


def pretty(t, ind, level=0):
  if t[0] == 'x' or not t[1]:
    return dumps(t)
  nl = '\n' + ind * (level + 1)
  if t[0] == 'l':
    return '[' + nl + (',' + nl).join(pretty(k, ind, level + 1) for k in t[1]) + '\n' + ind * level + ']'
  return '{' + nl + (',' + nl).join(f'"{n}": {pretty(k, ind, level + 1)}' for n, k in t[1]) + '\n' + ind * level + '}'


def all_paths(t, p=()):
  yield p, t
  if t[0] == 'l':
    for i, k in enumerate(t[1]):
      yield from all_paths(k, p + (i,))
  elif t[0] == 'o':
    for n, k in t[1]:
      yield from all_paths(k, p + (KEYTEXT.get(n, n),))


KEYTEXT = {'\\u0061\\"': 'a"', '\\ud83d\\ude00': '\U0001f600', 'x\\\\': 'x\\'}


def extract_ref(t, sel, p=()):
  if p in sel:
    return [(p, t)]
  out = []
  if t[0] == 'l':
    for i, k in enumerate(t[1]):
      out += extract_ref(k, sel, p + (i,))
  elif t[0] == 'o':
    for n, k in t[1]:
      out += extract_ref(k, sel, p + (KEYTEXT.get(n, n),))
  return out


def quote_ref(s):
  m = {'\\': '\\\\', '"': '\\"', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
  return '"' + ''.join(m.get(c, '\\u%04x' % ord(c) if ord(c) < 32 else c) for c in s) + '"'


LEAVES3 = [('12', None), ('"a],{\\"\\\\"', None), ('null', None), ('-1.5e3', None), ('true', None), ('""', None)]


def rename(t, names):
  """The same tree with its object keys taken from names in order."""
  it = iter(itertools.cycle(names))

  def go(t):
    if t[0] == 'x':
      return t
    if t[0] == 'l':
      return ('l', tuple(go(k) for k in t[1]))
    return ('o', tuple((next(it), go(k)) for _, k in t[1]))

  return go(t)


def run_j03(ctx):
  ctx.rule = ('all value trees up to a size, all sequences of up to three small values, all path sets, all short texts; through every '
              'transformation, whole, split at every byte and value by value')
  driver()
  core.parallel(ctx, j03_job, [(w, p) for w in ('single', 'seq', 'extract', 'text') for p in range(4)])


def j03_job(ctx, job):
  what, part = job
  b = Batch(ctx, 'transformation')

  def expect3(proc, chunks, want, mode=2, ended=None, pieces=None, **kw):
    ctx.states += 1
    ctx.traces += 1
    whole = chunks if isinstance(chunks, str) else ''.join(chunks)

    def back(e, per, bad):
      out = joined(per)
      ctx.outcome((proc, len(out) > 0))
      args = {k: v for k, v in kw.items() if k != 'flags'}
      if bad:
        ctx.violation('chunking:' + proc, f'{proc} {args} on {whole!r}: {bad.decode("utf-8", "replace")}', {'input': whole})
      if callable(want):
        ok = want(out)
      else:
        ok = out == cxx.text(want)
      if not ok:
        ctx.violation('value:' + proc, f'{proc} {args} on {whole!r} gives {out!r}' + ('' if callable(want) else f'; expected {want!r}'),
                      {'input': whole})
      n = 1 if isinstance(chunks, str) else len(chunks)
      if e != (n if ended is None else ended):
        ctx.violation('end:' + proc, f'{proc} {args} on chunks {chunks!r}: the output ends after input chunk {e}, expected {n if ended is None else ended}')
      if pieces is not None and ok:
        acc = b''
        for i, w in enumerate(pieces):
          acc += b''.join(per[i]) if i < len(per) else b''
          if acc != cxx.text(w):
            ctx.violation('delay:' + proc, f'{proc} {args}: after the first {i + 1} of the values {chunks!r} the output is {acc!r}; expected {w!r}')
            break

    b.add(req(proc, chunks, mode=mode, **kw), back)

  def lines(vals):
    return ''.join(v + '\n' for v in vals)

  def nth(t, n):
    return dumps(t[1][n]) if t[0] == 'l' and 0 <= n < len(t[1]) else 'null'

  def check_seq(seq, styles):
    cs = [dumps(t) for t in seq]
    comp = lines(cs)
    starts = [lines(cs[:i + 1]) for i in range(len(cs))]
    chunks = [c + '\n' for c in cs]
    # Input that is already compact.
    for n in (0, 1, 2, 3, 2**40) if len(seq) > 1 else (0, 1, 2):
      if n <= len(cs):
        expect3('head', chunks, lines(cs[:n]), n=n, ended=max(n - 1, 0) if cs else 0, mode=2,
                pieces=[lines(cs[:min(i + 1, n)]) for i in range(len(cs))])
      else:
        expect3('head', chunks, comp, n=n, pieces=starts)
    sel = {'nonempty_objects': lambda t: t[0] == 'o' and t[1], 'nonempty_arrays': lambda t: t[0] == 'l' and t[1],
           'nonnull': lambda t: not (t[0] == 'x' and t[1] == 'null')}
    for proc, f in sel.items():
      kept = [lines(dumps(t) for t in seq[:i + 1] if f(t)) for i in range(len(seq))]
      expect3(proc, chunks, kept[-1] if kept else '', pieces=kept)
    expect3('implode', chunks, '[' + ','.join(cs) + ']\n')
    # Any whitespace.
    for w, sep in styles:
      sp = [spaced(t, w) for t in seq]
      txt = [s + sep for s in sp]
      expect3('compactify', txt, comp, pieces=starts)
      for ind in ('  ', '', '\t'):
        pr = '\n'.join(pretty(t, ind) for t in seq)
        expect3('prettify', txt, lambda out, pr=pr: out.decode('utf-8').rstrip('\n') == pr, indent=ind, mode=1 if len(comp) < 9 else 2)
      chunk_want = cxx.text(comp)
      expect3('chunk', txt, comp, mode=2, pieces=starts)
      ex = [dumps(k) for t in seq if t[0] == 'l' for k in t[1]]
      expect3('explode', txt, lines(ex), pieces=[lines(dumps(k) for t in seq[:i + 1] if t[0] == 'l' for k in t[1]) for i in range(len(seq))])
      for n in (0, 1, 2, 2**33):
        expect3('nth', txt, lines(nth(t, n) for t in seq), n=n, pieces=[lines(nth(t, n) for t in seq[:i + 1]) for i in range(len(seq))])
    # Values without a newline at the end of the input.
    if seq:
      last = ' '.join(cs)
      expect3('compactify', last, comp)
      expect3('chunk', last, comp)
      expect3('prettify', last, '\n'.join(pretty(t, '  ') for t in seq), indent='  ')
      expect3('explode', last, lines(ex))
      expect3('compactify', '\n \n' + comp + '\n\n', comp)
      expect3('chunk', '\n \n' + comp + '\n\n', comp)

      def one_each(out, cs=cs):
        return True

      # One chunk per value.
      def back(e, per, bad, cs=cs):
        got = [c for v in per for c in v]
        if got != [cxx.text(c + '\n') for c in cs]:
          ctx.violation('chunk-boundaries', f'chunk on {cs!r} gives chunks {got!r}')

      for data in (comp, last, list(comp)):
        ctx.states += 1
        b.add(req('chunk', data), back)

  leaf = [(t, None) for t, _ in LEAVES3]
  if what == 'single':
    for i, t in enumerate(gen_trees(tuple(leaf[:4]), 4 if ctx.quick else 5)):
      if i % 4 == part:
        check_seq([t], [('', '\n'), (' ', '\n'), ('\n\t', ' '), ('\r\n', '\r\n')])
  elif what == 'seq':
    pool = [('x', t, None) for t, _ in LEAVES3] + [('l', ()), ('o', ())]
    pool += [('l', (('x', '1', None),)), ('l', (('x', '"]"', None), ('l', ()))), ('l', (('l', ()), ('x', 'null', None), ('x', '3', None))),
             ('o', (('a', ('x', '"}"', None)),)), ('o', (('a', ('l', (('x', '1', None), ('x', '2', None)))), ('b', ('o', ())))),
             ('l', (('o', (('k', ('x', '7', None)),)), ('x', '"\\\\"', None)))]
    if not part:
      check_seq([], [('', '\n')])
    for i, s in enumerate(itertools.chain(itertools.product(pool, repeat=2), itertools.product(pool, repeat=3))):
      if i % 4 == part:
        check_seq(list(s), [('', '\n'), (' ', ' ')] if len(s) == 3 else [('', '\n'), (' ', '\n\n'), ('\t', '\t')])
  elif what == 'extract':
    names = ['a', '\\u0061\\"', 'a', '\\ud83d\\ude00', 'x\\\\', 'é']
    trees = [rename(t, names) for t in gen_trees(tuple(leaf[:2]), 5 if ctx.quick else 6)]
    for i, t in enumerate(trees):
      if i % 4 != part:
        continue
      ps = sorted({p for p, _ in all_paths(t)}, key=repr)
      sets = [set(c) for k in range(0, min(len(ps), 3) + 1) for c in itertools.combinations(ps, k)]
      sets.append(set(ps))
      sets.append({('nope',), (9,), (-1,)})
      for sel in sets:
        for second in (None, ('l', (('x', '5', None),))) if len(sel) <= 1 else (None,):
          for wp in (0, 1):
            outs = []
            for tt in [t] if second is None else [t, second, t]:
              vals = extract_ref(tt, sel)
              outs.append('[' + ','.join(
                  (('[[' + ','.join(str(k) if isinstance(k, int) else quote_ref(k) for k in p) + '],' + dumps(v) + ']') if wp else dumps(v))
                  for p, v in vals) + ']')
            txt = [dumps(tt) + '\n' for tt in ([t] if second is None else [t, second, t])]
            expect3('extract', txt, lines(outs), paths=sorted(sel, key=repr), flags=wp,
                    pieces=[lines(outs[:j + 1]) for j in range(len(outs))])
  else:
    chars = ['a', '"', '\\', '\n', '\x00', '\x1f', '\x7f', 'é', '\U0001f600', '\t', '\b', '\f', '\r', '\u2028', '/', 'u', '{', '\ufffd']
    for k in range(0, 4 if ctx.quick else 5):
      for i, t in enumerate(itertools.product(chars, repeat=k)):
        if i % 4 == part:
          s = ''.join(t)
          expect3('quote', s, quote_ref(s), mode=1 if len(cxx.text(s)) < 5 else 2)
    elems = ['a', ' ', 'é', '\\"', '\\\\', '\\/', '\\b', '\\f', '\\n', '\\r', '\\t', '\\u0041', '\\u00E9', '\\u20ac', '\\uD83D\\ude00', '\\u0000', 'n', 'u',
             '\\ufffd', '\U0001f600']
    for k in range(0, 4):
      for i, t in enumerate(itertools.product(elems, repeat=k)):
        if i % 4 == part:
          body = ''.join(t)
          s = ''.join(map(chr, decode(body)))
          expect3('unquote', '"' + body + '"', s, mode=1 if len(body) < 6 else 2)
          if k < 3:
            expect3('unquote', '"' + body + '"\n "" "' + body + 'z"', s + s + 'z')
    for k in range(0, 3):
      for i, t in enumerate(itertools.product(chars, repeat=k)):
        if i % 4 == part:
          # Quoting then unquoting gives the text back.
          s = ''.join(t)
          expect3('unquote', quote_ref(s), s)
  b.flush()
  ctx.sample(what)
