plant('version-dev-date', 'V01', [('big/version.py', '''            dev = math.inf
''', '''            dev = 10000000
''')], 'a development release numbered by a date', 'the development release sorts after the release', '''
import sys
from big.all import Version
for a in ('1.dev0', '1.dev5', '1.dev20240101', '1a.dev20240101'):
    b = a.split('.dev')[0]
    if not Version(a) < Version(b) or Version(b) < Version(a) or Version(a) == Version(b):
        sys.exit(a)
''')

plant('version-post-zero-dev', 'V02', [('big/version.py', '''        if self._post is not None:
            append(f".post{self._post}")
''', '''        if self._post or self._post == 0 and self._dev is None:
            append(f".post{self._post}")
''')], 'a version with post-release zero and a development release', 'the string form loses the post-release', '''
import sys
from big.all import Version
for s in ('1', '1.post1', '1.post0', '1.post0.dev1', '1.post2.dev0', '1.dev3'):
    if Version(str(Version(s))) != Version(s):
        sys.exit(s)
''')

plant('number-underscore', 'B01', [('big/builtin.py', '''    try:
        return int(o)
    except (TypeError, ValueError, OverflowError):
        try:
            # if you pass in the *string* "0.0",
''', '''    try:
        if isinstance(o, str) and o[:1] == '-' and not o[1:].strip('0123456789'):
            return -get_int_or_float(o[1:], default)
        return int(o)
    except (TypeError, ValueError, OverflowError):
        try:
            # if you pass in the *string* "0.0",
''')], 'the string of a single minus sign', 'the conversion fails in another way instead of giving the default', '''
import sys
from big.all import get_int_or_float
for s in ('-', '-5', '--5', '- 5', '-1.5', '-0.0', 'x', '-x', ''):
    for default in (None, 'd', 7):
        try:
            want = int(s)
        except ValueError:
            try:
                want = float(s)
                want = int(want) if want == int(want) else want
            except ValueError:
                want = default
        if get_int_or_float(s, default) != want:
            sys.exit('%r %r' % (s, default))
''')

plant('graph-stale-conflict', 'G02', [('big/graph.py', '''                            if not other[v]:
                                del other[v]
''', '''                            if not other[v] and (this is self._conflicts or v not in self._yielded or len(values) == 1):
                                del other[v]
''')], 'a conflict between two returned nodes after which the dependent one, that waits for two nodes, is removed',
'the view stays in conflict although no edge is left', '''
import sys
from big.all import TopologicalSorter
g = TopologicalSorter()
g.add('a'); g.add('b'); g.add('c')
v = g.view()
v.ready()
g.add('b', 'a', 'c')
try:
    v.ready()
    sys.exit('no conflict')
except RuntimeError:
    pass
g.remove('b')
v.done('a', 'c')
if v:
    sys.exit('not finished')
''')

plant('graph-copy-shares-conflicts', 'G04', [('big/graph.py', '''                for n, v in original._reverse_conflicts.items():
                    self._reverse_conflicts[n] = v.copy()
''', '''                self._reverse_conflicts.update(original._reverse_conflicts)
''')], 'a copy of a graph whose view is in conflict through two predecessors, and edits of both graphs',
'an edit of one graph changes the conflicts of the other', '''
import sys
from big.all import TopologicalSorter
g = TopologicalSorter()
for n in 'abc':
    g.add(n)
g.ready()
g.add('c', 'a', 'b')
h = g.copy()
g.remove('a')
g.remove('b')
h.remove('c')
h.done('a', 'b')
g.done('c')
if h or g:
    sys.exit('not finished')
''')

plant('cycle-finished-nodes', 'G03', [('big/graph.py', '''                node = cycle.pop()
                seen.remove(node)
                iterators.pop()
''', '''                node = cycle.pop()
                iterators.pop()
'''), ('big/graph.py', '''                if node in seen:
                    # found a cycle
                    index = cycle.index(node)
''', '''                if node in seen:
                    # found a cycle
                    if node not in cycle and cycle:
                        continue
                    index = cycle.index(node) if node in cycle else 0
''')], 'a graph with a cycle and a node below it that is looked at first', 'no cycle or a wrong one is reported', '''
import itertools, sys
from big.all import TopologicalSorter
class N:
    def __init__(self, name, h):
        self.name, self.h = name, h
    def __hash__(self):
        return self.h
    def __eq__(self, o):
        return self is o
for order in itertools.permutations(range(4)):
    a, b, c, d = [N(x, h) for x, h in zip('abcd', order)]
    g = TopologicalSorter()
    g.add(b, a)
    g.add(a, b)
    g.add(c, b)
    g.add(d, c)
    t = g.cycle()
    if not t or {x.name for x in t} != {'a', 'b'}:
        sys.exit('%r' % (t,))
''')

plant('split-progressive-space', 'T02', [('big/text.py', '''            nonsep = l[i]
            if nonsep:
                last_non_empty_nonsep = i
''', '''            nonsep = l[i]
            if nonsep and not nonsep.isspace():
                last_non_empty_nonsep = i
''')], 'progressive stripping with separators that are not white space, and a last piece that is only white space',
'a piece that is no separator is stripped', '''
import sys
from big.all import multisplit
for s in ('a,b, ', 'a, ,', ' , , '):
    for m in range(1, 5):
        r = list(multisplit(s, ',', maxsplit=m, strip='PROGRESSIVE', separate=True))
        w = s.lstrip(',').split(',', m)
        if len(w) <= m and not w[-1]:
            while w and not w[-1]:
                w.pop()
        if ''.join(r).replace(',', '') != s.replace(',', ''):
            sys.exit('%r %r %r' % (s, m, r))
''')

plant('partition-pad-side', 'T03', [('big/text.py', '''        if reverse:
            result = list(extension) + result
        else:
            result.extend(extension)
    return tuple(result)
''', '''        if reverse and (separate or result_length > 1):
            result = list(extension) + result
        else:
            result.extend(extension)
    return tuple(result)
''')], 'partitioning from the right, without merging separators, a text that has none',
'the text is put at the wrong end of the tuple', '''
import sys
from big.all import multirpartition
for s in ('abc', 'a-b', ''):
    for count in range(4):
        for separate in (True, False):
            r = multirpartition(s, ('-', '+'), count, separate=separate)
            w = s.rpartition('-')
            if ''.join(r) != s or len(r) != 2 * count + 1 or count and r[-1] != w[2]:
                sys.exit('%r %r %r' % (s, count, r))
''')

plant('re-partition-padding', 'T04', [('big/text.py', '''            extend((s[start:match.start()], match))
            start = match.end()
        extension = ()
    except StopIteration:
        extension *= remaining
''', '''            extend((s[start:match.start()], match))
            start = match.end()
        extension = ()
    except StopIteration:
        extension *= min(remaining, len(s))
''')], 'a text shorter than the number of matches that are missing', 'the tuple is too short', '''
import sys
from big.all import re_partition
for s in ('', 'a', 'axb', 'xx', 'axbxcxd'):
    for count in range(7):
        if len(re_partition(s, 'x', count)) != 2 * count + 1:
            sys.exit('%r %r' % (s, count))
''')

plant('line-end-stripped', 'L01', [('big/text.py', '''            self.column_number -= len(self.detab(self.leading))
            if self.end:
                self.trailing = self.line[:-len(self.end)]
            else:
                self.trailing = self.line
            self.leading = empty
            return empty
        if s is None:
            s = l[len(l)-i:]
''', '''            self.column_number -= len(self.detab(self.leading))
            if self.end:
                self.trailing = self.line.rstrip(self.end)
            else:
                self.trailing = self.line
            self.leading = empty
            return empty
        if s is None:
            s = l[len(l)-i:]
''')], 'a line that is stripped completely and whose last characters also occur in its terminator',
'the line cannot be put together from its parts', '''
import sys
from big.all import lines, lines_rstrip
for s, seps in (('ab\\n  \\n', None), ('a  |b', (' |',)), ('a | |  | b', (' |',))):
    for i, l in lines_rstrip(lines(s, seps)):
        if i.leading + l + i.trailing + i.end != i.line:
            sys.exit('%r %r' % (s, i))
''')

plant('encode-keys', 'N04', [('big/text.py', '''            _recursive_encode_strings(k, encoding):
             _recursive_encode_strings(v, encoding)
''', '''            _recursive_encode_strings(k, 'ascii' if isinstance(k, str) and k.isascii() else encoding):
             _recursive_encode_strings(v, encoding)
''')], 'a dictionary with plain keys and an encoding that does not extend ASCII', 'the keys are in another encoding', '''
import sys
from big.all import encode_strings
for enc in ('utf-8', 'latin-1', 'utf-16-le', 'utf-32', 'cp037'):
    d = {'a': 'b', 'c': ['d']}
    if encode_strings(d, enc) != {k.encode(enc): v.encode(enc) if isinstance(v, str) else [x.encode(enc) for x in v] for k, v in d.items()}:
        sys.exit(enc)
''')

