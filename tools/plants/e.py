plant('sched-bool-unlocked', 'S02', [('big/scheduler.py', '''        with self.regulator.lock:
            return bool(self.heap)
''', '''        return bool(self.heap)
''')], 'a truth test while another thread changes the queue', 'the queue is looked at without the lock', '''
import sys
from big.all import Scheduler
from big.scheduler import Regulator

class Lock:
    held = False
    def __enter__(self):
        self.held = True
    def __exit__(self, *a):
        self.held = False
    def acquire(self, *a):
        self.held = True
        return True
    def release(self):
        self.held = False

class R(Regulator):
    def __init__(self):
        self.lock = Lock()
    def now(self):
        return 0
    def sleep(self, t):
        pass
    def wake(self):
        pass

r = R()
s = Scheduler(r)
inner = type(s.heap)

class Checked(inner):
    def __len__(self):
        if not r.lock.held:
            sys.exit('looked at without the lock')
        return inner.__len__(self)
    def __bool__(self):
        if not r.lock.held:
            sys.exit('looked at without the lock')
        return inner.__bool__(self) if hasattr(inner, '__bool__') else inner.__len__(self) > 0

s.heap = Checked()
bool(s)
s.schedule('x', 1)
bool(s)
''')

plant('columns-leading-blank', 'W02', [('big/text.py', '''            lines = s.rstrip().split(newline)
''', '''            lines = s.strip().split(newline)
''')], 'a column given as a text that begins with blanks or an empty line', 'the leading whitespace of the column is lost', '''
import sys
from big.all import merge_columns
for a, want in (('a\\nb', 'a   1\\nb   2'), ('\\na', '    1\\na   2'), ('  a\\nb', '  a 1\\nb   2')):
    got = merge_columns((a, 1, 3), ('1\\n2', 1, 3))
    if got != want:
        sys.exit(repr(got))
''')

plant('delims-flush-but-last', 'T07', [('big/text.py', '''                append(delimiter[0:1])
                consumed += 1
                resplit = True
''', '''                # only its last character can be part of another one
                append(delimiter[:-1])
                consumed += len(delimiter) - 1
                resplit = True
''')], 'inside a quoting delimiter, a mark of three characters that has the closing mark in its middle', 'the closing mark is not seen', '''
import sys
from big.all import split_delimiters, Delimiter
d = {'<#x': Delimiter('x#>'), '#': Delimiter('#', escape='~', quoting=True), '(': Delimiter(')')}
got = [tuple(t) for t in split_delimiters('#a<#xb', d)]
if got != [('', '#', ''), ('a<', '', '#'), ('xb', '', '')]:
    sys.exit(repr(got))
''')

plant('heap-last-leaf', 'H02', [('big/heap.py', '''            return max(self._queue)
''', '''            # the largest value is one without children
            return max(self._queue[(len(self._queue) + 1) // 2:] or self._queue)
''')], 'an odd number of values whose largest is the first one without children', 'the last item is not the largest', '''
import sys
from itertools import permutations
from big.all import Heap
for n in range(1, 6):
    for p in permutations(range(n)):
        if Heap(p)[-1] != n - 1:
            sys.exit(repr(p))
''')
