plant('heap-remove-noheapify', 'H01', [('big/heap.py', '''        self._queue.remove(o)
        heapify(self._queue)
''', '''        # only the slot of the removed value needs repair: refill it with the last leaf
        index = self._queue.index(o)
        last = self._queue.pop()
        if index < len(self._queue):
            self._queue[index] = last
            _siftup(self._queue, index)
'''), ('big/heap.py', '''    heapify,
    heappop,
''', '''    _siftup,
    heapify,
    heappop,
''')], 'removing an interior value of a heap of at least six elements so that the refilled slot violates the heap order, then popping',
'the heap order is not restored after remove, so popleft later returns a value that is not the smallest', '''
import random, sys
from big.all import Heap
rng = random.Random(1)
for _ in range(3000):
    vals = [rng.randrange(50) for _ in range(rng.randrange(1, 14))]
    h = Heap(vals)
    x = rng.choice(vals)
    h.remove(x)
    vals.remove(x)
    got = []
    while h:
        got.append(h.popleft())
    if got != sorted(vals):
        sys.exit('remove %r: popped %r, expected %r' % (x, got, sorted(vals)))
''')

plant('heap-copy-shares-version', 'H02', [('big/heap.py', '''        o = heappushpop(self._queue, o)
        self._version += 1
        return o
''', '''        o2 = heappushpop(self._queue, o)
        if o2 is o:
            # nothing was stored
            return o2
        self._version = len(self._queue) + 1
        return o2
''')], 'an append_and_popleft that changes the heap while an iterator is alive, at a moment when the version equals the length plus one',
'the version can repeat an earlier value, so an iterator does not notice that the heap changed', '''
import sys
from big.all import Heap
h = Heap([1, 2])
h.append(3)
h.append(4)
h.append(5)
h.remove(5)
h.append(6)
for n in range(1, 12):
    h = Heap(list(range(n)))
    for _ in range(n + 1):
        h.append(99)
        h.remove(99)
    for extra in range(3):
        i = iter(h)
        next(i)
        h.append_and_popleft(50)
        try:
            next(i)
        except RuntimeError:
            pass
        else:
            sys.exit('modification not noticed, n=%d' % n)
        h.append(60)
for n in range(6):
    h = Heap(range(n + 1))
    h._version  # any history
    for k in range(10):
        i = iter(h)
        next(i)
        h.append_and_popleft(100 + k)
        try:
            next(i)
        except RuntimeError:
            pass
        else:
            sys.exit('modification not noticed')
''')

plant('sched-nonblocking-pop', 'S01', [('big/scheduler.py', '''                time_to_next_event = ev.time - now

                if time_to_next_event <= 0:
                    self.heap.popleft()
                    return ev.event
''', '''                time_to_next_event = ev.time - now

                if time_to_next_event < sys.float_info.epsilon:
                    # due, up to rounding of the clock
                    self.heap.popleft()
                    return ev.event
''')], 'a read when the next event is due in less than 2.2e-16 time units (any clock with a fine unit)',
'a read yields an event before its time', '''
import sys
from fractions import Fraction
from big.all import Scheduler, Regulator

class R(Regulator):
    t = Fraction(0)
    def now(self):
        return self.t
    def sleep(self, i):
        self.t += i
    def wake(self):
        pass
r = R()
s = Scheduler(r)
s.schedule('a', Fraction(1, 10**17))
if list(s.non_blocking()):
    sys.exit('event yielded early')
if next(s) != 'a':
    sys.exit('lost')
''')

plant('state-falsy-next', 'M01', [('big/state.py', '''        if self.__next is not None:
''', '''        if self.__next:
''')], 'a pending state object that is falsy (defines __len__ or __bool__) and a handler that starts another transition',
'a nested transition is accepted while one to a falsy state object is pending', '''
import sys
from big.all import StateManager, TransitionError

class Falsy:
    def __bool__(self):
        return False

class A:
    def on_exit(self):
        try:
            m.state = other
        except TransitionError:
            return
        sys.exit('nested transition accepted')
other = Falsy()
m = StateManager(A())
m.state = Falsy()
''')

plant('state-same-by-eq', 'M01', [('big/state.py', '''        if state is self.__state:
''', '''        if state == self.__state:
''')], 'two different state objects that compare equal', 'a transition between two distinct but equal state objects is refused', '''
import sys
from big.all import StateManager

class S:
    def __init__(self, n):
        self.n = n
    def __eq__(self, other):
        return isinstance(other, S)
    __hash__ = None
a, b = S(1), S(2)
m = StateManager(a)
m.state = b
if m.state is not b:
    sys.exit('not entered')
''')

plant('dispatch-cached', 'M02', [('big/state.py', '''            i = getattr(self, state_manager)
            method = getattr(i.state, f'{prefix}{fn.__name__}{suffix}')
''', '''            i = getattr(self, state_manager)
            state = i.next or i.state
            method = getattr(state, f'{prefix}{fn.__name__}{suffix}')
''')], 'a dispatched method called by an exit handler or observer, i.e. during a transition',
'during a transition the dispatched method of the pending state is called instead of that of the current state', '''
import sys
from big.all import StateManager, State, dispatch
log = []

class M:
    def __init__(self):
        self.state_manager = StateManager(A(self))
    @dispatch()
    def go(self):
        ...

class A(State):
    def __init__(self, m):
        self.m = m
    def go(self):
        log.append('A')
    def on_exit(self):
        self.m.go()

class B(A):
    def go(self):
        log.append('B')
m = M()
m.state_manager.state = B(m)
if log != ['A']:
    sys.exit(repr(log))
''')

plant('sched-cancel-equal', 'S01', [('big/heap.py', '''    def append(self, o):
        heappush(self._queue, o)
''', '''    def append(self, o):
        if self._queue and not (o < self._queue[-1]):
            # already the largest leaf: no sifting needed
            self._queue.append(o)
        else:
            heappush(self._queue, o)
''')], 'a value not below the last leaf but below its own parent in the binary heap (another subtree)',
'append skips the sift when the new value is not below the last leaf, which is in another subtree; the order of popleft / of scheduled events breaks', '''
import sys, itertools
from big.all import Scheduler, Regulator

class R(Regulator):
    t = 0
    def now(self):
        return self.t
    def sleep(self, i):
        self.t += i
    def wake(self):
        pass
for n in range(2, 8):
    for p in itertools.permutations(range(n)):
        s = Scheduler(R())
        for x in p:
            s.schedule(x, x, absolute=True)
        got = list(s)
        if got != sorted(p):
            sys.exit('%r: %r' % (p, got))
''')

plant('pushback-bool-swallow', 'P01', [('big/itertools.py', '''                o = next(self.i)
                self.push(o)
                return True
''', '''                o = next(self.i)
                if o is not None:
                    self.push(o)
                else:
                    self.stack[:0] = [o]
                return True
'''), ('big/itertools.py', '''    def next(self, default=None):
        """
        Equivalent to next(PushbackIterator),
        but won't raise StopIteration.
        If the iterator is exhausted, returns
        the "default" argument.
        """
        if self.stack:
            return self.stack.pop()
''', '''    def next(self, default=None):
        """
        Equivalent to next(PushbackIterator),
        but won't raise StopIteration.
        If the iterator is exhausted, returns
        the "default" argument.
        """
        if self.stack:
            o = self.stack.pop()
            if o is None and not self.stack:
                return default
            return o
''')], 'a None value (wrapped or pushed) read with next(default) as the last stacked value', 'a None item is replaced by the default and lost', '''
import sys
from big.all import PushbackIterator
p = PushbackIterator([None, 1])
if not p:
    sys.exit('empty')
if p.next('d') is not None:
    sys.exit('lost None')
''')
