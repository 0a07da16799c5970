plant('time-fold-lost', 'D01', [('big/time.py', '''        t = datetime.fromtimestamp(t)
''', '''        t = datetime(1970, 1, 1) + (datetime.fromtimestamp(t) - datetime(1970, 1, 1))
        if t.microsecond >= 999_999 and not want_microseconds:
            t = t.replace(microsecond=0, second=(t.second + 1) % 60)
''')], 'a number of seconds whose fraction rounds to 999999 microseconds, printed without microseconds',
'the printed time is not the given instant: the second is moved on', '''
import os, sys, time
os.environ['TZ'] = 'UTC'
time.tzset()
from big.all import timestamp_human
for base in (0, 59, 1000000000):
    got = timestamp_human(base + 0.999999, want_microseconds=False)
    want = time.strftime('%Y/%m/%d %H:%M:%S', time.gmtime(base))
    if got != want:
        sys.exit('%r %r' % (got, want))
''')

plant('time-same-offset', 'D01', [('big/time.py', '''        if t.tzinfo != timezone.utc:
            t = t.astimezone(timezone.utc)
''', '''        if t.tzinfo is None or t.tzinfo.utcoffset(None) != timezone.utc.utcoffset(None) and t.utcoffset():
            t = t.astimezone(timezone.utc)
        elif t.dst():
            t = t - t.dst()
''')], 'an aware datetime in a zone whose total offset is zero although it has a daylight saving part',
'the timestamp denotes another instant', '''
import sys
from datetime import datetime, timedelta, tzinfo, timezone
from big.all import timestamp_3339Z
class Zone(tzinfo):
    def __init__(self, off, dst):
        self.off, self.d = off, dst
    def utcoffset(self, dt):
        return timedelta(hours=self.off)
    def dst(self, dt):
        return timedelta(hours=self.d)
    def tzname(self, dt):
        return 'Z'
for off in (-1, 0, 1):
    for d in (0, 1):
        t = datetime(2022, 7, 1, 12, 30, 15, 5, tzinfo=Zone(off, d))
        u = t.astimezone(timezone.utc)
        if timestamp_3339Z(t) != u.strftime('%Y-%m-%dT%H:%M:%S.%fZ'):
            sys.exit('%r %r' % (off, d))
''')

plant('log-elapsed-zero', 'E01', [('big/log.py', '''            t, event, depth = waiting
            next_t = e[0]
            yield (t, next_t - t, event, depth)
            waiting = e
''', '''            t, event, depth = waiting
            next_t = e[0]
            if next_t < t:
                next_t = t
            yield (t, next_t - t, event, depth)
            waiting = (next_t, e[1], e[2])
''')], 'a clock that goes backwards between two events', 'the start time of an event is not the time at which it was logged', '''
import sys
from big.all import Log
times = [100, 110, 105, 120]
it = iter(times)
log = Log(clock=lambda: next(it))
log('a'); log('b'); log('c')
got = [e[0] for e in log]
if got != [0, 10, 5, 20]:
    sys.exit(repr(got))
''')

plant('exfat-colon-run', 'F01', [('big/file.py', '''    s = s.replace(": ", " - ")
    s = s.replace(":", ".")
    return s
''', '''    head, colon, tail = s.rpartition(": ")
    if colon:
        s = head.replace(": ", " - ").replace(":", ".") + " - " + tail
    else:
        s = s.replace(":", ".")
    return s
''')], 'a name with a colon that is not followed by a space after the last colon that is',
'an illegal colon is left in the name', '''
import sys
from big.all import translate_filename_to_exfat
for s in ('a', 'a:b', 'a: b', 'a:b: c', 'a: b:c', ': :', '::'):
    r = translate_filename_to_exfat(s)
    if ':' in r:
        sys.exit('%r -> %r' % (s, r))
''')

plant('unix-nul-run', 'F01', [('big/file.py', '''    return s.translate(_unix_translation_table)
''', '''    if s in (".", ".."):
        return s
    if "\\x00" not in s:
        return s.replace("/", "-")
    return "@".join(part.strip("/").replace("/", "-") for part in s.split("\\x00"))
''')], 'a name with a NUL next to a slash', 'characters of the name are lost instead of being translated', '''
import sys
from big.all import translate_filename_to_unix
for s in ('a', 'a/b', 'a\\x00b', '/a\\x00b', '/\\x00', 'a/\\x00/b'):
    want = s.replace('/', '-').replace('\\x00', '@')
    if translate_filename_to_unix(s) != want:
        sys.exit('%r -> %r' % (s, translate_filename_to_unix(s)))
''')

plant('fgrep-number-skips', 'F03', [('big/file.py', '''                return [t for t in builtins.enumerate(split, 1) if text in t[1]]
            return [line for line in split if text in line]
''', '''                found = []
                number = 0
                for line in split:
                    number += 1
                    if text in line:
                        if found and found[-1] == (number - 1, line):
                            found.append((number, line))
                            continue
                        found.append((split.index(line) + 1 if len(line) > 1 else number, line))
                return found
            return [line for line in split if text in line]
''')], 'a matching line of two or more characters that occurs again later with another line between',
'the repeated line is reported with the number of its first occurrence', '''
import os, sys, tempfile, shutil
from big.all import fgrep
root = tempfile.mkdtemp()
try:
    p = os.path.join(root, 'f')
    for lines in (['ab', 'c', 'ab'], ['ab', 'ab', 'ab'], ['xa', 'xa', 'b', 'xa']):
        with open(p, 'w') as f:
            f.write('\\n'.join(lines))
        want = [(i, l) for i, l in enumerate(lines, 1) if 'a' in l]
        if fgrep(p, 'a', enumerate=True) != want:
            sys.exit('%r' % lines)
finally:
    shutil.rmtree(root)
''')

plant('grep-match-once', 'F03', [('big/file.py', '''            return [t for t in builtins.enumerate(split, 1)
                    if pattern.search(t[1])]
        return [line for line in split if pattern.search(line)]
''', '''            return [t for t in builtins.enumerate(split, 1)
                    if pattern.search(t[1])]
        if not pattern.flags & re.MULTILINE and len(split) > 1 and not split[-1]:
            # the text after the last line break is no line
            return [line for line in split[:-1] if pattern.search(line)]
        return [line for line in split if pattern.search(line)]
''')], 'a pattern that matches an empty line, on a file that ends with a line break, without enumerate',
'the two modes disagree: the last (empty) line that matches is missing', '''
import os, sys, tempfile, shutil
from big.all import grep
root = tempfile.mkdtemp()
try:
    p = os.path.join(root, 'f')
    for text in ('a\\n', 'a\\nb', '\\n\\n', 'x'):
        with open(p, 'w') as f:
            f.write(text)
        for pat in ('a', 'x*', '^$'):
            if grep(p, pat) != [l for n, l in grep(p, pat, enumerate=True)]:
                sys.exit('%r %r' % (text, pat))
finally:
    shutil.rmtree(root)
''')

plant('pushback-next-default', 'P01', [('big/itertools.py', '''            try:
                return next(self.i)
            except StopIteration:
                self.i = None
        return default
''', '''            try:
                o = next(self.i)
                if o is default and o is not None:
                    self.stack.append(o)
                    o = next(self.i, o)
                return o
            except StopIteration:
                self.i = None
        return default
''')], 'next() with a default that is the very object delivered next, and more items after it',
'items are delivered out of order', '''
import sys
from big.all import PushbackIterator
a, b, c = object(), object(), object()
for d in (a, b, c, None):
    p = PushbackIterator([a, b, c])
    got = [p.next(d), p.next(d), p.next(d)]
    if got != [a, b, c]:
        sys.exit('wrong order')
''')
