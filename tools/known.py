"""Source of known_findings.json (python3 tools/known.py rewrites it)."""
import json, os
FIXED = [l.split(' ', 2) for l in '''
H01 b566f0d repr of an empty heap raised IndexError
H02 be5a44b negative indexes from -2 to -9 returned the wrong element
H02 0580765 Heap[-1] of an empty heap raised ValueError instead of IndexError
P01 003f9ae an exception other than StopIteration raised by the wrapped iterator was swallowed and ended the iteration
P01 e388431 a falsy wrapped iterator was taken for exhausted
B01 8348ff2 int conversions of infinity and nan raised OverflowError / ValueError
G01 1c969e2 View.done with duplicate or invalid nodes changed part of the state before raising
G02 f0700bb an edge to a predecessor that is already done left its successor blocked for ever
G04 b22a76e copying a sorter gave views that were still attached to the original
V01 84a3fa7 equal versions had different hashes
V01 be8ff0d implicit post and dev serials were not read as zero
V01 87315d9 upper-case spellings were rejected or compared unequal
V02 642112e negative release components were accepted
V01 11635f7 trailing zeros of a release keyword were kept, so equal versions compared unequal
V02 dc3dd80 a serial with release level final was accepted and lost
V02 71d9e2d a local segment ending in a newline was accepted
V02 aa3adda release_level abbreviations were accepted and rendered as invalid strings
V02 4e214b6 non-ASCII letters that case-fold to ASCII ones were accepted
F02 a2a5851 pushd returned to the directory current at construction, not at entry
T04 d3bc96b re_partition / re_rpartition split at the first literal occurrence of the matched text instead of at the match
T05 5cb68f9 multistrip did not strip at a trailing newline correctly
N03 a4fc067 gently_title crashed or changed characters for some texts
T07 ee11635 split_delimiters consumed a one-shot delimiter iterable
T06 d90a889 split_quoted_strings ignored escapes inside multi-line quotes
T06 8b479f3 the deprecated split_quoted_strings returned wrong segments
L01 734dd84 clip_trailing of zero characters moved the whole line
L01 d251301 clipping a whole line with tabs gave the wrong column
L03 e979b53 lines_strip with overlapping separators lost text
L02 1c0ab10 lines_strip_indent popped one level too many on a multi-level dedent
W01 cc7e8b6 wrap_words with two_spaces=False used two spaces
W01 f6138e9 split_text_with_code lost the final code line
W02 e74b8a4 merge_columns left trailing whitespace
E01 43e0552 Log.print printed wrong fractions
D01 06b58ff timestamp_3339Z did not pad years below 1000
M01 dd9cbf1 observers added or removed through a new list were not honoured
M01 4309e68 an exception in a handler left the state manager refusing all later transitions
T02 edf63cd an iterator of separators was consumed and then found empty
T02 e7b0420 progressive strip raised TypeError when maxsplit is None
F02 2b85ecb a pushd object entered twice returned to the wrong directory
F03 daa9f86 case-insensitive fgrep missed lines with a final sigma
D01 4166129 datetime_ensure_timezone replaced a time zone whose truth value is false
D01 5306728 a local struct_time in a zone abbreviated GMT but not at UTC was taken for UTC
B01 10c1f07 a default with its own != was ignored or made the getters raise
T08 b6190dd combine_splits did not notice a too long split when another one ended first
T04 d13cb85 reversed_re_finditer missed matches starting inside a match further left
L01 c30b9c8 clip_leading gave the wrong column when a tab was clipped after other characters
W01 9d444d4 split_text_with_code kept line breaks of an earlier code paragraph (or raised AssertionError)
R01 64f61d1 a wake between deciding to sleep and sleeping was lost
'''.strip().splitlines()]
FINDINGS = []


def finding(property, key, what):
    FINDINGS.append(dict(property=property, key=key, what=what))


finding('F01', 'exfat-control', 'translate_filename_to_exfat replaces the control characters \\x01-\\x1f by "?NN", and "?" is itself forbidden in exFAT names (asserted by tests/test_file.py)')
finding('D01', 'float-default', 'timestamp_3339Z of a float omits the microseconds by default, the documentation says they are included (asserted by tests/test_time.py)')
finding('N01', 'twelveth', 'int_to_words(12, ordinal=True) is "twelveth" (asserted by the existing tests)')
finding('N01', 'qindecillion', 'int_to_words names 10**48 "qindecillion"')

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w') as f:
        json.dump(dict(findings=FINDINGS, fixed=[f'fixed: property={p} {c} {w}' for p, c, w in FIXED]), f, indent=1)
        f.write('\n')
    print(len(FINDINGS), len(FIXED))
