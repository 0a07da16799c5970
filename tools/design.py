"""Writes DESIGN.md from DESIGN.tmpl.md, the specs, known_findings.json and seeded/ (python3-vt tools/design.py)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, '/repo', HERE]
import props
from pydv import framework

HOW = dict(
P01='Each operation is run on an arbitrary state (any stack of pushed values, any wrapped iterator with any remaining items, falsy or raising) and must transform the ghost sequence "stack reversed + rest of the iterator" as specified.',
H01='The heap list is an arbitrary sequence satisfying the heap order; `heapq` is used through its contract (multiset kept, smallest element first, order restored). Posts are multiset equations over the ghost multiset, frame obligations keep the copy and the source iterable apart.',
H02='Views are compared with the same operation on the ghost sorted sequence of the content; slices for arbitrary start/stop/step; iteration is one step from an arbitrary state with the version counter as the modification witness.',
S01='`schedule`, `cancel` and one step of the iterator from an arbitrary queue; between the release of the lock and its re-acquisition (sleeping) the queue is havocked under the class invariant, so other threads are arbitrary. Order is the lexicographic order on (time, priority, sequence).',
S02='A ghost lock hook counts acquisitions; each access to queue, counter and clock is an obligation "lock held by this operation", sleep and yield are obligations "not held", each exit is an obligation "not held". Every call of user code may raise.',
R01='A ghost pair (wake number, sleep decision): the obligation says that a wake issued after the decision to sleep makes the sleep return. ',
M01='Handler calls, observer calls and writes to the two state fields go to a ghost trace; at each call the fields must have the value prescribed at that point; handlers may raise and may re-enter the public interface (rely condition proved in the "nested" proofs). The loop over observers has a generic-position invariant.',
M02='Names are arbitrary strings; the generated accessor and dispatcher functions are executed with the manager an arbitrary object; results are the getattr/call of the current state at call time.',
G01='Nodes are an uninterpreted sort, the graph an arbitrary relation; the view state is an arbitrary one satisfying the class invariant (counts = ghost number of undone predecessors). `ready` and `done` are proved to preserve it and to return/accept exactly the specified sets; set iteration order is arbitrary.',
G02='The edit operations are proved against the same invariant for the edited relation, for an arbitrary view; conflict sets are exactly the conflicting pairs; the loops over views use the per-view contracts.',
G03='Phase 1 (peeling) and phase 2 (walk) of `cycle` against ghost facts about finite relations; callers against the contract of `cycle`.',
G04='Copies are proved equal field by field and separate (fresh containers: a frame obligation for each); reset and close against the invariant over the current graph.',
V01='Versions are parsed from symbolic components; the comparison key is an abstract term per component and trichotomy, transitivity and hash consistency are lemmas over it. Parsing of spellings is decided on the regular expression\'s groups with an uninterpreted match.',
V02='Constructor and accessors on arbitrary component values, the validators on arbitrary values of every type; the string form is proved to be the concatenation of the segments.',
T01='multisplit on an arbitrary text (string theory or an uninterpreted text with contract-level facts) and any number of separators: the pattern built is proved to be the alternation of the escaped separators, longest first; the output is related to re.split on that pattern.',
T02='The same contract for each value of keep/reverse and every combination of strip, separate and maxsplit; the reference definition is written over the ghost split.',
T03='Partition against the ghost split: number of pieces, padding and re-join, loops over `count` by invariant.',
T04='re_partition with the match objects as ghost objects having start/end; loop invariant over count. The reverse search: non-overlap and genuineness by invariant.',
T05='The regular expression is proved to be the anchored repetition of the alternation; the result is a slice determined by the match ends.',
T06='Loop invariant over the segments: consumed text = concatenation of what was yielded; state (quote open, escape) related to a ghost automaton.',
T07='Loop invariant: the yielded pieces, the buffer and the separators consumed re-join to the consumed text; the marks of the given state are pushed in order; the action table itself is an assumed contract, decided by the bounded comparison.',
T08='The generator over remaining lengths with a generic split; cut positions as a ghost set.',
L01='Each line is an arbitrary text; `LineInfo` operations keep leading + line + trailing + end = original and the column function of the ghost expansion.',
L02='The indent stack is an arbitrary strictly increasing sequence; one step of the loop for a blank and a non-blank line; blank-line flush by invariant.',
L03='Every filter at an arbitrary line of an arbitrary sequence of lines; keep/drop decision equals the specified predicate; trimming goes through the contracts of L01 and T05.',
W01='Loop invariant over the words: output so far re-joins to the words so far, current line length is the length since the last break.',
W02='merge_columns under contract for every strategy, any number of columns, lines, widths, separators and margins: one arbitrary line is followed from the column to its cell (held or padded), the rows by a recursion over rows and columns.',
N01='Every int: the digits are proved through the loop over the units with a ghost value function of the words emitted; ordinals by the last word.',
N02='Ghost split at the separators; result = join of the parts with the ends treated as stated.',
N03='Loop over characters with the ghost word-start automaton.',
N04='Structural induction over the collection: contract of the function used at the recursive call.',
B01='Arbitrary objects; int() and float() are ghost operations that return or raise any exception; every combination of outcomes is a path.',
F01='Arbitrary name: per-character loop invariant with the ghost translation map, idempotence as a lemma.',
F02='The file system is a ghost map; each os call is an obligation against the set of permitted effects; the block may raise.',
F03='The lines of the file are an arbitrary sequence; loop with a generic line: yielded iff it contains the text.',
D01='Time values are real/epoch terms with ghost UTC conversion; formatting functions by contract of datetime.strftime / time.gmtime.',
E01='The log list is an arbitrary sequence of entries; loop over it with generic position; nesting depth as ghost counter.',
)


def names(fs):
    return ', '.join('`' + f + '`' for f in fs)


def section(p):
    pid = p['id']
    out = [f"### {pid} - {p['title']}", '']
    if not os.path.exists(os.path.join(VERIF, 'specs', pid + '.py')):
        man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        r = [n['reason'] for n in man['not_applicable'] if n['property'] == pid]
        return out + ['Not claimed: ' + (r or ['?'])[0] + '.', '']
    m = importlib.import_module('specs.' + pid)
    proofs = framework.proofs_of(m)
    fs = []
    for q in proofs:
        for f in q._proof['functions']:
            if f not in fs:
                fs.append(f)
    out += [HOW[pid].strip() + ' ' + (getattr(m, 'NOTE', '') and getattr(m, 'NOTE').rstrip('.') + '.'), '']
    out += [f'* level: {getattr(m, "LEVEL", "proof")}; {len(proofs)} proofs; under contract: {names(fs)}']
    for nm, at in (('assumed', 'ASSUMPTIONS'), ('bounded only', 'BOUNDED'), ('not proved', 'NOT_PROVED')):
        v = list(getattr(m, at, []))
        if v:
            out.append(f'* {nm}: ' + '; '.join(v))
    o = importlib.import_module('oracles.' + pid)
    out += [f'* replay and bounded part: `oracles/{pid}.py` - {" ".join(str(o.RULE).split())}', '']
    return out


def main():
    t = open(os.path.join(HERE, 'DESIGN.tmpl.md')).read()
    ps = ['## The properties', '']
    for p in props.P:
        ps += section(p)
    k = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    fs = ['', f'{len(k["fixed"])} defects were repaired:', '']
    fs += ['* ' + ' '.join(f.split()[1:]).replace('property=', '', 1) for f in k['fixed']]
    fs += ['', 'Recorded as known findings and not repaired (existing tests assert the behaviour, or the repair would change documented output):', '']
    fs += [f"* {f['property']} `{f['key']}`: {f['what']}" for f in k['findings']]
    c = {}
    cj = os.path.join(HERE, 'catches.json')
    if os.path.exists(cj):
        c = json.load(open(cj))
    ss = ['', '| seeded change | property | needs | caught by |', '|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        me = json.load(open(os.path.join(VERIF, 'seeded', d, 'meta.json')))
        r = c.get(d)
        ss.append(f"| {d} | {me['property']} | {me['needs']} | {r or 'property not claimed'} |".replace('\n', ' '))
    t = t.replace('PROPERTIES_SECTION', '\n'.join(ps)).replace('FINDINGS_SECTION', '\n'.join(fs)).replace('SEEDED_SECTION', '\n'.join(ss))
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(t)
    print(len(t), 'characters')


main()
