#!/usr/bin/env python3
"""Writes DESIGN.md from notes/design_head.md, the property list, the texts below and notes/design_tail.md."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={}
def p(id,oracle,reach): T[id]=(oracle,reach)
p('P01',"Model: std::u16string per string object. After every operation all strings of the case are compared (length, characters, char-by-char access, C string), not only the changed one, so aliasing and shared buffers show. Self arguments and out-of-range indices are generated on purpose; buffers are exact, AddressSanitizer sees any touch outside.",
 "Defects of editing code depend on the relation of capacity, position and length and on aliasing; the tests use one short text per call.")
p('P02',"Definition of equality, lexicographic order and hash on the model text; each string is reached through an edit history with hash queries in between, so that a stale cached hash, or one that depends on the history, disagrees with a fresh string of the same text.",
 "The cache makes it a property of histories; a test compares freshly made strings.")
p('P03',"Integers: own conversion routines and round trip. Doubles: printf/strtod of the C library with the specified digits; rounding by exact decimal comparison; `arg` against a small reference formatter.",
 "Border values of 64 bit, rounding at carries, and templates whose inserted text itself holds placeholders.")
p('P04',"std::vector<u16string> for lists; a straightforward splitter for tokenizers; metamorphic split(join(x)) = x.",
 "Elements of the list as arguments during growth, and interleaved hasNext/next.")
p('P05',"std::map under key equality; bulk insertion through every growth step; generated colliding keys (built from the hash's own definition of equal words), negative hashes.",
 "Chain surgery on removal depends on the position in the chain and on growth in between.")
p('P06',"Sequences plus a line of states for undo; the list is walked forwards by cursor and iterator after every step, element reference counts must not move.",
 "Undo of link changes is right only if all six link updates of a change are recorded; needs histories mixing edits, undo and redo.")
p('P07',"std::vector, elements with instance counters (balance of constructors and destructors), exact-size buffers under AddressSanitizer.",
 "Growth, copy and self-assignment in combination.")
p('P08',"Published code tables (harness/codepages.hpp, made from Python's codecs, not from the library) and reference UTF-8/UTF-16 codecs; all 65536 characters of the basic plane and all one-byte values are enumerated, texts and damaged byte strings generated.",
 "Tables have 256 entries of which the tests look at a few; truncation at every length.")
p('P09',"std::string of bytes plus the terminator, independence of copies.", "Histories of resize within and beyond capacity.")
p('P10',"Independent RFC 4648 encoder; decoder of exact buffers.", "Every remainder modulo 3, malformed text.")
p('P11',"Bitwise polynomial division; the residue law CRC(message+CRC)=0; splitting at random pieces.", "A 256 entry table, any single entry can be wrong.")
p('P12',"zlib as independent decompressor, and round trip through the library.", "Size relations of input and output buffers, several uses of one object.")
p('P13',"A stream assembler (harness/deflate_gen.hpp) that knows the expansion of what it assembles; zlib confirms validity.", "zlib's own encoder never produces most legal streams: 15-bit codes, repeat codes across alphabets, single distance codes, distance 32768.")
p('P14',"AddressSanitizer on exact buffers, CPU limit for termination, zlib as differential oracle for what is valid.", "Space of damaged inputs; coverage-guided mutation plus structured corruption.")
p('P15',"Strict independent archive reader (harness/zip_ref.hpp) with its own CRC-32; the library as reader.", "Existing longer targets, empty members, name look-alikes.")
p('P16',"Independent archive writer in many dialects; damage with exact buffers.", "Lengths in the headers contradict each other only in damaged files.")
p('P17',"Byte vector with cursor.", "Borders: partial transfers and moves beyond both ends.")
p('P18',"Byte-by-byte definition of the orders; all reading functions; unaligned offsets in exact buffers.", "Sign extension, NaN payloads, neighbours of a written value.")
p('P19',"Component list of the generated path (the oracle composes text from components, never parses with the library).", "Dots, several separators, empty parts, roots.")
p('P20',"A model file system (tree with files, directories, links, pipes, times, tags), compared with the real directory by lstat/readdir. All calls of the library that change files are replaced by stand-ins (link-time wrapping, fsguard.hpp) that refuse any path outside the scratch directory.", "Histories on links and on renamed and reopened files.")
p('P21',"std::map of values, an independent reader of the saved file, and a third object that loads it.", "Escapes combine: backslash followed by n, leading line break, values saved repeatedly.")
p('P22',"Strict independent XML reader (harness/xml_ref.hpp), the SAX parser, and the generated tree.", "Reserved characters at any place, indentation with mixed content.")
p('P23',"The generated event list; for damaged input AddressSanitizer, CPU limit, a bound on the reported text.", "Markup at chunk and document borders, unterminated constructs.")
p('P24',"Line of snapshots: a vector of states with a cursor. Every recordable type in one or more objects (harness/undo_obj.hpp, history.hpp).", "Histories; defects need a redo behind a discarded branch, or the same member twice within a step.")
p('P25',"Line of snapshots plus a stack of open transactions with failure marks.", "A failure in an inner level that must survive to the outermost one.")
p('P26',"Model of members with their bounds, undo line as in P24, properties as a tagged value.", "NaN, borders, equal values, within transactions.")
p('P27',"Model of the change flag and the undo line.", "Order of save, undo and switching the manager off.")
p('P28',"Quadratic dynamic programming for the distance; the printed script is parsed and applied to the first sequence.", "Minimality is a statement over all scripts; the diagonal algorithm fails only for certain shapes.")
p('P29',"Era-based civil calendar algorithm (day counts), independent of the library's.", "Negative years, carry of parts, leap centuries.")
p('P30',"A reference formatter over the parsed pattern; the text form is parsed back. The statement is limited to the letters the formatter implements; that the others are documented but missing is the known finding `date-pattern-letters`.", "Combinations of adjacent fields, quotes and widths.")
p('P31',"Documented formulas in double precision with tolerance; round trips except RGB-CMYK-RGB (known finding `rgb-cmyk-rgb`: the two documented formulas are not inverse).", "All three modes, saturated and nearly grey colours.")
p('P32',"Definitions in long double, trichotomy, exchange helpers on all types.", "Numbers within an ulp of the tolerance, huge and subnormal values.")
p('P33',"Textbook definitions in long double with a condition-dependent tolerance, exact comparison for integer entries; histories over matrices with aliasing.", "Shapes, singular and nearly singular matrices, self assignment.")
p('P34',"Preservation laws (length, angle, orientation), inverse laws, composition laws on generated transforms.", "Degenerate directions: opposite, equal, axis-parallel.")
p('P35',"The defining conditions, checked on the answer (lies on both objects, no nearer point by dense search and by convexity) and existence known from how the case was constructed; symmetric calls.", "Parallel, touching, coincident and reversed objects.")
p('P36',"Point sets: membership of a grid of sample points decides containment, union, intersection.", "Negative sizes, empty extents, mixed 2d and 3d points.")
p('P37',"Cox-de Boor recursion in long double; convex hull by bounds along random directions.", "Knot multiplicities, degrees up to 5, end of the range.")
p('P38',"Sequential: model of counts, owned objects and the pool; destruction order and number recorded by the destructors. Parallel: several threads retain, release and mark shared objects under ThreadSanitizer; count and liveness at the end are the sums of the steps. The autorelease pool is one global object of the library, used by one thread at a time here (it has a lock only for adding).", "Re-entrant destructors; data races need schedules.")
p('P39',"Schedules: threads with random critical sections, sleeps, interrupts at random instants; invariants (exclusive counter, exact sums, run count, time bounds with generous upper limits) and ThreadSanitizer. A deadlock is recognised because no CPU time is used for 60 s. isAlive is only claimed between start and interrupt, as documented.", "Lost wake-ups depend on the instant of the interrupt.")
p('P40',"Independent .mo writer with parts in any order, gaps and hash tables; damaged ones in exact buffers and streams that fail.", "Offsets and lengths are attacker-like input.")
p('P41',"Reference tables for ASCII and Latin-1; all 65536 characters are enumerated by a probe in every run, texts generated.", "The classification has hundreds of special cases.")
p('P42',"A reference of each assertion's meaning; the output of the test framework is captured and parsed.", "Integer width and sign combinations.")
p('P43',"Each session is a process of its own with HOME in a scratch directory; model of saved settings per bundle; output captured and compared line by line.", "State that lives across processes.")
p('P44',"Each of 15 areas of the library has a generator of histories that ends with giving everything back; the same decisions are replayed up to four times and the allocator's count of bytes in use (AddressSanitizer) and the number of open descriptors must not grow each time.", "A leak shows in no result and only on the rare path that loses the pointer.")
p('P45',"Each case is a process of its own with a generated environment, compiled locales (localedef into build/), a simulated path of the executable and resource directory (stand-ins for readlink, stat, access and fopen); the expected places, language and translation file come from the rules.", "What is found depends on the combination of environment, language and existing files.")
p('P46',"Stand-ins for fopen (a stream with a planned failure: which open fails with which errno, after how many bytes reading or writing fails once or always, whether closing fails, short pieces), opendir and readdir, and a log that changes errno. Scenarios write, read, list, save, parse and pack generated content; the oracle knows what the plan made fail and asks for the report, for a right prefix and for a right repetition without failures. Errors of readdir and fclose come from the stand-ins only.", "No test has a failing file system, and the failure has to come at a certain byte.")
p('P47',"16 areas of the library, each driven by a generated history on objects of its own. Two to four histories are first run one after the other, then the same decisions are replayed in as many threads that start together, up to three times; results must be byte for byte those of the run alone, the log must hold the same lines, and ThreadSanitizer watches the whole library. The log goes to a stream that yields in the middle. In some cases all threads create files of one name. Schedules are those the machine produces (with yields), not all of them; ThreadSanitizer reports races that did not do harm in the schedule seen.", "No test runs the library in several threads.")
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
man=json.load(open(root+'/MANIFEST.json'))
find={}; fixed={}
for l in open(root+'/known_findings.txt'):
    m=re.match(r'(finding|fixed): property=(\S+) (\S+) (.*)',l)
    if not m: continue
    (find if m[1]=='finding' else fixed).setdefault(m[2],[]).append((m[3],m[4]))
out=[open(root+'/notes/design_head.md').read().rstrip(),'','## Properties','',
 'The number of cases is fixed per tier (quick / thorough); both are stated, with the assumptions, by',
 'the harness and repeated in the evidence file together with the number of distinct non-trivial cases,',
 'a classification of the generated cases and samples.','']
def quote(s): return re.sub(r'\\(.)',r'\1',s)
for q in props:
    id=q['id']
    src=open(f'{root}/harness/{id}.cpp').read()
    m=re.search(r'static Def d\{"%s",\s*"((?:[^"\\]|\\.)*)",\s*(\d+),\s*(\d+)'%id,src)
    rule,qn,tn=quote(m[1]),int(m[2]),int(m[3])
    a=re.search(r'd\.assumptions = \{(.*?)\};\n',src,re.S)
    ass=[quote(x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"',a[1])] if a else []
    o,r=T[id]
    out+=[f'### {id} {q["title"]}','',o,'',f'* Generated, and what counts as non-trivial: {rule}',
      f'* Cases: {qn:,} quick, {tn:,} thorough.'+(' ThreadSanitizer build.' if 'BUILD: tsan' in src[:400] else ''),
      f'* Beyond the tests: {r}']
    if ass: out.append('* Bounds and assumptions: '+'; '.join(x.rstrip('.') for x in ass)+'.')
    if id in fixed: out.append(f'* Genuine defects found and repaired ("fix:" commits, listed in known_findings.txt): {len(fixed[id])}.')
    for k,t in find.get(id,[]): out.append(f'* Known finding `{k}`: {t}')
    out.append('')
out.append(open(root+'/notes/design_tail.md').read().rstrip())
out.append('\n## Planted bugs\n\nEvery planted bug lies in seeded/ with a demonstration. "caught by" was measured by running the check on the patched tree.\n')
out.append('| bug | property | what it needs | caught by |\n|---|---|---|---|')
caught={}
if os.path.exists(root+'/notes/caught.txt'):
    for l in open(root+'/notes/caught.txt'):
        a=l.split(None,1)
        if len(a)==2: caught[a[0]]=a[1].strip()
sd=root+'/seeded'
for b in sorted(os.listdir(sd)):
    m=json.load(open(f'{sd}/{b}/meta.json'))
    out.append(f'| {b} | {m["property"]} | {m["needs"].replace("|","/")} | {caught.get(b,"not measured")} |')
open(root+'/DESIGN.md','w').write('\n'.join(out)+'\n')
