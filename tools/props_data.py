S='src/core/'; I='include/core/'
p('P01','String editing behaves like a mutable sequence of 16-bit characters',
 'Every editing, searching and extracting operation of a string (append, insert, delete, replace, substring, trim, case change, reverse, search, concatenation, clear) gives exactly the result of the same operation on a sequence of 16-bit characters, for every text and every in-range position, and leaves its source strings unchanged. A copied or assigned string has the content of its source at that moment and never changes afterwards through the other object. An index outside the string is answered by an exception or an unchanged string, never by touching memory outside it.',
 ['inputs','histories'],'all texts (also empty, repeated, non-Latin), all positions and all sequences of operations over several strings that share content',
 'StringTest tries a few literals per method; sharing, growth and stale buffers only show up in sequences of operations.',
 [S+'String.cpp',I+'String.h'],[('append/insert/delete/replace/substring/indexOf','src/core/String.cpp'),('shared character buffer and copy on write','src/core/String.cpp checkSize, copy constructor, operator=')],
 [('text','the character buffer and its length','src/core/String.cpp')],['String::size','String::charAt','String::toCString'])
p('P02','String equality, order and hash code depend on the content only',
 'Two strings are equal exactly if they have the same characters, whatever operations produced them; equal strings report equal hash codes at every call (also after any modification), comparison is a total order consistent with equality, and the case-insensitive comparison equals the comparison of the lower-cased texts. Prefix, suffix and at-position tests agree with the substring they stand for.',
 ['inputs','histories'],'all pairs and triples of strings, each reached through arbitrary edit histories with hash code queries in between',
 'The tests compare fresh literals; a cached hash code that survives a change or depends on the number of calls needs a history.',
 [S+'String.cpp',I+'String.h'],[('cached hash code','src/core/String.cpp hashCode, constHashCode'),('comparison','src/core/String.cpp equals, compareTo, equalsIgnoreCase')])
p('P03','Numbers and text convert into each other without loss',
 'Every integer written in decimal, hexadecimal or any supported radix is read back as the same number, a finite double written as text is the standard decimal text with ten significant digits (or rounded to the requested number of digits), and text with seventeen digits is read back as exactly the double it denotes. Text that is no integer of 64 bits is refused. Formatting with placeholders substitutes exactly the placeholder with the lowest number, padded to the requested width with the fill character, and leaves all other text unchanged.',
 ['inputs'],'all 64-bit integers and finite doubles, all radices, field widths and templates',
 'Unit tests use about a dozen numbers; border values, signs, widths and precisions are not covered.',
 [S+'String.cpp',S+'Integer.cpp'],[('String::valueOf, toInt, toDouble, arg','src/core/String.cpp'),('Integer::toHexString, valueOf, digits','src/core/Integer.cpp')])
p('P04','String lists and tokenizers split and join without losing text',
 'A string list behaves like a sequence of strings under every sequence of insertions, removals, sorting, searching and joining. Splitting a text at delimiters and tokenizing it give exactly the maximal non-empty delimiter-free pieces in order; when delimiters are returned too, concatenating all pieces restores the text; and splitting a join of non-empty delimiter-free pieces gives the pieces back.',
 ['inputs','histories'],'all texts, delimiter sets and operation histories, including elements of the list itself as arguments',
 'StringListTest and StringTokenizerTest use one short list each.',
 [S+'StringList.cpp',S+'StringTokenizer.cpp',S+'String.cpp'],[('list storage','src/core/StringList.cpp'),('scanning','src/core/StringTokenizer.cpp')])
p('P05','A hash table is an exact map from keys to values',
 'After every history of insertions, overwrites, removals and clearing, a hash table answers lookups, containment, size and iteration exactly like a finite map under key equality, through all growth steps and hash collisions. Inserting and removing return the value that was stored under the key before, or null. A copy has the same content and shares nothing with the original.',
 ['histories'],'all operation sequences over keys with and without colliding hash codes',
 'HashtableTest inserts a handful of strings; rehashing, collisions in one bucket and reference counting over histories are not reached.',
 [S+'Hashtable.cpp',I+'Hashtable.h'],[('buckets, rehash','src/core/Hashtable.cpp')],[('entries','bucket chains with retained keys and values','src/core/Hashtable.cpp')])
p('P06','A linked list is an exact sequence and its editing can be undone',
 'After every history of additions, insertions, removals, swaps and clearing, a linked list holds exactly the model sequence when walked by its cursor or by an iterator, and reports its first and last element and size. It neither retains nor releases the elements. A copy holds the same sequence and is independent of the original. When an undo manager records the edits, undoing restores every earlier sequence and redoing every later one.',
 ['histories'],'all operation sequences, with and without an undo manager, including undo and redo at every point',
 'LinkedListTest runs one fixed sequence.',
 [S+'LinkedList.cpp',I+'LinkedList.h'],[('node links','src/core/LinkedList.cpp'),('recording of pointer changes','src/core/UndoManager.cpp')])
p('P07','Arrays and stacks are exact containers',
 'After every history of operations the typed arrays and stacks hold exactly the elements of the model sequence, in order, through growth, copying, sorting, insertion and removal. Value elements are constructed and destroyed in balance, elements of pointer arrays are never touched, and positions outside an array and elements of an empty stack are rejected by an exception. Copies have elements of their own.',
 ['histories'],'all operation sequences over the array and stack types',
 'There are no unit tests for arrays and stacks of their own.',
 [I+'Array.h',I+'Stack.h',I+'Vertex3.h'],[('growth and element shifting','include/core/Array.h'),('push/pop','include/core/Stack.h')])
p('P08','Character encodings round-trip and agree with the standards',
 'Encoding a text in UTF-8, UTF-16, US-ASCII, Windows-1252 or Mac Roman and decoding the bytes gives the text back for every character the encoding can represent, and the bytes and decoded characters are those of the published standard. Decoding arbitrary bytes, also truncated or invalid ones, terminates without touching memory outside the given bytes. URL encoding leaves only the ASCII characters allowed in a URL and decoding it restores the text.',
 ['inputs'],'all texts of 16-bit characters and all byte strings for every registered encoding and alias',
 'StringTest checks a few umlauts; tables of 128 entries and truncated sequences are not tested.',
 [S+'UTF8Decoder.cpp',S+'UTF16Decoder.cpp',S+'Windows1252Decoder.cpp',S+'MacRomanDecoder.cpp',S+'Charset.cpp',S+'CharsetDecoder.cpp'],[('decoders and tables','src/core/*Decoder.cpp'),('registry by name','src/core/Charset.cpp')])
p('P09','Byte arrays are exact and always terminated byte sequences',
 'After every history of construction, copying, assignment, resizing, filling, sorting, replacing and element access a byte array holds exactly the bytes of the model sequence followed by a zero byte, and copies are independent of each other.',
 ['histories'],'all operation sequences over several arrays, all sizes and contents',
 'ByteArray has no unit test.',
 [S+'ByteArray.cpp',I+'ByteArray.h'],[('buffer and raw size','src/core/ByteArray.cpp')])
p('P10','Base64 encoding is RFC 4648 and is inverted by decoding',
 'For every byte string the encoder produces exactly the padded RFC 4648 text of it, and the decoder returns exactly the original bytes and length. Decoding any other text never touches memory outside the given text and its own result, and yields the bytes encoded before the first character outside of the alphabet.',
 ['inputs'],'all byte strings of all lengths modulo 3, and all malformed texts',
 'Base64 has no unit test.',
 [S+'Base64.cpp',I+'Base64.h'],[('bit packing and padding','src/core/Base64.cpp')])
p('P11','Checksums equal their definition and can be computed piecewise',
 'The 16-bit CRC of every buffer and start value equals the bitwise polynomial definition (reflected polynomial 0xA001), and computing it over consecutive pieces, feeding each result as the next start value, gives the checksum of the whole.',
 ['inputs'],'all buffers, start values and splits',
 'The CRC has no unit test; a wrong table entry shows only for particular bytes.',
 [S+'CRC.cpp',I+'CRC.h'],[('lookup table','src/core/CRC.cpp')])
p('P12','Whatever is compressed is restored unchanged',
 "For every byte string the compressed output is a complete zlib stream that a reference decompressor expands to the original, and the library's own decompressor returns the original bytes and length, also for empty, incompressible and large input.",
 ['inputs'],'all byte strings from 0 to several hundred KB of varying redundancy',
 'DeflateTest compresses one text.',
 [S+'Deflater.cpp',S+'Inflater.cpp'],[('output buffer handling','src/core/Deflater.cpp'),('block decoding','src/core/Inflater.cpp')])
p('P13','The decompressor expands every valid deflate stream',
 'Every valid deflate stream, with stored, fixed and dynamic Huffman blocks in any mixture, any legal code lengths and any match length and distance up to 32 KB, is expanded to exactly the bytes the format defines, and the decompressor reports exactly that length.',
 ['inputs'],'all valid streams: every zlib level, strategy, window and flush pattern, and streams assembled bit by bit from random blocks and Huffman codes',
 'DeflateTest expands one stream made by one compressor setting.',
 [S+'Inflater.cpp',I+'Inflater.h'],[('Huffman trees and back references','src/core/Inflater.cpp')])
p('P14','Corrupt compressed data is rejected or expanded, never harmful',
 'For every byte string given to the decompressor, truncated, corrupted or random, it terminates after work bounded by input and declared output, and either throws the library\'s exception or returns bytes, without touching memory outside the given input and its own buffers.',
 ['inputs','fault_sequences'],'all byte strings, in particular single and multiple corruptions and truncations of valid streams',
 'No test feeds corrupt data.',
 [S+'Inflater.cpp'],[('input bounds and code validation','src/core/Inflater.cpp')])
p('P15','A written ZIP archive contains exactly what was put into it',
 'An archive written with any sequence of named members is well formed (central directory, sizes, CRC-32 and offsets right) and reading it back lists exactly these names in order with their sizes and returns exactly their bytes, including when the target file existed before. Looking up a name finds the member with that name and no other.',
 ['inputs','histories'],'all lists of member names and contents, over new and existing target files, with absolute and relative paths',
 'There is no unit test for ZIP output.',
 [S+'ZipFile.cpp',S+'ZipOutputFile.cpp',S+'Deflater.cpp'],[('directory writing','src/core/ZipOutputFile.cpp'),('directory reading','src/core/ZipFile.cpp')])
p('P16','Foreign ZIP archives are read correctly and damaged ones do no harm',
 'Archives made by other writers (stored or deflated members, extra fields, member and archive comments, directories, data in front with correct offsets) are listed and extracted exactly. A damaged archive is rejected by an exception or read, without touching memory outside the data and without endless loops, and the stream of a member gives exactly the number of bytes the member declares or is rejected.',
 ['inputs','fault_sequences'],'all archives assembled from random members and options, and their corruptions and truncations',
 'No test opens a damaged or foreign archive.',
 [S+'ZipFile.cpp',I+'ZipFile.h'],[('end-of-directory search, entry parsing','src/core/ZipFile.cpp')])
p('P17','Memory streams behave like a file of bytes',
 'After every sequence of reads, writes, seeks and moves a memory stream has the content, size, position and end-of-data state of a byte sequence with a cursor. An operation beyond the end transfers only what fits or throws, and the cursor never leaves the data.',
 ['histories','inputs'],'all operation sequences and all values in both byte orders',
 'Streams have no unit tests of their own.',
 [S+'MemoryStream.cpp',S+'Stream.cpp',I+'Stream.h'],[('cursor and bounds','src/core/MemoryStream.cpp'),('conversion','src/core/Stream.cpp')])
p('P18','Numbers are written in the documented byte order and read back unchanged',
 'Every 16-, 24-, 32- and 64-bit integer, float and double written in a byte order, into memory at any offset or to a stream, has the standard representation of that width, changes no other byte, and is read back as exactly the same value by every reading function of that type. The returned width is the number of bytes written.',
 ['inputs','histories'],'all typed value sequences, all values including NaN payloads and infinities',
 'The serializer has no unit test.',
 [S+'Serializer.cpp',I+'Serializer.h'],[('typed read and write','src/core/Serializer.cpp')])
p('P19','Path operations agree with each other and with the path syntax',
 'For every path the normal form has no doubled or trailing separators and names the same place; name, base name, extension and parent are the parts of that path and composing parent and name gives the path back. Hidden, absolute and child tests follow from the parts, and the order of files puts directories first and then follows the path.',
 ['inputs'],'all absolute and relative path texts, with dots, dot-dots, repeated separators, several extensions and non-Latin names',
 'FileTest uses a few fixed paths.',
 [S+'File.cpp',I+'File.h'],[('normalisation and splitting','src/core/File.cpp')])
p('P20','File operations change exactly the named files, with exact contents',
 'After every sequence of create, write, append, read, seek, rename, tag, delete and list operations in a directory, the files, their contents, sizes, kinds, times, tags and listings are those of a model file system; creating never changes an existing file, and operations on missing files report failure and change nothing. Data written and closed is read back byte for byte.',
 ['histories','inputs'],'all operation sequences over a small tree of files, directories and links inside a scratch directory',
 'FileTest performs one fixed sequence.',
 [S+'File.cpp',I+'File.h'],[('system calls','src/core/File.cpp')])
p('P21','Preferences survive saving and loading unchanged',
 'After any sequence of setting values of all types, every key returns the last value set for it, and saving and loading the file (any number of times, over any earlier file) gives exactly the same keys and values, for all values including backslashes, tabs and line breaks. Unset keys return the given default. A copy of the preferences holds the same values and is independent of the original.',
 ['histories','inputs'],'all sequences of sets, saves and loads over keys and values without surrounding white space',
 'There is no unit test for preferences.',
 [S+'Preferences.cpp',I+'Preferences.h'],[('escaping and line format','src/core/Preferences.cpp')])
p('P22','What the XML writer writes the SAX parser reads back',
 'For every tree of elements, attributes and text written with the XML writer the output is well formed, and parsing it reports the same elements properly nested, the same attributes and the same text. Reserved characters in text and attribute values are escaped on writing and restored on reading.',
 ['inputs','histories'],'all element trees with arbitrary names, attribute lists and texts with reserved and non-Latin characters',
 'There are no unit tests for XML.',
 [S+'XMLWriter.cpp',S+'SAXParser.cpp',S+'SAXAttributes.cpp'],[('escaping','src/core/XMLWriter.cpp'),('tokenizing and entity decoding','src/core/SAXParser.cpp')])
p('P23','The SAX parser reports the document exactly and survives any input',
 'For every well-formed document of elements, attributes, text, comments, processing instructions, entities and CDATA sections the parser delivers exactly the events of the document in order. For every other byte string it terminates and reports an error or events, without touching memory outside the document.',
 ['inputs','fault_sequences'],'all generated documents in varying white space, quoting and self-closing styles, and arbitrary or corrupted byte strings',
 'There are no unit tests for XML.',
 [S+'SAXParser.cpp',I+'SAXParser.h'],[('state machine','src/core/SAXParser.cpp')])
p('P24','Undo restores every earlier state and redo every later one',
 'For every history of recorded changes grouped in steps, undoing returns the data to exactly the state at the end of the previous step, redoing returns it to exactly the later state, and any mixture of undo and redo walks this line of states. A new change after an undo discards the redo steps, and the reported numbers of undo and redo steps and the presence of an open step always match this line.',
 ['histories'],'all sequences of changes of every recordable type, step boundaries, undo, redo and clear',
 'UndoManagerTest records a few steps; interleavings with several changes of one location, empty steps and limits are not reached.',
 [S+'UndoManager.cpp',S+'UndoStep.cpp',S+'UndoChange.cpp',I+'UndoManager.h',I+'UndoData.h'],[('step lists','src/core/UndoManager.cpp'),('old and new value per change','include/core/UndoData.h')],
 [('steps','list of closed steps with the current position','src/core/UndoManager.cpp')])
p('P25','Transactions take effect completely or not at all',
 'Closing the outermost transaction keeps all its changes if every part of it, at every nesting level, succeeded, and otherwise restores the data to exactly the state at the opening of the outermost transaction and leaves the undo and redo history as it was. Until then no inner transaction has a lasting effect of its own, and committed changes are undone together with their step.',
 ['histories','fault_sequences'],'all nestings of transactions with changes and with failures at any level and position, within and between undo steps',
 'UndoManagerTest covers one nesting with one failure.',
 [S+'UndoManager.cpp',I+'UndoManager.h'],[('transaction stack and rollback','src/core/UndoManager.cpp')])
p('P26','Editable objects set, validate and undo their members exactly',
 'Setting a member through an editable object stores exactly the new value and reports success, reports "not changed" for an equal value, and rejects values outside the allowed range, leaving the object unchanged. Every accepted change can be undone and redone exactly, and property values handed to user interfaces return the value, type and equality they were given.',
 ['histories','inputs'],'all sequences of sets with all values (also NaN, infinities, borders), undo and redo',
 'EditableObjectTest tries one value per type.',
 [S+'EditableObject.cpp',S+'Property.cpp',I+'Property.h'],[('setMember','src/core/EditableObject.cpp'),('typed union','src/core/Property.cpp')])
p('P27','A document knows its changes and restores them',
 'A document reports unsaved changes exactly as set by closing, undoing or redoing a step, or by an explicit mark, since it was last saved; it keeps its file and its regeneration flag, and forwards undo, redo, rollback and transactions to its undo manager exactly, which can be switched off and on. Its objects return to the state of the step that is undone.',
 ['histories'],'all sequences of edits, undo, redo, saves and listener registrations',
 'There is no unit test for documents.',
 [S+'Document.cpp',I+'Document.h'],[('change flag, file and lifecycle','src/core/Document.cpp')])
p('P28','Diffs are minimal and transform the first sequence into the second',
 'For every two sequences the reported distance is the Levenshtein distance, and the reported script consists of exactly that many operations and turns the first sequence into the second when applied in order; copies of it are independent. Equal sequences give an empty script. Changed values are shown with both values and their exact difference, equal ones not at all.',
 ['inputs'],'all pairs of sequences, in particular with repetitions and with one a part of the other',
 'There is no unit test for diffs.',
 [S+'Diff.cpp',S+'DiffDistance.cpp',S+'DiffDiag.cpp',S+'DiffBacktrace.cpp',S+'DiffInfo.cpp'],[('lazy diagonals','src/core/DiffDiag.cpp'),('backtrace','src/core/DiffBacktrace.cpp')])
p('P29','Dates follow the Gregorian calendar, exactly and reversibly',
 'For every supported date and time, setting the parts and reading them returns the same parts, the instant is the count of milliseconds the Gregorian calendar defines, and week day, day of year, leap year, and month length follow the calendar. Parts beyond their range carry over into the next larger part, comparisons follow the instants, and an instant converted to parts and back is unchanged.',
 ['inputs'],'all instants of the supported range, before and after 1970, including leap days, century years and negative values',
 'DateTest uses fixed dates, nearly all after 1970.',
 [S+'Date.cpp',I+'Date.h'],[('day count arithmetic','src/core/Date.cpp')])
p('P30','Formatted dates show exactly the parts of the date',
 'For every date of the years 0 to 9999 and every pattern over the letters the formatter implements (y M d E H m s S), the formatted text is the concatenation of the pattern\'s fields, each the corresponding part of the date with the width the pattern asks for, and of the literal text, quoted or not, in order. The text form of a date names the same instant.',
 ['inputs'],'all dates and all patterns over the implemented letters, literals and quotes; the documented letters that are not implemented are a recorded finding',
 'DateTest formats one pattern.',
 [S+'DateFormatter.cpp',S+'Date.cpp'],[('pattern tokens','src/core/DateFormatter.cpp')])
p('P31','Colours convert and blend within range and without drift',
 'Every colour returns the components and mode it was given, conversions between RGB, CMYK and greyscale equal the documented formulas, keep the alpha value and stay in range, greys and integer and text forms return to the original colour. Blending with opacity zero or one returns one of the operands, interpolating stays between the operands, and translucent colours are blended by their own alpha values (Porter-Duff over).',
 ['inputs'],'all component values in all modes',
 'There is no unit test for colours.',
 [S+'Color.cpp',I+'Color.h'],[('conversion formulas','src/core/Color.cpp')])
p('P32','Tolerant comparisons form a consistent order and helpers are exact',
 'For every two numbers exactly one of "less", "equal" and "greater" holds, the combined relations are the corresponding disjunctions, and they follow the numbers\' difference and the tolerance. The rounding, floored division, power of two, angle and interpolation helpers equal their mathematical definition, random numbers stay in the asked range, and helpers that exchange values keep exactly the same values.',
 ['inputs'],'all finite doubles and integers, in particular near the tolerance, signed zeros and equal arguments',
 'MathTest checks a few values per helper.',
 [S+'Math.cpp',I+'Math.h'],[('tolerance relations','src/core/Math.cpp')])
p('P33','Matrix and vector algebra obeys its laws in every dimension',
 'Sums, differences, products, transposes, norms and matrix-vector products equal their definition for every shape, determinants and inverses do so up to 4x4 and eigenvalues of symmetric matrices up to 3x3, singular matrices are refused and stay unchanged, and operands whose shapes do not fit are rejected by an exception. Copies are independent of their source.',
 ['inputs','histories'],'all shapes from 1x1 to 6x6 including non-square ones, integer and real entries, singular and regular matrices',
 'MatrixTest uses a few fixed square matrices.',
 [S+'Matrix.cpp',S+'Vector.cpp',I+'Matrix.h',I+'Vector.h'],[('index arithmetic and elimination','src/core/Matrix.cpp')])
p('P34','Rotations and transforms preserve what they must and can be inverted',
 'Rotating vertices and generating rotation matrices preserves lengths, angles and orientation, full turns and opposite rotations cancel, and the matrix rotating one direction into another does so for every pair of directions. Moving, scaling, mirroring, rotating and coordinate system transforms map points as defined, composed transforms act like applying the parts one after the other, and regular ones are undone by their inverse.',
 ['inputs'],'all vertices, axes, angles and transform chains in a bounded range, including opposite and parallel directions',
 'VertexTest and MatrixTest use axis-parallel examples.',
 [S+'Vertex2.cpp',S+'Vertex3.cpp',S+'Transform.cpp',S+'Matrix.cpp'],[('rotation matrices','src/core/Matrix.cpp'),('vertex arithmetic','src/core/Vertex3.cpp')])
p('P35','Geometric predicates and constructions satisfy their defining conditions',
 'Intersection, closest and extension points lie on the objects they are said to lie on and are the closest ones, a result is reported exactly if one exists, distances equal the minimum over the object, and results do not depend on the order of symmetric arguments. Circles through three points or along two tangents and angle bisectors satisfy their definition.',
 ['inputs'],'all points, lines, circles, arcs, ellipses, planes and polygons in a bounded coordinate range including degenerate positions outside a guard band',
 'GeometryTest uses hand-picked positions.',
 [S+'Geometry.cpp',I+'Geometry.h'],[('constructions','src/core/Geometry.cpp')])
p('P36','Rectangles and extents behave like the point sets they bound',
 'A rectangle or extent contains a point exactly if its coordinates are within the bounds; uniting gives the smallest one containing both, intersection tests agree with the existence of a common point, and every added point is contained afterwards. Moving, growing and accessors change exactly the stated sides.',
 ['inputs','histories'],'all rectangles, points and sequences of additions on a coordinate grid',
 'There are no unit tests for rectangles and extents.',
 [S+'Rect.cpp',S+'Extents.cpp',S+'Point.cpp',S+'Size.cpp'],[('bounds arithmetic','src/core/Rect.cpp, src/core/Extents.cpp')])
p('P37','NURBS curves satisfy their definition',
 'For every degree, control polygon, weights and clamped knot vector, evaluating the curve inside its parameter range gives the point defined by the rational B-spline basis, starts and ends in the first and last control point and stays within the convex hull of the control points. The parameter range is that of the knot vector. A copy of a curve is the same curve and outlives the original.',
 ['inputs'],'degrees 1 to 5, clamped non-decreasing knot vectors with multiplicities, positive weights',
 'There is no unit test for NURBS.',
 [S+'NURBS.cpp',I+'Nurbs.h'],[('basis functions','src/core/NURBS.cpp')])
p('P38','Objects live exactly as long as they are referenced',
'After every history of retain, release, autorelease and draining of the autorelease pool, also when destructors release or autorelease further objects and when several threads do so at once, an object is destroyed exactly once, at the moment its last reference is given up, and not before. Draining releases each object exactly as often as it was added, in the order of addition, including what is added meanwhile, and always returns. A new object has one reference, also when it is a copy; assignment and marking leave the references alone, and the mark stays as it was set.',
['histories','schedules'],'all sequences of retain, release, autorelease, drain, copy, assignment and marking over objects that own each other, on one or several threads',
'No unit test observes destruction.',
[S+'Object.cpp',S+'AutoreleasePool.cpp'],[('reference count','src/core/Object.cpp'),('pool','src/core/AutoreleasePool.cpp')])
p('P39','Mutexes exclude and threads run and end exactly as asked',
'No two threads are ever between lock and unlock of the same mutex, every lock is granted eventually, and data changed under a mutex shows every change. A started thread runs its work exactly once per start, under the name it was given; it reports being alive from its start until interrupt is called, however early that is; interrupt ends every sleep, returns after the work is complete and does no harm to a thread that is not running. Sleeping lasts at least the given time and ends soon after it, unless the thread is woken; a sleep without time lasts until it is woken. Waiting on a mutex leaves it free for others.',
['schedules','histories'],'all schedules of several threads over shared mutexes and all orders of start, wake-up and interrupt',
'There are no unit tests for threads and mutexes.',
[S+'Mutex.cpp',S+'Thread.cpp',I+'Mutex.h',I+'Thread.h'],[('pthread wrappers','src/core/Mutex.cpp, src/core/Thread.cpp')])
p('P40','Translations are found exactly and damaged catalogues do no harm',
'For every message catalogue in the little-endian GNU .mo format, whatever the order of its parts, each contained message returns exactly its translation, every other text and every message with an empty translation returns itself, and later catalogues add to or replace earlier entries. A catalogue that is damaged, of another kind or not completely readable changes nothing, and no memory outside of it is touched.',
['inputs','fault_sequences'],'all catalogues of random messages and translations, their corruptions and truncations, and streams that fail',
'There is no unit test for translations.',
[S+'I18nBundle.cpp',I+'I18nBundle.h'],[('catalogue parsing','src/core/I18nBundle.cpp')])
p('P41','Characters are classified and changed in case consistently',
'For every 16-bit character, digit, digit value, letter, white space, upper and lower case tests agree with ASCII and Latin-1 (all other characters are no letters); changing case keeps the letter, is idempotent, and upper and lower case invert each other where both exist. Comparison of characters follows their code. Changing the case of a text changes each of its characters, and comparing without case ignores exactly this.',
['inputs'],'all 65536 characters and pairs of them',
'StringTest touches a handful of characters.',
[S+'Character.cpp',I+'CharArray.h'],[('tables','src/core/Character.cpp')])
p('P42','The test framework counts and reports assertions exactly',
'For every sequence of assertions of every type, a test counts each assertion once, and an error exactly when the assertion is not fulfilled (numbers of different width and sign by their value, floating point numbers with the tolerance of 1E-6, texts exactly or without case). Each failed assertion and each exception that leaves a test shows its message, and no other assertion does. A test vector runs its tests once each and in order, or only the one selected by its index, continues after an exception, and returns the number of errors, however often it is executed.',
['inputs','histories'],'all sequences of assertions with arbitrary operands in several tests, with and without exceptions and selected tests',
'The framework tests everything else and itself is not tested.',
[S+'Test.cpp',S+'TestVector.cpp',I+'Test.h'],[('counting','src/core/Test.cpp'),('selection','src/core/TestVector.cpp')])
p('P43','Sessions keep their settings, and messages arrive as they were given',
'What is set in the global preferences before System::quit or System::savePreferences is there after the next System::init with the same bundle id, exactly and completely, also in a new process, and what was not saved leaves the last saved state; bundles do not influence each other. Each logged message above the debug level is printed exactly once and unchanged on one line, with date, label and colours exactly as configured; the last error message is that of the last logged error. An exception and its copies carry their message unchanged and log it as an error. A dynamic library and its symbols are found if and only if they exist.',
['histories','crash_points','inputs'],'all sequences of sessions with and without an orderly end, of log settings, messages and exceptions',
'No unit test restarts the system or looks at what is logged.',
[S+'System.cpp',S+'Exception.cpp',S+'Preferences.cpp'],[('init and quit','src/core/System.cpp'),('messages','src/core/Exception.cpp')])
p('P44','Memory and open files are given back',
'After every history of operations on the library, successful or refused, whose objects are released by the documented means, the memory and the open files it took are given back: repeating the history does not increase what the process holds. This also covers damaged archives, data and documents, exceptions on the way and objects that are used again.',
['histories','inputs','fault_sequences'],'all histories over strings, containers, byte buffers, compression, archives, files, preferences, XML, documents with undo, properties, sequence differences, matrices, dates and threads',
'The unit tests never look at the memory that stays behind.',
[S+'Object.cpp',S+'AutoreleasePool.cpp',S+'Inflater.cpp',S+'ZipFile.cpp',S+'File.cpp',S+'Preferences.cpp',S+'UndoManager.cpp',S+'DiffDistance.cpp',S+'Matrix.cpp'],[('owned buffers','src/core/Inflater.cpp'),('release of members','src/core/Preferences.cpp')])
p('P45','An application finds its places, its resources and its language',
'For every executable, environment and set of resource files, the path, name and directories of the application are those of the executable and its user; a resource exists, has the content and obeys the stream operations of its file, and its copies share one stream. The language is that of the user\'s messages, whatever other categories of the locale are set to, and the translation file is the first existing one of the documented sequence (with name and region, without name, without region, without both). Numbers are written and read independently of the language.',
['inputs','histories'],'all executable paths, environment variables of the locale, sets of translation files, asked languages and sequences of stream operations',
'The unit tests run in one place and one language and have no resources.',
[S+'Resource.cpp',S+'I18nBundle.cpp',S+'System.cpp',S+'File.cpp'],[('fallback','src/core/I18nBundle.cpp'),('language','src/core/System.cpp')])
p('P46','A failing or changing file system is reported and does no harm',
'If the file system refuses or fails an operation (a missing or forbidden file, too many open files, a read error, a full disk, a failing close, a directory that changes while it is listed), the library reports it: by the status of open, a short count of read and write, an exception or - for preferences and translations - a logged error. It never crashes, hangs, reports success for data that was not stored, or hands out a part of the data as if it was all; what was read before the failure is right, the objects stay usable, no file that the library opened or created for itself is left open or left over, and the same operation succeeds with the right result when the file system works again. Operations on a file that is not open are refused. (A preferences or XML file that does not exist counts as empty.)',
['fault_sequences','inputs','histories'],'all instants and kinds of failures of opening, reading, writing, closing and listing, under files, preferences, XML documents, archives, translations and directories of any content',
'The unit tests only use a file system that works.',
[S+'File.cpp',S+'Stream.cpp',S+'Preferences.cpp',S+'SAXParser.cpp',S+'ZipFile.cpp',S+'ZipOutputFile.cpp',S+'I18nBundle.cpp'],[('status and exceptions','src/core/File.cpp'),('short reads','src/core/ZipFile.cpp')])
p('P47','Different objects can be used in different threads',
'Threads that work on objects, files and archives of their own do not influence each other: whatever each of them does with strings, character sets, containers, byte arrays and streams, compressed data, archives (also in the same folder), files, preferences, XML, documents with undo, numbers, dates, exceptions, translations and comparisons gives the results it gives when it runs alone, without a data race. Messages logged by several threads are each printed once, complete and on a line of their own, and asking for the last error meanwhile is safe. If several threads create a file of the same name, exactly one of them succeeds.',
['schedules','histories'],'all histories of several threads on objects of their own, in all schedules',
'The unit tests run in one thread; only Mutex and Thread are tested at all, and sharing by mistake (static buffers, lazily filled tables, common file names) needs a schedule to show.',
[S+'System.cpp',S+'ZipOutputFile.cpp',S+'String.cpp',S+'Charset.cpp',S+'Inflater.cpp',S+'File.cpp',S+'Exception.cpp'],[('log is locked','src/core/System.cpp'),('temporary file','src/core/ZipOutputFile.cpp')])
