BASE = 'Trusts the clang front end, the VC generator in /verif/engine and z3; integers and pointers are exact machine values. '

p('C01', 'UTF-8 encoding and decoding are inverse, with minimal-length encodings',
  'Encoding any 32-bit character (other than the markers for undecodable bytes and for "no character") as UTF-8 writes the 1 to 6 byte encoding of minimal length, exactly as long as the length function announces, touches no other byte, and decoding it yields the same character and consumes exactly those bytes whatever follows. A padded zero of any length from 1 to 6 decodes to the NUL character in exactly that length.',
  ['inputs'], 'every 32-bit character value; every content of the surrounding buffer',
  'the tests encode a few dozen characters; the guarantee is for all 2^32 values and any neighbouring bytes',
  ['include/char_encoding.h'], [('UTF8Put', 'include/char_encoding.h'), ('UTF8Get', 'include/char_encoding.h'), ('UTF8Len', 'include/char_encoding.h'), ('UTF8PutPaddedZero', 'include/char_encoding.h')],
  BASE + 'Loop-free paths over all 2^32 characters, no bound.')

p('C02', 'UTF-8 decoding of arbitrary bytes is total, progresses, and stops at the NUL',
  'Decoding at any position of any byte string returns a value and advances by 1 to 6 bytes: a well-formed sequence yields its payload, and any byte that does not begin one yields the marker value 0x800000xx for that byte xx and consumes just it, and re-encoding the marker yields that byte again. Peeking, measuring a length from the text and decoding agree with each other, and none of them reads beyond or steps over a terminating NUL even when a sequence is truncated.',
  ['inputs'], 'every byte string up to its NUL, every position',
  'tests decode valid text and a handful of malformed bytes; the guarantee is for every byte string including truncated tails',
  ['include/char_encoding.h'], [('UTF8Get', 'include/char_encoding.h'), ('UTF8Peek', 'include/char_encoding.h'), ('UTF8Len(const UTF8*)', 'include/char_encoding.h'), ('UTF8Is1st/UTF8Is2nd/UTF8CorrectLen/UTF8EncodeIllegal', 'include/char_encoding.h')],
  BASE + 'Every read is an in-bounds obligation against a text that ends at its NUL.')

p('C03', 'Stepping backwards through UTF-8 undoes stepping forwards',
  'Backing up from a position that was reached by decoding forward from the start of a text returns to the start of the last character decoded, for well-formed, malformed and truncated text alike. Backing up never goes before the limit given, and reports that there is nothing before the limit.',
  ['inputs', 'histories'], 'every byte string, every sequence of forward steps, every limit',
  'tests back up over a few valid characters; malformed and truncated text and every limit are not covered',
  ['include/char_encoding.h'], [('UTF8Backup', 'include/char_encoding.h')],
  BASE + 'The history is covered by an inductive lemma: forward steps preserve the boundary predicate under which the backup contract returns the previous character.')

p('C04', 'UTF-16 encoding and decoding are inverse in both byte orders',
  'For every Unicode scalar value, encoding as UTF-16 writes one unit, or the high/low surrogate pair the Unicode standard defines, in the byte order requested, touches nothing else, and decoding it returns the same value and consumes the same units. The length functions agree with what is written and read.',
  ['inputs'], 'every Unicode scalar value, both byte orders',
  'tests cover a few characters and mostly one byte order',
  ['include/char_encoding.h'], [('UTF16Put/UTF16Get/UTF16Len', 'include/char_encoding.h')],
  BASE + 'Text handed to the decoder is assumed well formed.')

p('C05', 'Character classification and case conversion are pure functions of the character',
  'For every 32-bit character, each classification predicate, digit value and case conversion has one fixed answer, that of the Unicode character database edition the library embodies: letters, white space, ideographs, decimal digits (with their value, in any script), upper, lower and title case mappings. The answer does not depend on earlier queries or on other threads asking at the same time, and a character without a mapping is returned unchanged.',
  ['inputs', 'schedules', 'histories'], 'every 32-bit character value, every history of earlier queries, every interleaving with concurrent queries',
  'the tests sample a few characters per table; the memo of the last table hit makes answers depend on query history if it is wrong',
  ['src/char_encoding.cpp'], [('UCS4IsAlphabetic/UCS4IsDecimal/UCS4Digit', 'src/char_encoding.cpp'), ('UCS4ToUpper/UCS4ToLower/UCS4ToTitle', 'src/char_encoding.cpp'), ('UCS4IsWhite/UCS4IsIdeographic', 'src/char_encoding.cpp')],
  BASE + 'The expected tables are generated from the Unicode database recorded in contracts/c05_tables.py (differences to today\'s Unicode listed in DESIGN.md). Memos are modelled as values that may change at any moment.')

p('C06', 'Error numbers pack and unpack losslessly',
  'An error number packs a message set and a message number into 32 bits such that both can be read back for every pair in range, different pairs give different numbers, the flag bits that mark it as an error (and as custom) never collide with set or message, and an error tests as an error exactly when it is not the zero "no error" value.',
  ['inputs'], 'every 32-bit error number, every set and message number',
  'tests use a few constants; bit-field overlap shows only for particular set numbers',
  ['include/error.h'], [('ErrNum', 'include/error.h')],
  BASE + 'Loop-free, all values.')

p('C07', 'Guarded pointers move exactly as asked but never outside their guards',
  'A guarded character or UTF-8 pointer moves by exactly the number of characters added or subtracted, unless a guard stops it: forwards it stops at the NUL that ends the text and never passes it, and (for the fully guarded pointers) backwards it stops at the origin. This holds for every operator (+= -= + - ++ -- in both forms), for results and for the pointer itself, and copies keep the guards of the original. The end-of-text and start-of-text tests are true exactly at those ends and dereferencing yields the character there.',
  ['inputs', 'histories'], 'every text, origin, position and amount, every operator',
  'tests walk along one short text by one or two characters',
  ['include/char_ptr.h', 'include/utf8_ptr.h'], [('NulGuardedCharPtr/GuardedCharPtr', 'include/char_ptr.h'), ('NulGuardedUTF8Ptr/GuardedUTF8Ptr', 'include/utf8_ptr.h')],
  BASE + 'Loops by inductive invariants (position after k steps), no bound. UTF8Get and UTF8Backup by their contracts, discharged in C02 and C03. Text before an unguarded origin is assumed readable where a pointer backs up over it.')

ARRA = 'Inductive invariants for every loop, no bound on length (up to 2^26 elements); ArrayBody\'s own operations have contracts that their callers are checked against. select and delete_if: bounded, at most 3 elements. Verified for int elements.'
p('C09', 'Every Array operation gives the sequence that operation defines',
  'An Array behaves as a sequence of elements, whatever slice of whatever shared, owned or borrowed body it is: slicing, head, tail, drop, concatenation, appending, inserting anywhere (another array, the same array or a slice of it), removing, reversing, element assignment, searching from either end, binary search, comparison, and the visiting and mapping functions all give exactly the result the sequence definition gives, for empty and null arrays too, and operations that only look change nothing.',
  ['inputs', 'histories'], 'every length, content, position and count in the documented domain, every kind of body and sharing (an arbitrary operation from an arbitrary valid state)',
  'tests build a few short arrays; slices with an offset, sole-owner slices, borrowed data and self-insertion are hardly sampled',
  ['include/array.h'], [('ArrayR/Array', 'include/array.h'), ('ArrayBody', 'include/array.h')],
  BASE + ARRA)

p('C10', 'Array copies are independent values and their storage is owned exactly',
  'Copying or slicing an Array shares storage but behaves as copying the value: no operation on one array ever changes the elements another array (or the lender of borrowed data) sees. The reference count of a body always equals the number of its users, storage is freed exactly when its last user goes, never while used, never twice, and nothing is leaked; borrowed data is never freed.',
  ['inputs', 'histories'], 'every operation from every valid state with any number of other users of the same bodies',
  'corruption needs particular sharing, offsets and capacity; tests rarely look at the other holders of a body, and leaks do not fail tests',
  ['include/array.h', 'include/refcount.h'], [('Unshare and the mutating operations', 'include/array.h'), ('ArrayBody', 'include/array.h'), ('Ref/RefCounted', 'include/refcount.h')],
  BASE + ARRA + ' Sequential: reference counts change atomically, one operation at a time.')

p('C08', 'A pegexp text source reads each character once, in order, with exact positions',
  'A PegexpPointerSource delivers the characters (or bytes) of its text one after another up to the NUL, never reads or moves beyond it, and reports end of data exactly there; at the end, or for a null source, reading returns "no character" and changes nothing. At every moment its byte count is the distance from where it started, its line number is one more than the newlines read, its column counts the characters read since the last newline from 1, and it is at the beginning of a line exactly at the start or after a newline. A copy has the same state and is not moved by moving the original, nor the original by the copy; comparing and subtracting sources compares their places in the text.',
  ['inputs', 'histories'], 'every text, well formed or not, every position, every sequence of get_char and get_byte (inductive step from an arbitrary state)',
  'tests match a few ASCII lines and never look at counts, malformed text or mixed byte and character reads',
  ['include/pegexp.h'], [('PegexpPointerSource', 'include/pegexp.h')],
  BASE + 'UTF8Get by its contract, discharged in C02. For the library\'s own source over const UTF8*, with UCS4 and with char characters. string_to is not covered.')

STRA = 'StrBody\'s operations have contracts their callers are checked against; texts are ghost functions from character index to byte; loops by inductive invariants, no bound on length (below 2^26 bytes). Texts are assumed well formed; raw binary bodies are excluded.'
p('C12', 'A string gives its characters, counts and bytes exactly, however it was made',
  'A StrVal built from UTF-8 text (NUL-terminated or by length), from a character, from another string, from a StrRef or over borrowed text has exactly the characters and bytes of that text: its length is the number of characters, numBytes and asUTF8 give exactly its bytes (with a terminating NUL where promised), and the character at every index is the one at that place in the text, whatever was looked up before and in whatever order, for whole strings and for sections of shared bodies. An index just past the end gives NUL. Looking never changes the value of any string, and no byte outside the text (and its NUL) is read.',
  ['inputs', 'histories'], 'every well-formed text, every section of it, every bookmark state left by earlier lookups, every index',
  'tests index a few short strings; the bookmark that remembers the last lookup makes answers depend on history, and multi-byte text and sections are barely sampled',
  ['include/strval.h'], [('StrVal', 'include/strval.h'), ('StrBody::nthChar/numChars', 'include/strval.h')],
  BASE + STRA)
p('C13', 'Substrings, concatenation and insertion give exactly the text described',
  'For all strings: substr, head, tail and shorter give the characters of that range (clipped to the string); + and += append the characters of the right operand, prepend and insert place the other string (possibly the same string or a section of it) at exactly the given character position, leaving the rest in order; repetition gives that many copies. The result has the right length, bytes and characters whatever bodies the operands share, own or borrow, and whatever was looked up in them before.',
  ['inputs', 'histories'], 'every pair of texts and sections, every position and count in range, every sharing of bodies and bookmark state',
  'tests join a few short ASCII strings; sections of shared bodies, self-insertion, multi-byte text and stale bookmarks are not covered',
  ['include/strval.h', 'include/array.h'], [('StrVal::substr/insert/operator+', 'include/strval.h'), ('StrBody::insert', 'include/strval.h'), ('ArrayBody::insert', 'include/array.h')],
  BASE + STRA + ' operator* is checked for 0 to 3 repetitions only (bounded).')
p('C14', 'String copies are independent values and their storage is owned exactly',
  'Copying a StrVal is a value copy: no operation on one string changes the characters of any other string, even one that shares its body, nor borrowed text, and a copy of a string over borrowed text has text of its own. The reference count of a body equals the number of strings that use it; nothing is freed while in use or freed twice, nothing is leaked, and every read and write stays inside its buffer.',
  ['inputs', 'histories'], 'every operation of StrVal from every valid state of its operands: whole or section, shared or sole, owned or borrowed body',
  'tests cannot enumerate sharing histories; a missed copy shows only if another string still looks at the body',
  ['include/strval.h', 'include/refcount.h', 'include/array.h'], [('StrVal::Unshare', 'include/strval.h'), ('StrBody', 'include/strval.h'), ('Ref', 'include/refcount.h')],
  BASE + STRA)
p('C15', 'String comparison is the order of the texts; searches find the right index',
  'Comparing two StrVals orders them by the bytes of their UTF-8 texts (which is the order of the characters), a proper prefix first, and all of == != < <= > >= and compare agree with it. find and rfind of a character or a string, findAny, findNot and their reverses return the first (last) index in the range asked at which the match holds, and -1 exactly if there is none. Nothing beyond either text is read.',
  ['inputs', 'histories'], 'every pair of texts and sections, every search range, every bookmark state',
  'tests compare and search a few short ASCII strings; sections with text after their end and multi-byte characters decide differently',
  ['include/strval.h'], [('StrVal::compare', 'include/strval.h'), ('StrVal::find/rfind/findAny/findNot', 'include/strval.h')],
  BASE + STRA + ' UTF-8 encodings of more than four bytes are ordered by their bytes.')
p('C16', 'asInt32 reads the number a text holds exactly, or reports what is wrong',
  'For every text and every radix from 0 to 36, StrVal::asInt32 skips blanks, an optional sign and blanks after it, and the 0x or 0b prefix where the radix is 0 or that of the prefix (with radix 0, a leading zero followed by anything else means octal, no leading zero decimal), and reads the run of digits that are below the radix (decimal digits of any script, then letters of either case). The result is the exact value with its sign, and the error is zero, exactly when it fits a 32-bit signed integer and only blanks follow; otherwise the error is no-digits, not-a-number, number-overflow or trailing-text as documented (the value is still given with trailing text; its low 32 bits if it fits 64 bits only; 0 beyond), and illegal-radix for any other radix. The count of characters scanned is the end of what was read. The result does not depend on whether error and count are asked for, and nothing beyond the text is read.',
  ['inputs'], 'every text, every radix', 'tests read a few short ASCII numbers in a few radices; which digit overflows depends on all digits before it, without bound',
  ['include/strval.h', 'src/char_encoding.cpp'], [('StrVal::asInt32', 'include/strval.h'), ('StrVal::Digit/HexAlpha', 'include/strval.h')],
  BASE + 'StrVal indexing is by contract (discharged by C12), as is UCS4Digit (C05). The quick tier proves radices 0, 1, 10, 16 and 36; the thorough tier every radix from 0 to 36. Negating 2^63 (a number that does not fit anyway) is taken to wrap.')
p('C18', 'A CowMap is an independent value with exactly the entries put into it',
  'Copying a CowMap shares its storage but behaves as copying the value: insert, put, remove and clear change exactly the given key of the map they are applied to (insert keeps an existing value, put replaces it, remove drops the key), leaving every other entry, and every other map however it shares storage, unchanged. Looking up a key gives its value or the default and adds nothing; find, contains, size, iteration, keys, values, each, all, any, one, select, map and inject see exactly the entries, each once, in key order. The count of a body equals the number of its users; nothing is leaked, freed twice or used after being freed.',
  ['inputs', 'histories'], 'every map of any size, every key and value, every sharing of bodies; any pure function passed in',
  'tests hold one or two small maps and never look at the other users after a change',
  ['include/cowmap.h', 'include/refcount.h'], [('CowMap', 'include/cowmap.h'), ('CowMap::Unshare', 'include/cowmap.h'), ('Ref', 'include/refcount.h')],
  BASE + 'For CowMap<int,int>; std::map is trusted to meet its contract (finite map, ordered iteration); Array<int> by the contract discharged in C09; loops over the entries by inductive invariants, any number of entries below 2^30. Sequential.')
p('C17', 'as_json writes the JSON text of the value, in the layout asked for',
  'For every Variant, as_json gives the JSON text of exactly its value: numbers in decimal, strings in quotes with every character that JSON requires to be escaped escaped so that it reads back as the same character, string arrays and arrays as bracketed lists of their elements in order, maps as braces with every key once in key order with its value, nested to any depth. The compact layouts (-2 and -1) and the indented ones (n for n >= 0) differ only in white space, and each has exactly the documented separators and indentation. The value is not changed.',
  ['inputs'], 'every value of every type, any number of elements, any nesting, every layout',
  'the tests print two or three small structures; separators around the first and last element, empty containers, unusual characters and inner indentation are not sampled',
  ['include/variant.h', 'include/strval.h'], [('Variant::as_json', 'include/variant.h'), ('StrVal::asJSON/toJSON', 'include/strval.h')],
  BASE + 'Texts are sequences of literals and abstract texts; loops over elements by inductive invariants; nested values by induction on as_json\'s own contract. The character-wise replacement (StrBody::transform) is assumed here; the escape of each character is proved for all scalar values.')
p('C19', 'A Variant holds one live value of its type; conversions lose nothing',
  'A Variant always holds exactly one live value of the type it reports, whatever it held before: construction from each type, copying, assignment (also of itself, or of something inside itself) and destruction create and destroy each contained value exactly once, and a copy is equal to and independent of the original. Reading it as another type converts only where nothing is lost (integers that fit, integers to their decimal text, texts of integers); any other request stops at an assertion and never yields a wrong value. << makes the array of its two operands.',
  ['inputs', 'histories'], 'every pair of held and requested types, every value of each, every order of assignments',
  'tests assign and read a few types; missed or double destruction of a member and truncation at the edges of the integer types do not show in them',
  ['include/variant.h'], [('Variant', 'include/variant.h'), ('Variant::coerce/coerce_none', 'include/variant.h'), ('StringArray', 'include/strval.h')],
  BASE + 'Ghost set of live objects: constructors need dead storage, destructors, copies and assignments a live object of that type. The members are values by C09, C10, C12 to C15 and C18.')
p('C20', 'A pattern is read consistently, and never outside its own text',
  'Whatever the pattern text, well-formed or not, matching a pegular expression reads nothing before its first character or after its terminating NUL, and whatever is passed over without being matched (the rest of a rejected alternate, the alternates after the one that matched, the operand of a repetition that matches nothing, a label) ends exactly where matching it would have ended. Literals, escapes, character classes, groups and labels extend as far as the pattern language documents.',
  ['inputs'], 'every pattern text including malformed and truncated ones, every source text and Context',
  'tests match a few dozen well-formed patterns; a skipped part that ends in the wrong place shows only with particular operands',
  ['include/pegexp.h'], [('Pegexp::literal_char', 'include/pegexp.h'), ('Pegexp::char_class', 'include/pegexp.h'), ('Pegexp::skip_atom', 'include/pegexp.h'), ('Pegexp::skip_extended', 'include/pegexp.h')],
  BASE + 'Spec: one-step equations of the pattern language over an abstract pattern, source and context; recursion by contract; partial correctness (termination is not proved).')
p('C21', 'A pegular expression matches exactly what its language defines',
  'At every position of every source text a pattern matches exactly when the documented language says so and ends where it says: literals, escapes, properties, classes (ranges, negation), line and text anchors, sequences, ordered choice that commits to the first alternate that matches, possessive optional, star and plus repetition that stop at an iteration without progress, look-aheads that consume nothing, and groups. A part that fails leaves the position in source and pattern from which the next alternative continues as it was. Matching anywhere finds the first position at which the pattern matches and the end of that match.',
  ['inputs'], 'every well-formed pattern, every source text, every position',
  'tests try a few dozen pattern and text pairs; the guarantee is for every composition of operators',
  ['include/pegexp.h'], [('Pegexp::match', 'include/pegexp.h'), ('Pegexp::match_here', 'include/pegexp.h'), ('Pegexp::match_sequence', 'include/pegexp.h'), ('Pegexp::match_atom', 'include/pegexp.h'), ('Pegexp::char_class', 'include/pegexp.h')],
  BASE + 'Against the same equations as C20, for an abstract source: any text, any character values; loops by inductive invariants, recursion by contract.')
p('C22', 'The captures of a match are those of the path that succeeded',
  'After a match the captures passed to the Context are exactly those of the labelled atoms on the path that matched, in order, each with its label, the text that its atom matched, and the mark that tells whether it lies inside a repetition. Captures made by an alternate, iteration or atom that then failed are rolled back, nothing is captured inside look-aheads, and captures made earlier are kept.',
  ['inputs', 'histories'], 'every pattern, every source text, every earlier history of captures, every nesting of groups, repetitions and look-aheads',
  'tests check the captures of a few successful matches; the rollback after failure in the middle of nested operators is not sampled',
  ['include/pegexp.h'], [('Pegexp::match_atom', 'include/pegexp.h'), ('Pegexp::match_sequence', 'include/pegexp.h'), ('Pegexp::match_here', 'include/pegexp.h')],
  BASE + 'Captures are a ghost history; the Context is any object that obeys its contract (consecutive numbering, rollback restores the history).')
p('C28', 'Counted objects die exactly when the last reference goes, in every schedule',
  'An object managed by Ref is deleted exactly once, exactly when the last Ref to it is destroyed or reassigned, by whichever thread that is, and never while a Ref to it exists; copies, assignments (also to itself, and of raw pointers), casts and temporaries keep the count equal to the number of Refs. A thread touches an object only while it holds a reference to it. Unshare leaves the Ref with an equal object nobody else refers to, and leaves the other users\' object unchanged. Comparing Refs compares the objects.',
  ['inputs', 'schedules', 'histories'], 'every interleaving of any number of threads with Refs of their own, every operation from every count',
  'a test cannot enumerate the interleavings in which two threads drop the last references at the same time',
  ['include/refcount.h'], [('RefCounted', 'include/refcount.h'), ('Ref', 'include/refcount.h')],
  BASE + 'Thread-modular: the count moves arbitrarily between any two accesses, within what threads obeying the same contract can do; sequentially consistent atomics assumed.')
p('C29', 'Latches exclude; each ended thread is handed to exactly one joiner',
  'A latch is held by at most one thread: enter returns only with the latch, probe gains it exactly when it returns true, leave gives it up, holding tells whether the caller has it and changes nothing. Waiting on a condition gives the latch up while asleep and has it again on return; a timed wait ends at now plus the delay, reports 0 left exactly when it timed out, and signals are delivered to a waiter, broadcasts to all. Every resumed thread is registered until it has ended and is joined by exactly one of join, joinAny or its destructor, which releases its system resources: joinAny returns each ended thread once, never a running or already joined one, null only when no thread but main is registered, and never sleeps while an ended thread is registered or no thread is left to wait for; join returns once this thread has ended. A thread object is not touched after its thread was handed out, a thread that was never started is New, and exit ends the calling thread.',
  ['inputs', 'schedules', 'histories'], 'every interleaving of any number of threads that start, end, join and delete one another', 'a test sees a handful of the schedules; a lost wake-up or a reused thread id needs one particular order',
  ['include/thread.h', 'include/lockfree.h', 'include/condition.h', 'src/thread.cpp', 'src/condition.cpp'], [('Thread::joinAny', 'src/thread.cpp'), ('Latch', 'include/lockfree.h'), ('Condition', 'src/condition.cpp')],
  BASE + 'Thread-modular: the registry moves arbitrarily, within its invariant, whenever this thread does not hold the latch. Safety only: that a woken thread eventually runs is left to the scheduler.')
NA = BASE
p('C25', 'A regular expression matches exactly the texts its language defines',
  'For every regular expression and every text, the compiled program matches exactly when, and where, the documented regular expression language says, with the captures of the preferred match.',
  ['inputs'], 'every regular expression and text', 'the tests try a few hundred pairs',
  ['rx/rx_compiler.cpp', 'rx/rx_match.cpp'], [('RxCompiler', 'rx/rx_compiler.cpp'), ('RxMatch', 'rx/rx_match.cpp')],
  na='needs a simulation between the language and the set of concurrent threads of a compiled program, through std::vector and std::function state; the obligations are beyond this VC generator (no separation logic for those containers), and a bounded check would be testing')
