# L: the language ------------------------------------------------------------------------------------------
prop('L01', 'Control flow runs exactly the statements its structure prescribes',
     'For every program, if/else, the loops, switch with fall-through, labelled and plain break and continue, return, throw and '
     'try/catch/finally execute exactly the statements, in exactly the order, that their nesting prescribes. A thrown value is '
     'delivered to the innermost enclosing catch and to no other, also across function calls, and a finally block runs exactly '
     'once however its try statement is left, be it normally, by break, continue or an exception (a return leaves the function at once, without finally).',
     ['programs'], 'all nestings of control statements, all places of throw/return/break/continue within them, all call depths',
     'The tests contain a few fixed nestings; the ways statements can nest and be left are unbounded and interact through a shared try stack.',
     ['src/jsiEval.c', 'src/parser.y', 'src/jsiCode.c'],
     [('try stack and jump fixing', 'src/jsiEval.c: jsi_evalcode_sub, DO_THROW, jsi_pushtry/poptry'),
      ('code generation of loops, labels, switch, try', 'src/jsiParser.y/parser.y, jsiCode.c')],
     state=[('interp->ps / try list', 'what encloses the running instruction', 'jsiEval.c')], observe=['program output'], check=chk())
prop('L02', 'Operators evaluate operands left to right, once, and only when needed',
     'For every expression, operands are evaluated left to right, each at most once, and the right operand of &&, || and ?: only '
     'when its value decides the result; assignment, compound assignment, increment and decrement change exactly the designated '
     'variable, element or property, once, and yield the value the operator defines. Arithmetic, comparison and logical operators yield '
     'the same value for the same operand values wherever the operands come from (literals, variables, elements, properties, calls).',
     ['programs', 'inputs'], 'all expression trees over side-effecting operands',
     'Tests evaluate a few dozen fixed expressions; operand sources, precedence and side effects combine without bound.',
     ['src/jsiEval.c', 'src/parser.y', 'src/jsiValue.c'],
     [('operator opcodes', 'src/jsiEval.c: OP_ADD.. OP_INC, OP_ASSIGN, OP_JTRUE_NP'), ('precedence', 'src/parser.y')],
     observe=['value and effect trace of the expression'], check=chk())
prop('L03', 'Closures, scopes and this bind to the right variables for all call histories',
     'Every function sees the variables of the scope it was created in, each call of the enclosing function creating a fresh set of them; two '
     'closures of the same activation share them, closures of different activations never do. Arguments, this, arguments.length, call, apply, '
     'bind and new give the callee exactly the values passed, and no call changes the caller\'s variables other than by assignment through a shared scope or object.',
     ['programs', 'histories'], 'all sequences of closure creation, call, recursion and variable update',
     'Tests fix a handful of closures; sharing and freshness are statements about all histories of creations and calls.',
     ['src/jsiFunc.c', 'src/jsiEval.c', 'src/jsiScope.c', 'src/jsiUserObj.c'],
     [('scope chain capture', 'src/jsiEval.c OP_FUNC, jsiScope.c'), ('call set-up, this and arguments', 'src/jsiFunc.c, jsiEval.c jsiEvalFunction'),
      ('call/apply/bind', 'src/jsiProto.c / jsiFunc.c')],
     observe=['values read through closures'], check=chk())
prop('L04', 'Objects are maps with prototypes: every view shows the last writes',
     'After any history of property set, delete, accessor definition, prototype inheritance and freeze, reading a property gives the value last '
     'written to it on the object or else the nearest prototype that has it; in, hasOwnProperty, Object.keys, for-in and the object\'s printed form agree on which '
     'properties there are, each enumerated once. A frozen object refuses every change that its freeze mode forbids and keeps its contents.',
     ['histories', 'inputs'], 'all histories of property operations over several linked objects',
     'Tests check single operations on small objects; agreement between views must hold after every history.',
     ['src/jsiObj.c', 'src/jsiTree.c', 'src/jsiValue.c', 'src/jsiProto.c', 'src/jsiEval.c'],
     [('ordered property tree', 'src/jsiTree.c, src/jsiObj.c'), ('prototype lookup', 'src/jsiValue.c jsi_ValueSubscript'), ('freeze flags', 'src/jsiObj.c, jsiValue.c')],
     observe=['property reads, in, keys, for-in, JSON'], check=chk())
prop('L05', 'Array methods are list operations, visible through aliases and nowhere else',
     'After any history of array operations, every array holds exactly the list that the definitions of the operations performed on it prescribe '
     '(push, pop, shift, unshift, splice, slice, concat, reverse, fill, flat, join, indexOf, lastIndexOf, includes, indexing), and each call returns what its definition prescribes. '
     'The effect of an operation is seen through every reference to that array and never in another array or variable, even when elements were copied from one to the other.',
     ['histories', 'inputs'], 'all sequences of array operations on several, possibly aliased or nested arrays, with in and out of range, negative and absent arguments',
     'tests/array*.jsi check single calls on a few literals; aliasing, holes and argument corner cases combine over histories.',
     ['src/jsiArray.c', 'src/jsiObj.c', 'src/jsiValue.c'],
     [('array commands', 'src/jsiArray.c'), ('array storage, growth and length', 'src/jsiObj.c Jsi_ObjArraySizer/ArraySet/SetLength')],
     state=[('obj->arr, arrCnt', 'elements and length', 'src/jsiObj.c')], observe=['contents of every array after every call'], check=chk())
prop('L06', 'Array iteration calls back on each element once, in order, and stops when told',
     'forEach, map, filter, find, findIndex, some, every, reduce and reduceRight call their function on exactly the elements present, in index order (reverse for reduceRight), '
     'with the right element, index and array, stop at the deciding element, and combine the results as defined, also when the function throws or itself modifies arrays. sort returns an ordered '
     'permutation of the elements (without duplicates when unique is asked for), refuses changes to the array while it runs, and leaves the array usable whatever the comparison does.',
     ['programs', 'histories'], 'all arrays, callback behaviours (including throwing and re-entrant modification) and sort modes',
     'Tests use total, pure callbacks on short arrays.',
     ['src/jsiArray.c'], [('iteration commands', 'src/jsiArray.c'), ('sort and the modifying flag', 'src/jsiArray.c jsi_ArraySortCmd')],
     observe=['trace of callback calls, result, arrays afterwards'], check=chk())
prop('L07', 'String methods treat strings as character sequences for all contents and indexes',
     'For all strings, including empty, multi-byte UTF-8 and long ones, and all indexes, including negative, absent and out of range, length, charAt, charCodeAt, indexOf, lastIndexOf, substr, substring, slice, '
     'split, concat, repeat, trim, case conversion, replace with a plain string and map give the result their definition prescribes over the sequence of characters, never cutting a multi-byte character. No string operation changes a string already obtained.',
     ['inputs', 'histories'], 'all strings and argument combinations', 'Tests use short ASCII literals and few arguments.',
     ['src/jsiString.c', 'src/jsiUtf8.c', 'src/jsiChar.c'], [('string commands', 'src/jsiString.c'), ('UTF-8 indexing', 'src/jsiUtf8.c')],
     observe=['results'], check=chk())
prop('L08', 'Regular expression matching is stateful only as documented',
     'A regular expression object gives the same answer for the same subject however often and in whatever order it and other expressions were used before; exec on a global expression steps through the successive '
     'non-overlapping matches from lastIndex and resets when there is none. match, replace (with strings and functions), split, search, test and exec agree with one another about where the matches and groups are.',
     ['histories', 'inputs'], 'all interleavings of operations on several expressions and subjects', 'Tests run each expression once.',
     ['src/jsiRegexp.c', 'src/jsiString.c'], [('regexp commands', 'src/jsiRegexp.c'), ('match/replace/split', 'src/jsiString.c')],
     observe=['match results, groups, lastIndex'], check=chk())
prop('L09', 'JSON text and values convert into each other without loss or code execution',
     'For every value built of objects, arrays, strings, numbers, booleans and null, parsing its JSON text gives an equal value, whatever its nesting and contents; parsing never executes code, '
     'rejects text that is not JSON with an error that leaves no partial result and no effect on later parses, and check agrees with parse about which text is acceptable.',
     ['inputs', 'histories'], 'all values and texts', 'Tests convert a few literals.',
     ['src/jsiJSON.c'], [('parser', 'src/jsiJSON.c'), ('writer', 'src/jsiValue.c jsiValueGetString')], observe=['JSON.parse, JSON.stringify, JSON.check'], check=chk())
prop('L10', 'Declared argument and return types are enforced on every call',
     'For every function with declared parameter types, defaults and return type, a call proceeds exactly when the number and types of the arguments satisfy the declaration; absent arguments take their default, otherwise the call '
     'fails with a catchable error before the body has any effect. Built-in functions reject wrong argument counts and types likewise.',
     ['programs', 'inputs'], 'all signatures and argument lists, direct and indirect calls', 'Tests cover a few signatures, each called directly.',
     ['src/jsiFunc.c', 'src/jsiEval.c', 'src/jsiProto.c'], [('argument checks', 'src/jsiFunc.c jsi_ArgTypeCheck, jsi_SharedArgs, Jsi_FunctionInvoke')],
     observe=['call outcome and effects'], check=chk())
prop('L11', 'format and number conversion follow their specification for all inputs',
     'format() substitutes its arguments in order according to each conversion specifier, flags, width and precision, and fails without output when arguments are missing or of the wrong type; parseInt, parseFloat, Number, '
     'toString(radix) and string conversion of integers are inverse to one another where defined.',
     ['inputs'], 'all format strings and argument lists', 'Tests use fixed formats.',
     ['src/jsiFormat.c', 'src/jsiNumber.c', 'src/jsiUtils.c'], [('format', 'src/jsiFormat.c')], observe=['result strings'], check=chk())
prop('L12', 'Arithmetic, comparison and bit operators yield the exact result for all numbers',
     'For all operands, + - * / % yield the exact result where it can be represented (the remainder has the sign of the dividend), comparisons order numbers by value including fractions and large integers, and << >> >>> & | ^ ~ work on the low 32 bits '
     'of the operands, shift counts taken modulo 32 (& | ^ for operands that fit into 32 bits). The result does not depend on whether an operand is a literal, variable, parameter, property, element or accessor, nor on the form (binary, compound assignment, ++ and --), and evaluation never changes an operand it only reads.',
     ['inputs'], 'all operators on all numbers that are multiples of 1/8 or 32 bit integers', 'Tests compute a few small integers; signs, word edges, shift counts around 32 and fractions are not among them.',
     ['src/jsiEval.c', 'src/jsiValue.c'], [('operator opcodes', 'src/jsiEval.c: OP_SHF, OP_BNOT, OP_MOD, common_math_opr, common_bitwise_opr, jsiLogicLess'), ('comparison', 'src/jsiValue.c: Jsi_ValueCmp, Jsi_ValueIsEqual')],
     observe=['result values'], check=chk())
# I: interpreters -----------------------------------------------------------------------------------------
prop('I01', 'Sub-interpreters are isolated: only aliases, call, eval and value cross over',
     'Whatever runs in a sub-interpreter, the variables, functions, objects and settings of other interpreters change only through aliases it was given and the calls made on it; values crossing are copied as data, so later '
     'changes on one side are not seen on the other. Aliases call the function bound to them last, with the given arguments, in the interpreter that owns it; a deleted interpreter or alias is never called again, and errors in a sub-interpreter reach only the caller.',
     ['histories', 'programs'], 'all trees of interpreters and histories of create, eval, call, alias, unalias and delete',
     'Tests use one or two interpreters in fixed sequences.',
     ['src/jsiInterp.c'], [('aliases', 'src/jsiInterp.c InterpAliasCmd, AliasInvoke'), ('data passed as JSON', 'src/jsiInterp.c Jsi_CleanValue'), ('eval/call', 'src/jsiInterp.c InterpEvalCmd, InterpCallCmd')],
     observe=['values on both sides'], check=chk())
prop('I02', 'Resource limits of an interpreter are enforced and inherited',
     'A script can never exceed its interpreter\'s limits on call depth, executed operations, array size, include depth, interpreter nesting and number of objects: the operation that would is refused with an error and what was done before stays. '
     'A sub-interpreter of a restricted interpreter cannot obtain weaker limits than its parent\'s.',
     ['programs', 'configurations'], 'all programs and limit settings', 'Tests exercise one limit at its default.',
     ['src/jsiInterp.c', 'src/jsiEval.c', 'src/jsiObj.c'], [('limit checks', 'src/jsiEval.c, src/jsiFunc.c, src/jsiObj.c'), ('inheritance', 'src/jsiInterp.c Jsi_InterpNew')], observe=['outcome of programs near their limits'], check=chk())
prop('I03', 'A safe interpreter reaches only the files its configuration grants',
     'No operation available to a safe interpreter (channels, file system commands, load, source, exec, database files, links, or a sub-interpreter it creates) reads, creates, changes or removes a file outside the directories '
     'and files granted to it, however the path is spelled, through relative components, symbolic links or nested interpreters; what is granted works as in an unrestricted interpreter. Exec, network and load stay refused according to the configured mode.',
     ['programs', 'inputs', 'configurations'], 'all paths, operations and interpreter nestings', 'The tests never run a safe interpreter against escapes.',
     ['src/jsiInterp.c', 'src/jsiFilesys.c', 'src/jsiFileCmds.c', 'src/jsiCmds.c'], [('access check', 'src/jsiInterp.c Jsi_InterpAccess'), ('SAFEACCESS', 'src/jsiFilesys.c, jsiFileCmds.c'), ('safe inheritance', 'src/jsiInterp.c jsi_InterpNew')],
     observe=['result of each operation and the file tree'], check=chk())
prop('I04', 'Interpreter options can change only as their declaration allows, all or nothing',
     'An option declared read-only or settable only at creation never changes afterwards; setting an option to a value of the wrong type or an unknown option is refused with an error and leaves every other option as it was; reading an option gives what was last set successfully.',
     ['histories', 'inputs'], 'all histories of conf calls with valid and invalid values', 'Tests read a few options.',
     ['src/jsiOptions.c', 'src/jsiInterp.c'], [('option tables', 'src/jsiOptions.c'), ('conf', 'src/jsiInterp.c InterpConfCmd')], observe=['conf results'], check=chk())
prop('I05', 'Call-stack introspection and uplevel act on exactly the frame named',
     'At every call depth, Info.level, Info.locals, Info.vars, Interp.uplevel and Interp.value report and act on the variables of exactly the frame designated, absolute or relative, and on no other; levels out of range are refused.',
     ['programs', 'histories'], 'all call stacks and level arguments', 'Tests use fixed depths.',
     ['src/jsiInterp.c', 'src/jsiCmds.c'], [('frames', 'src/jsiInterp.c InterpUplevelCmd, InterpValueCmd'), ('level', 'src/jsiCmds.c InfoLevelCmd')], observe=['values read and written'], check=chk())
# E: events -----------------------------------------------------------------------------------------------
prop('E01', 'Timers fire when due, in full, once or repeatedly, until cleared',
     'A callback given to setTimeout is called exactly once, not before its delay has passed, and setInterval\'s repeatedly at least its interval apart, in every history of setting, clearing and updating, also when callbacks themselves set, clear, throw or call update; '
     'a cleared event is never called afterwards. Clearing an unknown or finished event is an error and touches no other event, and ids name only the event they were returned for.',
     ['schedules', 'histories'], 'all histories of timer operations and callbacks, including re-entrant ones', 'Tests set one or two timers.',
     ['src/jsiEvent.c', 'src/jsiCmds.c', 'src/jsiUtils.c'], [('event table', 'src/jsiCmds.c setTimeout/clearInterval, Jsi_EventProcess')], observe=['order and number of callback calls, ids, update results'], check=chk())
prop('E02', 'Signals reach their handlers once per delivery and only while installed',
     'After any history of installing, replacing, blocking and removing handlers, a delivered signal runs exactly the handler installed for it, when events are next processed, and leaves other signals alone; alarms fire once after the time given.',
     ['schedules', 'histories'], 'all histories of handler changes and deliveries', 'One test sends one signal.',
     ['src/jsiSignal.c'], [('signal table', 'src/jsiSignal.c')], observe=['handler calls, names, callbacks lists'], check=chk())
prop('E03', 'Messages to threaded interpreters run in order, each once',
     'Asynchronous evaluations and calls sent to a threaded sub-interpreter run there one at a time, in the order sent by each sender, each exactly once; a waiting call returns the result of that very call. Deleting the interpreter ends it without running later messages.',
     ['schedules', 'histories'], 'all interleavings of senders, receiver and deletion', 'Tests use at most one thread with one message.',
     ['src/jsiInterp.c'], [('event queue', 'src/jsiInterp.c InterpCallCmd, InterpEvalCmd, jsi_DoInterpCall, Mutex')], observe=['order of effects'], na="Interpreters in threads share unprotected globals and their order depends on the operating system's schedule, which cannot be controlled from outside; not taken up in the time available.")
prop('E04', 'Sockets deliver bytes and messages in order to the right peer',
     'Between a server and its clients every byte written on a stream connection arrives exactly once, in order, at the peer of that connection and nowhere else; connect, message and close callbacks occur in that order, the last once, for every interleaving of several clients.',
     ['schedules', 'histories'], 'all interleavings of connections and writes', 'No test opens a socket.',
     ['src/jsiSocket.c'], [('socket events', 'src/jsiSocket.c')], observe=['received data per connection, callback order'], na='Read and found to break the property throughout (queued messages sent in reverse, recv of a stack buffer, values released on partial writes): a repair is a rewrite of jsiSocket.c, so no check could be quiet on this tree; see DESIGN.md.')
# F: files ------------------------------------------------------------------------------------------------
prop('F01', 'A channel behaves as a file with one position, for all histories of operations',
     'After any history of open, read, write, gets, puts, seek, tell, eof, truncate, flush and close in any mode, a channel has returned and the file contains exactly the bytes that a file with one position prescribes; operations its mode forbids are refused, '
     'and a closed channel refuses everything.',
     ['histories', 'inputs'], 'all histories over all open modes and contents', 'Tests read or write one file in one order.',
     ['src/jsiFilesys.c'], [('channel commands', 'src/jsiFilesys.c FilesysReadCmd etc.'), ('native file functions', 'src/jsiFilesys.c')], observe=['results and file contents'], check=chk())
prop('F02', 'File commands change exactly the named entries of the tree, or nothing',
     'For every directory tree, File.read, write, copy, rename, remove, mkdir, rmdir, link, truncate, stat, lstat, exists, type tests, glob and chdir report the tree as it is and change exactly the entries they name as defined; a failing command raises an error and '
     'leaves the tree unchanged (no truncated target, no lost source).',
     ['histories', 'inputs', 'fault_sequences'], 'all trees and histories of commands, including failing ones', 'Tests use one or two commands on a fixed file.',
     ['src/jsiFileCmds.c', 'src/jsiFilesys.c'], [('file commands', 'src/jsiFileCmds.c'), ('file systems', 'src/jsiFilesys.c')], observe=['results and the whole tree'], check=chk())
prop('F03', 'Path functions are consistent for all path spellings',
     'For every path, File.dirname, basename/tail, extension, rootname, join, split, isRelative and realpath agree with one another and with the file system: recombining the parts gives a path for the same entry, and realpath is absolute, without ., .. or symbolic links.',
     ['inputs'], 'all spellings of paths', 'Tests use a few well-formed paths.',
     ['src/jsiFileCmds.c', 'src/jsiUtils.c', 'src/jsiFilesys.c'], [('path commands', 'src/jsiFileCmds.c'), ('normalization', 'src/jsiUtils.c Jsi_FileRealpath')], observe=['results'], check=chk())
prop('F04', 'Mounted archives show exactly their contents, read-only, until unmounted',
     'For every history of mounting and unmounting archives and virtual file systems, reads, listings, stat and seeks below a mount point give exactly the contents of the mounted archive, writes are refused, files outside are unaffected, and after unmounting the paths are the real file system\'s again.',
     ['histories', 'inputs'], 'all archives and histories of mounts', 'Tests do not mount archives of their own.',
     ['src/jsiZvfs.c', 'src/jsiVfs.c', 'src/jsiFilesys.c'], [('mount table', 'src/jsiZvfs.c'), ('file system selection', 'src/jsiFilesys.c Jsi_FilesystemForPath')], observe=['reads and listings'], na='Read and found to break the property throughout (seek, eof, tell and short reads of members): a repair is a rewrite of jsiZvfs.c, so no check could be quiet on this tree; see DESIGN.md.')
prop('F05', 'exec gives a command its input and returns its output and status, for every form',
     'For every command and every form of redirection and option, exec runs exactly the given command, returns its complete standard output and exit status as specified, runs background commands without waiting, and leaves the interpreter\'s own channels usable; a failing command is reported, never silently ignored.',
     ['inputs', 'histories'], 'all pipelines and redirections', 'One test runs a few fixed commands.',
     ['src/jsiCmds.c'], [('exec', 'src/jsiCmds.c jsi_SysExecCmd, jsi_execCmd')], observe=['output, status, files'], check=chk())
# D: database ---------------------------------------------------------------------------------------------
prop('D01', 'Database transactions are atomic for every history, nesting and failure',
     'For every history of evaluations and transaction() calls, nested to any depth, the changes of a transaction body are visible afterwards if it returned normally and not at all if it threw or failed, at its own level; connections see only committed changes, and the database is usable after every failure.',
     ['histories', 'fault_sequences', 'schedules'], 'all histories of statements and (nested, failing) transactions on several connections', 'The test commits and rolls back once.',
     ['src/jsiSqlite.c'], [('transaction', 'src/jsiSqlite.c SqliteTransactionCmd, DbTransPostCmd')], observe=['table contents seen by each connection'], check=chk())
prop('D02', 'Queries return exactly the stored rows and types, in every result form',
     'For every table contents and query, every result form (rows, arrays, JSON, columns, callbacks, map options), and every way of passing parameters (variables, named and numbered binding, arrays), the values returned are exactly those stored and selected, with their types, regardless of which statements ran or were cached before; '
     'a parameter is never interpreted as SQL.',
     ['inputs', 'histories'], 'all values, forms and histories of prepared statements', 'The test uses a handful of queries.',
     ['src/jsiSqlite.c'], [('query and onecolumn', 'src/jsiSqlite.c SqliteQueryCmd, SqliteOnecolumnCmd'), ('statement cache and binding', 'src/jsiSqlite.c dbPrepareAndBind')], observe=['query results'], check=chk())
# K: the C library ----------------------------------------------------------------------------------------
prop('K01', 'Hash tables, trees and lists of the C API are exact maps under all histories',
     'After any history of insertion, lookup, deletion, iteration and clearing, with any key type, Jsi_Hash, Jsi_Map and Jsi_Tree contain exactly the entries inserted last and not deleted, iteration visits each once (trees in key order, with every red-black invariant intact), and Jsi_List keeps its order and count.',
     ['histories'], 'all histories of operations over many keys', 'The tests reach them only indirectly.',
     ['src/jsiHash.c', 'src/jsiTree.c', 'src/jsiUtils.c'], [('rebalancing', 'src/jsiTree.c'), ('rehashing', 'src/jsiHash.c')], observe=['lookups and walks'], check=chk())
prop('K02', 'Dynamic strings hold exactly what was appended, for all lengths',
     'After any history of append, set, print, truncate and free operations a Jsi_DString holds exactly the resulting text, with the right length and terminator, at every crossing between its static and allocated buffers.',
     ['histories', 'inputs'], 'all histories and lengths', 'No test addresses it.',
     ['src/jsiDString.c'], [('growth', 'src/jsiDString.c')], observe=['value and length'], check=chk())
prop('K03', 'CData maps and arrays store each field\'s value within its declared type',
     'For every declared struct, array and map, after any history of set, get, incr, unset and info calls each field of each entry holds exactly the value last stored in it; a value out of a field\'s range or of the wrong type, an index out of bounds or an unknown key is refused and changes nothing.',
     ['histories', 'inputs'], 'all declarations, keys and values', 'No stable test covers it.',
     ['src/jsiCData.c', 'src/jsiOptions.c'], [('CData commands', 'src/jsiCData.c')], observe=['get, names, size'], na='CData has no script-level commands in this build, so no execution can be observed.')
# M: modules ----------------------------------------------------------------------------------------------
prop('M01', 'Packages load once, from the right place, with a sufficient version',
     'For every history of provide and require calls and every package directory, require succeeds exactly when a package of the name with at least the requested version is present or can be loaded, loads it at most once, and reports the version provided; a failed load provides nothing and can be retried.',
     ['histories', 'configurations'], 'all sets of packages, versions and histories', 'One test requires one package.',
     ['src/jsiCmds.c', 'src/jsiLoad.c'], [('package table', 'src/jsiCmds.c Jsi_PkgRequire, Jsi_PkgProvide')], observe=['versions, load effects'], check=chk())
prop('M02', 'Option parsing for scripts accepts exactly what the option table declares',
     'For every table of defaults and every argument list, moduleOpts and getOpts style processing assign to each option exactly the value given last, keep the default (or the value self already has) of every other, refuse unknown options and values that are not of the type of a boolean, number or string default without changing anything, and leave the table and the settings as they were; moduleRun takes \"-name value\" pairs up to the first other argument (or \"--\") as options and passes the rest on unchanged.',
     ['inputs'], 'all option tables and argument lists', 'One test, one table.',
     ['src/jsiCmds.c'], [('options processing', 'src/jsiCmds.c moduleOpts')], observe=['resulting options'], check=chk())
prop('T01', 'The test runner reports PASS exactly when output matches expectation',
     'For every script, jsish -u reports success exactly when the script\'s output and failures agree with its embedded expected results and failure when they differ anywhere, and rewriting expected results (-update) makes exactly the then current output expected.',
     ['programs', 'inputs'], 'all scripts and expectation blocks', 'The runner is what runs the tests; nothing checks that it can fail.',
     ['lib/Testing.jsi', 'src/jsiUtils.c', 'src/jsiCmds.c'], [('Testing module', 'lib/Testing.jsi')], observe=['exit status and report'], check=chk())
# U: encodings and dates ----------------------------------------------------------------------------------------
prop('U01', 'Encodings are reversible and checksums exact for every text and length',
     'For every text or binary data of any length, Util.base64, Util.hexStr and encodeURI/encodeURIComponent give the text their definition prescribes (base64 of RFC 4648 in lines of 72 characters, two hex digits per byte, '
     'escapes of the marks, %, and for a component the reserved characters) and their decoding gives the original back; decoding accepts line breaks in base64 and both cases of hex digits, and text that is not hex is refused. '
     'Util.crc32 (whole or continued from an earlier sum) and Util.hash (MD5, SHA-1, SHA-256, SHA-3; as hex or binary, of text, file or both) equal the published algorithms; '
     'Util.decrypt of Util.encrypt with the same key gives the text back, with another key it does not, and the encrypted text does not show it; verConvert converts version texts and numbers into each other.',
     ['inputs', 'histories'], 'all byte sequences (empty, around the block and line lengths, with NULs), keys, options',
     'Tests use a published vector or two; defects sit at block boundaries, in padding and in particular bytes.',
     ['src/jsiCmds.c', 'src/jsiCrypto.c', 'src/jsiUtils.c'],
     [('base64, hex, URI, crc', 'src/jsiCmds.c: B64EncodeDStr, B64DecodeDStr, url_encode, url_decode, Jsi_Crc32; src/jsiUtils.c: Jsi_HexStr'), ('digests and encryption', 'src/jsiCrypto.c')],
     observe=['results as bytes'], check=chk())
prop('U02', 'Times and dates convert to text and back exactly, in every time zone',
     'For every time (before and after 1970), format and time zone, strftime shows exactly the calendar date and clock time of that moment in UTC or local time, with %f as three digits of milliseconds, and strptime gives the moment a text denotes: '
     'in UTC or local time as asked (daylight-saving rules included; in a skipped or repeated hour either reading), exactly where the text has an offset, with any fraction of a second. '
     'Formatting and parsing back lose only what the format leaves out; a text with a field out of range gives NaN.',
     ['inputs'], 'all times, formats, zones and texts', 'One test formats and parses a few fixed moments in one zone.',
     ['src/jsiCmds.c'], [('strftime', 'src/jsiCmds.c Jsi_DatetimeFormat'), ('strptime', 'src/jsiCmds.c Jsi_DatetimeParse')], observe=['texts and times'], check=chk())
# not decided by a specification -----------------------------------------------------------------------------
prop('Z01', 'Memory safety under all inputs', 'No script, input or history makes the interpreter read or write memory it does not own, or leak objects without bound.',
     ['programs', 'inputs'], 'all programs', 'Tests sample programs.', ['src/*.c'], [('reference counting', 'src/jsiValue.c, src/jsiObj.c')],
     na='Memory safety is not a property of states and transitions a specification can name; recorded executions that crash are rejected by every check, but absence of memory errors is not decided here.')
prop('Z02', 'Floating-point functions are accurate', 'Math functions and conversions of arbitrary floating-point numbers compute the nearest representable result for every input.',
     ['inputs'], 'all inputs', 'Tests use a few values only.', ['src/jsiMath.c', 'src/jsiUtils.c'], [('math commands', 'src/jsiMath.c')],
     na='TLA+ has no floating point: a specification could only name the C library functions that are called. Integers, fractions in eighths and decimal texts are covered by L11 and L12.')
prop('Z03', 'WebSocket and MySql modules keep their protocol guarantees', 'The WebSocket server and the MySql binding deliver messages and rows exactly once and in order.',
     ['schedules'], 'all interleavings', 'No test runs them.', ['src/jsiWebSocket.c', 'src/jsiMySql.c'], [('protocol callbacks', 'src/jsiWebSocket.c')],
     na='Neither module is compiled in this build (their libraries are not available offline), so no execution can be observed.')
