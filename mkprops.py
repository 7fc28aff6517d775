#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (claimed: dst/props/<id>.py)."""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None,
      state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'state': [{'name': a, 'meaning': b, 'where': c}
                      for a, b, c in state],
            'observe_at': observe, 'hook_needed': hook}})


GCHOOK = 'SCM_SIM_HOOKS in src/storage-gc.c: decides GC at each allocation'

p('P01', 'Garbage collection is never observable',
  'The values, outputs, errors and end of any program are the same whatever '
  'the points at which garbage collection happens and whatever the heap '
  'geometry. In particular no reachable object is reclaimed or altered, also '
  'when it is reachable only from a C local of a builtin at work.',
  ['schedules', 'programs', 'configurations'],
  'all programs over the builtins and libraries, all subsets of cell '
  'allocations as GC points, all heap geometries, -O0 and -O2 builds',
  'The tests run with a 10240-cell heap, where GC happens rarely and always '
  'at the same allocations; a missing root shows only if GC falls between '
  'two particular allocations.',
  ['src/storage-gc.c', 'src/storage.c', 'src/sigscheme.h', 'src/vector.c',
   'src/string.c', 'src/symbol.c', 'src/write.c', 'src/read.c'],
  [('conservative stack marking', 'src/storage-gc.c gc_mark'),
   ('SCM_GC_KEEP_ALIVE', 'src/sigschemeinternal.h'),
   ('marking of the reachable graph', 'src/storage-gc.c mark_obj')],
  ['logged values, stdout, exit'], GCHOOK)
p('P02', 'Garbage is reclaimed: bounded live data needs bounded memory',
  'A program that keeps a bounded amount of data runs in a bounded number of '
  'heap cells, bounded native memory and without open files left behind, '
  'however often its operations are repeated. This also holds for operations '
  'that end by a caught error or by an escape.',
  ['programs', 'histories', 'fault_sequences'],
  'all operation sequences repeated any number of times, with errors injected '
  'at any step',
  'Unit tests run each operation once and never look at the heap, so a leak '
  'per call, per caught error or per escape is invisible to them.',
  ['src/storage-gc.c', 'src/error.c', 'src/continuation.c', 'src/read.c',
   'src/port.c', 'src/module-srfi34.c'],
  [('sweep and free of native bodies', 'src/storage-gc.c free_cell'),
   ('handler and dynamic extent unwinding', 'src/continuation.c')],
  ['occupied cells after a full GC, live malloc blocks, open streams'],
  GCHOOK)
p('P03', 'What the embedding program protects stays alive, nothing else does',
  'An object held by a protected variable, or by a C local inside a GC-ready '
  'stack, keeps its identity and contents across any allocations and '
  'collections until it is overwritten or unprotected. Protection can be '
  'added and removed in any order, any number of times, at the cost of '
  'memory only for what is protected at a time, and an unprotected object '
  'can be reclaimed.',
  ['histories', 'schedules'],
  'all sequences of protect, unprotect, assignment, nested GC-ready calls, '
  'evaluation and collection',
  'test-c exercises a handful of fixed sequences with a natural GC.',
  ['src/storage-gc.c', 'src/sigscheme.h'],
  [('table of protected variables', 'src/storage-gc.c scm_gc_protect'),
   ('GC-ready stack', 'src/storage-gc.c scm_call_with_gc_ready_stack')],
  ['C variables of the embedding program'], GCHOOK)
p('P04', 'dynamic-wind and continuations: every exit unwinds exactly once',
  'Whatever way the body of a dynamic-wind is left (return, escape through '
  'a continuation, error, exception handler), its after thunk runs exactly '
  'once, in innermost-first order, in the right dynamic environment, and its '
  'before thunk ran exactly once before; the escape delivers its values to '
  'the continuation that was called.',
  ['programs', 'schedules', 'fault_sequences'],
  'all programs of nested dynamic-winds, escapes and errors at any step',
  'The tests sample a few fixed shapes; nesting, errors inside before and '
  'after thunks, and escapes out of escapes are combinatorial.',
  ['src/continuation.c', 'src/module-srfi34.c', 'src/eval.c'],
  [('dynamic extent stack', 'src/continuation.c scm_dynamic_wind'),
   ('unwind on continuation call', 'src/continuation.c '
    'scm_call_continuation')], ['order of logged events'], GCHOOK)
p('P05', 'Exceptions reach the right handler, once, with their object',
  'A raised object or builtin error reaches the innermost handler or guard '
  'clause that is installed at that point of the dynamic extent, exactly '
  'once and unaltered; the handler runs in the context of its installation, '
  'a guard that does not match re-raises outward, and an exception nobody '
  'handles ends in the documented fatal or top-level error report.',
  ['programs', 'schedules', 'fault_sequences'],
  'all nestings of guard, with-exception-handler, raise, error, escapes and '
  'builtin errors, with errors injected at any step',
  'The tests check single-level handlers; a handler stack left wrong by one '
  'exit path only shows in a later, unrelated raise.',
  ['src/module-srfi34.c', 'src/error.c', 'src/continuation.c'],
  [('handler stack as dynamic state', 'src/module-srfi34.c'),
   ('error objects', 'src/error.c scm_raise_error')],
  ['order of logged events', 'fatal error callback'], GCHOOK)
p('P06', 'A continuation out of its extent is refused, never entered',
  'Calling a continuation whose extent has ended, from anywhere and in any '
  'state, signals an ordinary catchable error and has no other effect; a '
  'continuation still in its extent can be called any number of levels '
  'inside, also from nested C callbacks.',
  ['programs', 'histories', 'schedules'],
  'all programs that store continuations and call them later',
  'The tests call one expired continuation; stale jump buffers show as '
  'crashes only in particular stack layouts.',
  ['src/continuation.c'],
  [('continuation stack and validity check', 'src/continuation.c '
    'scm_call_continuation')], ['logged values, error objects'], GCHOOK)
p('P07', 'Input does not depend on how the stream delivers its bytes',
  'The objects, characters and lines read from a port, and the positions of '
  'end of file and of parse errors, are a function of the byte sequence '
  'alone: read sizes, buffer sizes and the kind of port make no difference, '
  'and peeking or testing readiness consumes nothing.',
  ['inputs', 'schedules'],
  'all byte sequences, all splits into reads, file, string and REPL ports',
  'The tests read whole small files in one read(2).',
  ['src/read.c', 'src/fileport.c', 'src/scmport-basic.c',
   'src/scmport-mbchar.c', 'src/strport.c', 'src/port.c'],
  [('byte port protocol', 'src/fileport.c'),
   ('partial multibyte characters', 'src/scmport-mbchar.c')],
  ['objects read, error messages'])
p('P08', 'A failing input stream is reported, and never invents or drops data',
  'When the stream below an input port fails at any read, everything that '
  'arrived before is delivered in order and no object is made up from a '
  'prefix that was cut off inside a token or list; the failure is signalled '
  'as an error or end of input that a program can handle, the port can be '
  'closed afterwards, and other ports are unaffected.',
  ['fault_sequences', 'inputs', 'crash_points'],
  'all byte sequences and all positions, errors and persistences of faults',
  'No test injects a read error.',
  ['src/read.c', 'src/fileport.c', 'src/port.c', 'src/load.c'],
  [('fileport get_char', 'src/fileport.c'), ('reader', 'src/read.c')],
  ['objects read, error messages, stream state'])
p('P09', 'Output arrives in order and complete, or the failure is signalled',
  'The bytes that reach a file or output string are exactly the written '
  'ones, in order, whatever the buffering and however the device splits '
  'writes; on a write error or a full disk the file holds a prefix of them, '
  'an error that a program can catch is signalled by the time of flush, and '
  'the interpreter continues to work, including other ports.',
  ['fault_sequences', 'programs', 'crash_points'],
  'all sequences of output operations over several ports, and all positions '
  'and kinds of write, flush and close faults',
  'No test injects write errors or short writes.',
  ['src/write.c', 'src/fileport.c', 'src/strport.c', 'src/port.c',
   'src/format.c'],
  [('fileport puts/write/flush', 'src/fileport.c')],
  ['bytes of the simulated files, error objects'])
p('P10', 'Ports have one life: each stream is opened and closed exactly once',
  'Every stream the program opens is closed exactly once - by an explicit '
  'close, by the end of call-with or with-file procedures, or at the latest '
  'when the port is collected or the interpreter finalized - also after '
  'errors, escapes, failing opens and failing closes. Operations on a closed '
  'port signal an ordinary error and touch no stream, and an open port is '
  'never closed underneath its user.',
  ['histories', 'fault_sequences', 'schedules'],
  'all histories of port operations with failing opens and closes and any '
  'GC schedule',
  'The tests close ports in the straight way and do not look at the streams.',
  ['src/port.c', 'src/fileport.c', 'src/storage-gc.c', 'src/load.c'],
  [('scm_port_close', 'src/port.c'), ('port finalization', 'src/storage-gc.c')],
  ['log of open and close of the simulated files'], GCHOOK)
p('P11', 'Redirections and encodings end with the call that made them',
  'with-output-to-file, with-input-from-file and the encoding set by '
  'with-char-codec are in force exactly during the dynamic extent of their '
  'thunk: however it is left, the current ports and the character encoding '
  'of the caller are restored, and while it runs they are the redirected '
  'ones.',
  ['programs', 'fault_sequences'],
  'all nestings of redirections, exits and open or close failures',
  'The tests leave the thunk normally.',
  ['src/port.c', 'src/module-sscm-ext.c', 'src/load.c', 'src/continuation.c'],
  [('dynamic-wind around the thunk', 'src/port.c, src/module-sscm-ext.c')],
  ['destination of output, encoding in force'])
p('P12', 'load evaluates each complete form once, in order, up to the fault',
  'load evaluates the forms of a file in order, each exactly once, and '
  'returns only after the last one. When a form fails, the file is cut off, '
  'a read fails or the evaluation escapes, exactly the complete forms before '
  'that point have been evaluated, the error is delivered to the caller of '
  'load, the file is closed and the character encoding of the caller is in '
  'force again.',
  ['inputs', 'fault_sequences', 'crash_points'],
  'all files, all truncation points, all read faults, errors and escapes at '
  'any form, nested loads',
  'The tests load intact files.',
  ['src/load.c', 'src/read.c', 'src/module.c'],
  [('scm_load and the prelude', 'src/load.c')],
  ['order of logged events, open streams, encoding in force'])
p('P13', 'A module is loaded once; a failed load does not count',
  'require, use and require-extension load a module or file at most once '
  'when that succeeded, in every order and nesting, and provided? is true '
  'exactly for what is provided. When loading fails by an error, an I/O '
  'fault or an escape, the module is not marked as provided and the next '
  'attempt loads it again.',
  ['histories', 'fault_sequences'],
  'all histories of require, provide and use with faulty files',
  'The tests require intact files once.',
  ['src/module.c', 'src/load.c', 'src/module-siod.c', 'src/module-sscm-ext.c'],
  [('provided feature list', 'src/module.c'),
   ('scm_p_require', 'src/module-sscm-ext.c')],
  ['number of evaluations of module files, provided?'])
p('P14', 'Out of memory ends orderly, at whatever allocation it happens',
  'When any native allocation fails, at startup or at run time, the '
  'interpreter either continues with a correct result, or signals an error, '
  'or reports memory exhaustion, runs the fatal error callback and exits '
  'with failure; it never crashes, uses invalid memory, hangs, or reports '
  'success with wrong output.',
  ['fault_sequences', 'crash_points', 'programs'],
  'all programs and all positions and persistences of failing allocations',
  'No test makes an allocation fail.',
  ['src/alloc.c', 'src/storage-gc.c', 'src/error.c', 'src/string.c'],
  [('scm_malloc and friends', 'src/alloc.c'), ('fatal error', 'src/error.c')],
  ['exit status, fatal error callback, output'])
p('P15', 'Initialize and finalize: every cycle is fresh and leaves nothing',
  'Between initialization and finalization the interpreter behaves the same '
  'in every cycle of one process, whatever the previous cycles did, and '
  'finalization releases all memory and closes all files, also when the '
  'cycle ended by an error or in the middle of something.',
  ['histories', 'configurations', 'schedules'],
  'all sequences of cycles with arbitrary contents and configurations',
  'Each test process initializes and finalizes once.',
  ['src/sigscheme.c', 'src/storage.c', 'src/storage-gc.c', 'src/module.c',
   'src/symbol.c'],
  [('scm_initialize/scm_finalize', 'src/sigscheme.c'),
   ('global state', 'src/global.c')],
  ['logged values per cycle, live malloc blocks, open streams'], GCHOOK)
p('P16', 'What is written reads back: data survives write and read',
  'Any datum made of lists, vectors, strings, characters, symbols, numbers '
  'and booleans that is written and read back gives an equal datum, through '
  'any port and encoding; write with shared structure terminates on circular '
  'data and shows its sharing. An earlier write that failed or was abandoned '
  'midway leaves no trace in later ones.',
  ['inputs', 'fault_sequences', 'histories'],
  'all data, including circular data, all ports, write faults at any byte '
  'before, and any GC schedule',
  'The tests compare a few printed forms.',
  ['src/write.c', 'src/read.c', 'src/module-srfi38.c'],
  [('writer', 'src/write.c'), ('shared structure hash', 'src/write.c'),
   ('reader', 'src/read.c')], ['written bytes, data read back'], GCHOOK)
p('P17', 'Collections stay consistent when their callbacks fail or escape',
  'Hash tables, sorting, and the list and vector procedures that call back '
  'deliver what an independent model of the same operations delivers. When a '
  'comparison, hash or user procedure signals an error or escapes in the '
  'middle, the operation is abandoned with its argument data intact or '
  'changed only as far as it had come, and everything works afterwards.',
  ['programs', 'fault_sequences', 'histories'],
  'all operation histories with failures injected at any callback',
  'The tests use callbacks that always return.',
  ['lib/srfi-69.scm', 'lib/srfi-95.scm', 'src/module-srfi1.c',
   'src/module-srfi43.c', 'src/list.c', 'lib/srfi-1.scm', 'lib/srfi-43.scm'],
  [('hash table updates', 'lib/srfi-69.scm'), ('sort', 'lib/srfi-95.scm')],
  ['logged contents'])
p('P18', 'A promise delivers one value, forever',
  'The first value that a promise delivers is the only one it ever delivers, '
  'also when forcing is reentrant; its body is not run again afterwards. If '
  'the body fails or escapes, the promise stays unforced and the next force '
  'runs the body again.',
  ['programs', 'fault_sequences', 'schedules'],
  'all programs of promises that force, replace and escape from each other',
  'The tests force a few promises in order.',
  ['src/promise.c', 'src/syntax.c'], [('force', 'src/promise.c')],
  ['logged values and number of evaluations'], GCHOOK)
p('P19', 'The storage representations behave identically',
  'Every program has the same values, outputs and errors with the compact '
  'and with the fatty object representation, except where the documented '
  'range of fixnums shows.',
  ['programs', 'configurations', 'schedules'],
  'all programs over the builtins and libraries, both representations, any '
  'GC schedule',
  'The test suite runs the same samples on both; tag-bit mistakes show only '
  'on unusual values, sharing or GC points.',
  ['src/storage-compact.h', 'src/storage-fatty.h', 'src/storage-gc.c'],
  [('accessors of both layers', 'src/storage-compact.h, '
    'src/storage-fatty.h')], ['logged values, output'], GCHOOK)
p('P20', 'The REPL survives every error and serves each form in order',
  'The read-eval-print loop evaluates each complete form of its input in '
  'order and prints its value; an error of a form, a parse error or an '
  'escape is reported and the loop goes on with the next form, until end of '
  'input, when it exits with status 0.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all sessions of forms, errors and malformed input, all deliveries of stdin',
  'The REPL is not covered by the tests.',
  ['src/main.c', 'src/error.c', 'src/read.c'],
  [('repl_loop', 'src/main.c')], ['stdout, stderr, exit status'])
p('P21', 'Tail calls and loops need no stack and no memory',
  'A loop made of tail calls - through any tail position of any syntax, '
  'through apply, call-with-values, any, every, macros, higher-order and '
  'mutually recursive procedures - runs any number of iterations in constant '
  'C stack and constant heap, whatever complete work (escapes, caught errors, '
  'dynamic-winds, promises, evaluation, ports) each iteration does before. '
  'Only eval and call/cc need not call in tail position.',
  ['programs', 'schedules'],
  'all cycles of tail positions and all numbers of iterations',
  'The tests loop through single constructs with a fixed small stack.',
  ['src/eval.c', 'src/syntax.c', 'src/procedure.c', 'src/module-srfi34.c',
   'src/module-srfi2.c', 'src/module-srfi8.c'],
  [('trampoline', 'src/eval.c')],
  ['C stack depth, occupied heap cells'], GCHOOK)
p('P22', 'One name, one symbol, one binding',
  'Symbols with equal names are the same object at any time, symbols with '
  'different names never are, and a global binding once made is seen by '
  'every later reference to its name, however many names are read, made '
  'and bound, whatever their characters, and whenever the collector runs.',
  ['histories', 'schedules', 'configurations'],
  'all histories of interning, binding and dropping names, any symbol table '
  'size and GC schedule',
  'The tests intern few symbols, in one table of one size.',
  ['src/symbol.c', 'src/storage-gc.c', 'src/env.c'],
  [('symbol hash table', 'src/symbol.c')], ['eq?, values of bindings'], GCHOOK)
p('P23', 'Evaluation never changes the code it evaluates',
  'Evaluating an expression, procedure body or quasiquote template any '
  'number of times gives what fresh copies of it would give: the evaluated '
  'structure and its constants are never altered, also when an evaluation is '
  'abandoned midway by an error or escape.',
  ['programs', 'fault_sequences'],
  'all procedure bodies and templates, evaluated repeatedly with errors '
  'injected at any step',
  'The tests evaluate most forms once.',
  ['src/syntax.c', 'src/qquote.c', 'src/legacy-macro.c', 'src/eval.c'],
  [('in-place list building of quasiquote', 'src/qquote.c'),
   ('macro expansion', 'src/legacy-macro.c')],
  ['logged values, the code printed after evaluation'], GCHOOK)
p('P24', 'No program can crash the interpreter',
  'A call of any builtin or library procedure or syntax with any arguments '
  'returns or signals a catchable error; it never accesses invalid memory, '
  'aborts or ends the process, and leaves the interpreter, its ports and its '
  'data usable, whatever errors were caught before.',
  ['programs', 'fault_sequences', 'schedules'],
  'all sequences of calls with well and ill typed arguments, any GC schedule',
  'The tests check selected argument errors, one at a time.',
  ['src/eval.c', 'src/list.c', 'src/string.c', 'src/vector.c', 'src/number.c',
   'src/port.c', 'src/format.c', 'src/syntax.c'],
  [('ENSURE_* argument checks', 'src/sigschemeinternal.h')],
  ['end of the process, AddressSanitizer, logged values'], GCHOOK)
p('P25', 'A macro use expands as its rules say, hygienically',
  'In a build with hygienic macros a use of a syntax-rules macro (or match '
  'form) expands by the first rule that matches, with every subform at the '
  'place and as often as the template says; a use that no rule matches and a '
  'malformed rule signal an error. In the code it expands to, an identifier '
  'from the template refers to what it refers to where the macro is defined '
  'and one from the use to what it refers to there, whatever either of them '
  'binds (let forms, lambda, do, internal definitions, local macros), and an '
  'expanded definition defines. A GC at any allocation, and uses, errors and '
  'redefinitions before, change none of this.',
  ['programs', 'schedules', 'histories'],
  'all sets of macros and histories of their uses, any GC schedule',
  'The tests expand some dozen chosen macros.',
  ['src/macro.c', 'src/env.c', 'src/eval.c', 'src/syntax.c'],
  [('pattern compiler, matcher, transcription', 'src/macro.c'),
   ('identifier wrapping and comparison', 'src/env.c')],
  ['expand-macro results', 'return values', 'caught errors'], GCHOOK)
p('P26', 'format writes what its directives say, up to the first error',
  'A call of format (SRFI-28, SRFI-48), format+ or the C function scm_format '
  'writes to its destination exactly the text that its directives, prefixes '
  'and arguments denote; a string result holds it. An unknown or malformed '
  'directive, a missing, superfluous or ill typed argument, a closed or '
  'non-output destination and a failing device signal an error that can be '
  'caught, with the text before the failing directive written and none after '
  'it. The procedure bound to pretty-print may write, raise, escape, use '
  'format itself or mutate the format string: the call and all later calls '
  'keep to this, under any GC schedule.',
  ['programs', 'fault_sequences', 'schedules', 'histories'],
  'all sequences of format calls, callbacks, device faults and GC schedules',
  'The tests format one value per directive to a string, without faults, '
  'callbacks or histories.',
  ['src/format.c', 'src/module-srfi28.c', 'src/module-srfi48.c',
   'src/write.c', 'src/port.c'],
  [('directive interpreter', 'src/format.c'),
   ('default pretty-print and format argument parsing',
    'src/module-srfi48.c')],
  ['string results, string port and device contents, caught errors'], GCHOOK)
p('P27', 'A mutation is seen through every reference to the object, and only so',
  'After any history of allocations, copies and mutations of strings (with '
  'characters of any width), pairs, vectors, records, hash tables, captured '
  'variables and string ports, every reference to an object sees the last '
  'mutation made through any other, and an object that was newly allocated '
  '(a copy, a substring, the result of string-append, map, list, apply or '
  'get-output-string, a rest list, a loop variable of one iteration) shares '
  'nothing that a mutation could show. A refused mutation changes nothing; an '
  'escape or a GC at any point neither.',
  ['programs', 'histories', 'schedules'],
  'all histories of operations on a shared heap, any GC schedule',
  'The tests mutate single fresh objects.',
  ['src/string.c', 'src/string-procedure.c', 'src/list.c', 'src/vector.c',
   'src/env.c', 'src/eval.c', 'src/module-srfi6.c', 'src/module-srfi1.c'],
  [('in-place string mutation', 'src/string-procedure.c'),
   ('environment frames', 'src/env.c')],
  ['logged contents of all variables, eq? of subobjects, caught errors'],
  GCHOOK)
p('P28', 'A name means the innermost binding around it',
  'In any history of programs, a variable reference or assignment concerns '
  'the binding made by the innermost enclosing lambda, let, let*, letrec, '
  'named let, do, internal definition, receive, and-let*, let-optionals* or '
  'guard form that binds the name, else the toplevel one, and nothing else: '
  'a closure, promise or continuation kept for later sees exactly the '
  'bindings that enclosed it in the source, with the values last assigned to '
  'them, whatever was called, raised, escaped from, defined or collected in '
  'between.',
  ['programs', 'histories', 'schedules'],
  'all programs and histories over nested binding forms, any GC schedule',
  'The tests use distinct names and call closures at once.',
  ['src/env.c', 'src/syntax.c', 'src/eval.c', 'src/module-srfi34.c',
   'src/module-srfi8.c', 'src/module-srfi2.c', 'src/module-sscm-ext.c'],
  [('environment frames', 'src/env.c'),
   ('binding forms', 'src/syntax.c')],
  ['logged values of variables and calls, caught errors'], GCHOOK)
p('P29', 'Each expression is evaluated as often, and in the order, its form says',
  'In any history of programs, every control and binding form (if, cond with '
  'and without =>, case, and, or, begin, let and its kin, do, named let, '
  'and-let*, let-optionals*, delay and force, quasiquote, apply, for-each, '
  'values and receive, dynamic-wind, guard, call/cc, eval) evaluates each of '
  'its parts exactly when, as often and in the order that the form specifies, '
  'and yields the value it specifies: nothing is evaluated twice, skipped or '
  'evaluated although it is not selected, also when a part raises or escapes '
  'at any point, when the same code runs again afterwards, and whenever the '
  'GC runs.',
  ['programs', 'histories', 'schedules', 'fault_sequences'],
  'all programs over these forms, an error or escape at any expression',
  'The tests look at the value of forms whose parts have no effects.',
  ['src/syntax.c', 'src/eval.c', 'src/qquote.c', 'src/promise.c',
   'src/procedure.c', 'src/continuation.c', 'src/module-srfi34.c',
   'src/module-srfi2.c', 'src/module-srfi8.c', 'src/module-sscm-ext.c'],
  [('evaluator', 'src/eval.c'), ('syntaxes', 'src/syntax.c')],
  ['log of traced evaluations, results, caught errors'], GCHOOK)
# ---- not applicable
p('N01', 'Fixnum arithmetic is exact or signals overflow',
  'The numeric procedures compute the mathematically exact result whenever '
  'it is representable.', ['inputs'], 'all fixnum operands',
  'Only sampled operands are tested.', ['src/number.c', 'src/number-io.c'],
  [('arithmetic', 'src/number.c')], ['return values'])
p('N03', 'String and character procedures implement their specification',
  'Comparison, case conversion and substring procedures follow R5RS for every '
  'string and encoding.', ['inputs'], 'all strings and encodings',
  'Only sampled strings are tested.',
  ['src/string-procedure.c', 'src/char.c', 'src/encoding.c'],
  [('codecs', 'src/encoding.c')], ['return values'])

NA = {
 'N01': 'a pure function of its operands: no schedule, time, I/O or fault can '
        'influence it, so simulation would only be sampling of inputs',
 'N03': 'pure functions of their arguments; the parts that touch I/O '
        '(decoding at ports) are decided under P07, P08 and P16',
}
TECH = ('deterministic simulation with fault injection: seeded search over '
        'programs, %s')


def main():
    checks = []
    na = []
    for x in P:
        f = os.path.join(HERE, 'dst', 'props', x['id'].lower() + '.py')
        if x['id'] in NA:
            na.append({'property': x['id'], 'reason': NA[x['id']]})
        elif os.path.exists(f):
            m = importlib.import_module('dst.props.' + x['id'].lower())
            checks.append({
                'property': x['id'],
                'quick_cmd': 'python3 check.py check %s quick' % x['id'],
                'thorough_cmd': 'python3 check.py check %s thorough' % x['id'],
                'evidence_file': 'evidence/%s.json' % x['id'],
                'technique': TECH % getattr(
                    m, 'TECH', 'GC schedules and injected errors'),
                'level': m.LEVEL,
                'level_note': 'Searched: ' + m.RULE + '. Assumes: ' +
                '; '.join(m.ASSUME) + '. Evidence of absence only within the '
                'explored seeds.'})
        else:
            na.append({'property': x['id'],
                       'reason': 'the check is not built yet'})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 sim/build.py compact fatty compact-opt hygienic '
                     'fatty-opt',
        'hooks': {
            'guard': 'SCM_SIM_HOOKS',
            'enable': '-DSCM_SIM_HOOKS=1 (sim/build.py)',
            'source_commits': ['e4f15d8']},
        'checks': checks, 'not_applicable': na,
        'notes': 'See DESIGN.md. python3 check.py replay FILE repeats a '
                 'violation.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', [x['property'] for x in na])


main()
