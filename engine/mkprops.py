"""writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing the tables)"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))))


VECSTATE = [('size, capacity word, data pointer', 'the three representations of an array: inline, sole owner of a block, '
             'one of several owners of a block', 'include/fu/vec.h'),
            ('owner count', 'number of owners of a block minus one', 'include/fu/mem/arc.h')]
V = 'include/fu/vec.h'

prop('C01', 'Array edits do exactly what was asked, from every starting state',
     'Adding, inserting, removing, resizing and clearing items leaves exactly the requested sequence of items in the array: '
     'every kept item keeps its value and relative order, new items sit where asked, and zero-filled room is zero. '
     'Removal counts and positions outside the array are clamped to it, so removing from an empty array leaves it empty. '
     'This holds whether the content is stored inline, in a private block or in a block shared with other arrays, with and '
     'without spare room, and no byte outside the array is touched.',
     ['inputs', 'histories'], 'every size, capacity, position, count and content; every way the array can be stored; any number of '
     'other owners of its block; every item type, inline-storable, plain, copyable or move-only',
     'The tests run fixed programs with short arrays; the transitions between inline, private and shared storage depend on the exact '
     'size, capacity and number of owners at the time of the edit, which they sample at a few points.',
     [V, 'include/fu/vec/maybe_pos.h'], [('the one routine behind every edit', 'include/fu/vec.h _Splice'),
     ('entry points', 'include/fu/vec.h push..clear')], ['size(), data() and the bytes after each edit'], VECSTATE)
prop('C02', 'Splicing and appending sequences is exact, even from the array itself',
     'Replacing a run of items by another sequence, and appending a sequence, yields exactly prefix + new items + suffix. '
     'This holds also when the new items are a slice of the very array being edited, or belong to an array that shares its block, '
     'and when the source array is given away (its items are then taken over and nothing else changes).',
     ['inputs', 'histories'], 'every position, number of removed items, source length, source offset inside the same array, capacity, '
     'storage form of both arrays and owner count',
     'Self-overlap, spare capacity and shared storage interact; the tests have a handful of literal splices and none that '
     'enumerates the overlap of source, removed run and moved tail.',
     [V], [('copying splice and append', 'include/fu/vec.h splice_copy, append_copy, UNSAFE__self_splice'),
           ('moving splice and append', 'include/fu/vec.h splice(.., vec&&), append(.., vec&&)')],
     ['size(), data() and the bytes of target and source after the call'], VECSTATE)
prop('C03', 'Copies of an array are independent values',
     'Copying an array gives an equal array, and no later edit of one array, through any operation, changes the content of another '
     'array that was copied from it or that it was copied from. '
     'A write happens only in storage that no other owner can see, also when other owners on other threads drop out at the same time.',
     ['inputs', 'histories', 'schedules'], 'every operation that writes, from every shared starting state, with any number of other '
     'owners that come and go between any two steps of the operation',
     'A shared block is written in place only if the owner count says so at that instant; tests see one interleaving and small, mostly '
     'unshared arrays.',
     [V, 'include/fu/mem/arc.h'], [('copy constructor and copy assignment', 'include/fu/vec.h'),
                                   ('uniqueness test before writing in place', 'include/fu/mem/arc.h unique, include/fu/vec.h _Splice')],
     ['content of every other owner after each edit'], VECSTATE)
prop('C04', 'Array storage and items are released exactly once, never used afterwards',
     'Every block is freed exactly once, by its last owner, with the size it was allocated with; every item is destroyed exactly '
     'once or handed on, never both, and never used after that. '
     'No operation leaks a block or an item, and every read and write stays inside memory that is alive.',
     ['inputs', 'histories', 'schedules'], 'every operation on arrays of items with constructors and destructors and on move-only items, '
     'from every storage form, with any number of other owners that come and go',
     'A leak, a double destroy or an over-read depends on capacity and owner count at the moment of the operation and shows no output; '
     'the tests only look at printed results.',
     [V, 'include/fu/mem/arc.h', 'include/fu/default.h', 'include/fu/move_or_default.h'],
     [('destruction and release', 'include/fu/vec.h ~vec, _Dealloc, DESTROY_range'), ('block header', 'include/fu/mem/arc.h')],
     ['calls of the block allocator and of item destructors'], VECSTATE)
prop('C05', 'Reserving room or taking mutable access never changes the content',
     'After reserving, the array has at least the room asked for, the same content, and is the only owner of its storage; taking a '
     'mutable pointer or reference gives the address of that item in storage nobody else can see. '
     'Size, emptiness, iteration bounds and the reported capacity always agree with the content.',
     ['inputs', 'histories'], 'every size, capacity, requested room, index, storage form and owner count',
     'Whether a reallocation or an unsharing copy is needed depends on all of these at once; tests do not vary them.',
     [V], [('reserve, unique and mutable access', 'include/fu/vec.h reserve, unique, data_mut, mutref')],
     ['returned pointers, capa(), size(), content before and after'], VECSTATE)
prop('C06', 'An index outside a sequence never reads or writes memory',
     'Indexing an array, a view, a mutable view, an array slice, a fixed literal or a string literal with an index inside it yields '
     'exactly that item; with any other index, negative or huge ones included, it yields the invalid address that stops the program '
     'and touches no memory of the program.',
     ['inputs'], 'every length, every 32-bit index, every storage form',
     'Tests index inside the bounds, or one past them; the comparison has to be right for all 2^32 indices and all lengths.',
     [V, 'include/fu/view.h', 'include/fu/vec_range.h', 'include/fu/str.h'],
     [('bounds test in operator[] and mutref', 'include/fu/view.h, include/fu/vec.h, include/fu/vec_range.h, include/fu/str.h')],
     ['address of the returned reference'])
prop('C07', 'A view or slice denotes exactly the clamped part of the sequence',
     'Taking the part of a sequence from a start to an end (either may be omitted) gives exactly the items of the sequence between '
     'these positions after clamping them into the sequence, in order, without copying; slicing a slice composes. '
     'Copying such a part into an array of its own gives those items, and reinterpreting plain data keeps exactly its bytes.',
     ['inputs', 'histories'], 'every length, start, end (negative and too large ones too), nesting and storage form',
     'Slicing composes offsets from both ends in one packed word; the tests slice a few short literals.',
     ['include/fu/view.h', 'include/fu/vec_range.h', 'include/fu/vec/LEGACY_slice.h'],
     [('get_view*, get_range*', 'include/fu/view.h, include/fu/vec_range.h'), ('slice', 'include/fu/vec/LEGACY_slice.h')],
     ['data() and size() of the result, content of a copied slice'],
     [('trim word', 'items dropped at the left (low half) and right (high half)', 'include/fu/vec_range.h')])
prop('C08', 'Editing through a slice changes only the slice',
     'Every edit through a mutable slice of an array acts on the slice as on an array of its own: afterwards the slice holds the edited '
     'sequence, and the items of the array before and after the slice are unchanged and in place. '
     'Assigning to a slice replaces exactly that part, and swapping two parts exchanges their contents.',
     ['inputs', 'histories'], 'every array length, slice position and length, edit, position, count and storage form',
     'Positions are translated by the slice offset and bounded by the slice, not the array; the tests use few slices, mostly at the start.',
     ['include/fu/vec_range.h', V], [('offset translation', 'include/fu/vec_range.h')],
     ['content of the whole array and size() of the slice after the edit'],
     [('trim word', 'items dropped at the left (low half) and right (high half)', 'include/fu/vec_range.h')])
prop('C09', 'The block allocator hands out blocks that are big enough and accounts for them',
     'An allocation returns a block of at least the bytes asked for, reports the usable size of that block, and starts with one owner; '
     'releasing a block gives back exactly the block that was allocated, with the size class it was allocated in. '
     'A request that cannot be represented ends the program with an error instead of returning a short block.',
     ['inputs', 'histories'], 'every requested size up to 2^64-1, every reported size passed back on release',
     'Rounding and overflow matter at powers of two and near the limits, which the tests never allocate.',
     ['include/fu/mem/arc.cpp', 'include/fu/mem/arc.h'], [('rounding and accounting', 'include/fu/mem/arc.cpp')],
     ['size and address returned, calls of the system allocator'])
prop('C10', 'Concatenation contains exactly its operands in order',
     'Joining sequences and single items yields exactly the items of the operands in order, whatever mix of arrays, views, literals '
     'and slices they are. Operands that are kept are unchanged, operands that are given away are consumed, and the result shares '
     'nothing with an array that may still be edited.',
     ['inputs', 'histories'], 'every length of every operand (empty ones too), every storage form',
     'An operand may be reused as the result storage; whether it can be depends on spare room and owners, which tests do not vary.',
     ['include/fu/vec/concat.h', 'include/fu/vec/concat_one.h', V], [('concatenation', 'include/fu/vec/concat.h, concat_one.h')],
     ['content of the result and of the operands afterwards'], VECSTATE)
prop('C11', 'Comparison and search agree with the items',
     'Two sequences compare equal exactly if they have the same length and equal items; ordering is lexicographic with a proper prefix '
     'first, a total order consistent with equality. Searching returns the first matching position at or after the start given, or -1 '
     'exactly when there is none, and prefix and suffix tests agree with the definition.',
     ['inputs'], 'all contents and lengths, all start positions, including empty needles and needles longer than the text',
     'Tests compare a few words; the relation has to hold for all pairs, including a difference only at the last position.',
     ['include/fu/vec/LEGACY_cmp.h', 'include/fu/vec/LEGACY_find.h'], [('comparison', 'include/fu/vec/LEGACY_cmp.h'),
                                                                      ('search', 'include/fu/vec/LEGACY_find.h')],
     ['returned value'])
prop('C12', 'Decimal text is the exact representation, text conversions keep every character',
     'Turning an integer into decimal text gives exactly its decimal digits, most significant first, with no leading zero, a single '
     'minus sign for negative numbers, and 0 for zero. The text of a floating point number is complete, however long it is, and '
     'turning a literal or a C string into a string keeps exactly its characters. No byte outside the result is written.',
     ['inputs'], 'every value of every integer and floating point width, every text of every length',
     'Tests print a few numbers; the minimum of each signed width, every digit count and very large numbers need checking.',
     ['include/fu/decstr.cpp', 'include/fu/decstr.h', 'include/fu/str.h'],
     [('number conversion', 'include/fu/decstr.cpp'), ('literals and C strings', 'include/fu/str.h')], ['bytes and length of the result'])
prop('C13', 'Bulk swap and bulk assignment move exactly the given bytes',
     'Swapping two equally long stretches of memory exchanges them byte for byte for every length, swapping two items of a view '
     'exchanges exactly those, and assigning one view to another of the same length makes them equal. '
     'Nothing outside the stretches is read or written, and the source of an assignment is unchanged.',
     ['inputs'], 'every length and content, every item size, every pair of positions, stretches that share storage',
     'The tests swap and assign a few short, separate stretches.',
     ['include/fu/mem/memswap.h', 'include/fu/mem/memswap.cpp', 'include/fu/vec/view_assign.h', 'include/fu/vec/view_swap.h'],
     [('swap loop', 'include/fu/mem/memswap.cpp'), ('view assignment and swap', 'include/fu/vec/view_assign.h, view_swap.h')],
     ['bytes of both stretches afterwards'])
prop('C14', 'A parallel loop runs every index exactly once and waits for all of them',
     'For every number of iterations, least part size and number of worker threads, a parallel loop divides its range into parts that '
     'make up the whole range without gap or overlap, runs the body once for each part, and returns only after every part has '
     'run to its end, with everything the parts wrote visible to the caller. This holds however the threads are scheduled, when '
     'several loops run at the same time or inside each other, and when wake-ups are spurious. No wake-up is lost, no mutex is held '
     'while a task runs, and nothing of a loop is touched after the loop may have returned.',
     ['inputs', 'schedules'], 'every loop length up to 2^64-1, part size, number of workers; every interleaving of the calling thread, '
     'workers and other loops',
     'The tests only run the loops of the compiler itself, on one machine, under the schedules that happen to occur.',
     ['include/par/parfor.hpp', 'include/par/parfor.cpp'],
     [('division into tasks, waiting', 'include/par/parfor.cpp parallel_for, PBC_Wait'), ('task, end of a task', 'include/par/parfor.hpp, '
      'include/par/parfor.cpp PBC_Decrement'), ('worker threads', 'include/par/parfor.cpp TaskStack_Worker_Loop')],
     ['ranges the body gets, return of parallel_for'], [('pending', 'tasks of a loop that have not ended', 'include/par/parfor.cpp')])
prop('C15', 'The task queue loses no task and hands each to exactly one taker',
     'Pushing a chain of tasks onto the lock-free queue puts exactly these tasks before what was queued, taking removes exactly the '
     'one that was on top and returns it, and nothing is returned only when the queue was empty. This holds with any number of threads pushing and '
     'taking at the same time: each success is one atomic step from a state of the queue to the next, a state that was left '
     'is never taken for a current one, and what was written before a push is visible to the taker.',
     ['schedules', 'histories'], 'every interleaving of pushes and takes, every content, every length of the chain pushed',
     'No test uses the queue directly; the compiler pushes few tasks, and lost or doubled tasks need an exchange that fails at the right moment.',
     ['include/lockfree/stack.hpp'], [('push, take', 'include/lockfree/stack.hpp'), ('tag against reuse', 'include/lockfree/stack.hpp tag')],
     ['head of the queue, link of the last node pushed, result of try_pop'],
     [('head', 'first node and number of changes so far', 'include/lockfree/stack.hpp')])
# --- the compiler itself: stated, not claimed (see NA below)
CW = 'The tests compile and run a fixed list of small programs and compare outputs; the claim is over every program.'
prop('C16', 'A program the compiler accepts runs without memory errors',
     'For every Fu program the compiler accepts, the generated C++ program reads and writes only live objects inside their bounds: '
     'no reference, view or slice outlives what it refers to, and none is used after an edit or a move that invalidates it.',
     ['inputs'], 'every accepted program and every input of that program', CW,
     ['src/lifetime.fu', 'src/solver.fu', 'src/codegen.fu'],
     [('lifetime analysis of references', 'src/lifetime.fu'), ('invalidation by calls, moves and edits', 'src/solver.fu')],
     ['behaviour of the generated program under a memory checker'])
prop('C17', 'Every value is destroyed exactly once, after its last use, in reverse order',
     'In every accepted program each value with a destructor is destroyed exactly once on every path through the program, early '
     'returns, breaks, moves and conditional initialisation included, and values of one scope in the reverse order of their creation.',
     ['inputs', 'histories'], 'every accepted program and every path through it', CW,
     ['src/solver.fu', 'src/codegen.fu'], [('move-or-copy decision', 'src/solver.fu'), ('generated destructors and drop flags', 'src/codegen.fu')],
     ['sequence of destructor calls of the generated program'])
prop('C18', 'The generated program computes what the source program says',
     'For every accepted program the generated C++ has the behaviour of the source: operands are evaluated left to right and '
     'overloads, templates and conversions resolve independently of the order of modules and declarations.',
     ['inputs'], 'every accepted program', CW, ['src/solver.fu', 'src/codegen.fu', 'src/cpp.fu'],
     [('overload resolution', 'src/solver.fu'), ('statement and expression ordering', 'src/codegen.fu')], ['output of the generated program'])
prop('C19', 'Compiling is deterministic and the compiler reproduces itself',
     'The same sources give the same C++ text whatever the number of worker threads, and the compiler compiled by itself generates the text '
     'that the compiler it was compiled by generates.',
     ['inputs', 'schedules'], 'every program, every schedule of the worker threads', CW, ['src/compiler.fu', 'src/build.fu', 'src/context.fu'],
     [('parallel module passes', 'src/compiler.fu')], ['generated C++ text'])
prop('C20', 'Malformed or ill-typed source is rejected with a located message, never a crash',
     'Every text given as source is either compiled or rejected with a message naming a place in it; the compiler never crashes or hangs on it.',
     ['inputs'], 'every text', CW, ['src/lexer.fu', 'src/parser.fu', 'src/solver.fu', 'src/fail.fu'],
     [('recursive descent and error unwinding', 'src/parser.fu')], ['exit of the compiler, message'])
json.dump  # keep import used


def main(checks, na, notes):
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=checks, not_applicable=na, notes=notes)
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


CHECKED = {}


def check(pid, note):
    CHECKED[pid] = dict(property=pid, quick_cmd='python3-vt check.py %s' % pid,
                        thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
                        technique='contract-based deductive verification of the real C++ code (LLVM IR of the sources, '
                                  'weakest-precondition style path exploration, z3/cvc5)',
                        level='proof', level_note=note)


VN = ('Every obligation of every operation listed in the evidence is discharged for all values on the code as compiled from the current '
      'sources. Trusts the verification engine, clang, z3/cvc5 and the contracts of libc and (here) of the block allocator; results '
      'of 2^31-1 items and more are excluded.')
for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13'):
    check(c, VN)
PN = ('Every obligation is discharged for all values and for an arbitrary environment: what other threads may do between two steps is left '
      'open, so each step of the protocol is proved for every schedule. Trusts the verification engine, clang, z3/cvc5, the contracts of '
      'mutexes and condition variables; assumes sequentially consistent atomics apart from the orders asked for, no wrap of the '
      '19-bit tag within one retry, and that a node taken by somebody stays readable.')
for c in ('C14', 'C15'):
    check(c, PN)


NA = []


def na(pid, reason):
    NA.append(dict(property=pid, reason=reason))


COMP = ('Written in Fu: there is no deductive verifier for Fu, and ')
na('C16', COMP + 'the claim is soundness of a type-and-lifetime system over all programs: a metatheorem about 20 000 lines of solver, '
   'lifetime and codegen source against a semantics of Fu that is written down nowhere; no contract on single functions expresses it. '
   'What accepted programs call at run time is covered by C01-C15.')
na('C17', COMP + 'it relates the syntax of the program being compiled to paths of the program generated, so a contract would need a formal semantics of both '
   'Fu and C++. The run-time half (containers destroy their items exactly once) is C04.')
na('C18', COMP + 'it is full compiler correctness: it would need mechanised semantics of Fu and C++ and a simulation argument across solver and codegen.')
na('C19', COMP + 'it is a relation between two whole runs of the compiler (hyperproperty over 58 000 lines), not a pre- and postcondition of functions '
   'within reach; comparing generated text of sample runs would be testing. The parallel primitives it rests on are C14 and C15.')
na('C20', COMP + 'the generated C++ of the parser and solver is mutually recursive over heap trees of unbounded depth with errors by C++ exceptions, outside '
   'what the engine (functions over flat memory with summarised loops) can summarise.')
exec(open(os.path.join(VERIF, 'engine', 'mkprops_more.py')).read()) if os.path.exists(
    os.path.join(VERIF, 'engine', 'mkprops_more.py')) else None
for p in P:
    if p['id'] not in CHECKED and p['id'] not in [x['property'] for x in NA]:
        na(p['id'], 'no check yet')
main([CHECKED[p['id']] for p in P if p['id'] in CHECKED], NA,
     'python3-vt check.py <property> rebuilds the LLVM IR of /repo\'s headers and sources and discharges every obligation again.')
