"""property id -> (check function, level, rule)"""
import importlib

TABLE = {
    'C01': ('constin', 'check', 'proof',
            'every store reachable from a public function, followed through calls and views by an interprocedural field-sensitive '
            'effect analysis, must not target memory reached from a const operand'),
    'C02': ('nullconf', 'check', 'proof',
            'forward dataflow of non-nullness over each function, bottom-up over the call graph: no instruction reachable from a public '
            'function may dereference its configuration parameter before a NULL test of it'),
    'C03': ('heapck', 'leak', 'proof',
            'ownership typestate of every allocation result along all paths of every function (path-sensitive, joined beyond a bound), with bottom-up '
            'outcome summaries: no path may return while still owning a block, free or access a block twice'),
    'C04': ('heapck', 'failure', 'proof',
            'same typestate: an allocation result is dereferenced only where a NULL test has succeeded, and after the failing outcome of an '
            'allocating function the object it was to fill is not used'),
    'C05': ('shapesck', 'check', 'proof',
            'path-sensitive dataflow over operand dimensions: at the first access to operand elements and at every successful return of a public '
            'function, the shape relations that its row of the rule table requires must follow from the branches taken'),
    'C06': ('errs', 'check', 'proof',
            'path-sensitive dataflow of statuses and of the error member of the configuration block: a failing return has an error code on its path, a path that '
            'recorded an error or saw a status fail does not return success, and no status of a routine that fails at run time dies unused on any path'),
    'C07': ('work', 'check', 'proof',
            'path-sensitive dataflow of the workspace descriptor, with inequalities between sizes as polynomials over operand dimensions: every return leaves '
            'the offset as it was, views over the workspace fit into its free space, a reservation that may fail is not followed by success, and a '
            'query computes nothing and stores a size that is then accepted'),
    'C08': ('views', 'check', 'proof',
            'symbolic evaluation, path by path, of every view constructor, partition helper and element accessor for each case of its description: at every '
            'return the members of the result, the element accessed and the value returned equal the description as polynomials over the members of the '
            'source, and nothing else is stored to'),
    'C09': ('statics', 'check', 'proof',
            'every store to static storage that is not thread-local is reached only through the clear outcome of a one-time flag that is set last on '
            'every path; functions with a configuration parameter reach the default block only on its NULL edge; no C library routine with hidden state'),
    'C10': ('accel', 'check', 'proof',
            'symbolic evaluation of the functions that compute a block for every combination of flags: the operands they pass on are the parts of the operands '
            'that the rows and columns of the block need; at every place that gives a block away its ranges are consecutive pieces of the whole by its index, '
            'from zero to the total; dispatchers and public functions pass their own operands and results on'),
    'C11': ('locks', 'check', 'proof',
            'path-sensitive dataflow of held mutexes and of task ownership, with everything the accelerator calls inlined: mutexes are released on every path, '
            'taken once and in one order; members written under a mutex are accessed with it; waits recheck their condition and changes of it wake the '
            'waiters; members shared with threads are ordered by mutex, atomics, create or join; tasks run once, are counted once and outlive their use'),
    'C12': ('bufs', 'check', 'proof',
            'bounds of addresses as linear forms with loop invariants: every access by computed address to local arrays, to buffers handed over with their '
            'length and to stream buffers is bounded by the branches taken on every path, lengths handed on fit, elements are set at rows and columns below '
            'the size, formats fit what they read and print'),
    'C14': ('compat', 'check', 'proof',
            'symbolic evaluation of every Fortran and CBLAS entry point for every combination of its option arguments: the operands and flags of the '
            'library call form the same equation between strided matrices as the BLAS standard gives the arguments; loops over vectors pair the right '
            'elements'),
    'C15': ('symbols', 'check', 'proof',
            'for both precisions: every function that a public header declares has a definition in the linked IR, every referenced symbol resolves, every '
            'call has the arity and result kind of the definition, names map one to one, and symbols common to both libraries have identical code'),
    'C16': ('term', 'check', 'proof',
            'ranking of all ways around every loop: a linear form of loop variables and memory cells that an exit bounds falls on every way and rises on none, '
            'or a partition goes on in one direction, a scan or reader meets its end, a nonzero number is scaled towards its bound; steps that are not '
            'constants cannot be zero, by the tests before the loop and at the callers'),
    'C20': ('uninit', 'check', 'proof',
            'path-sensitive dataflow of unset values: no undefined value and no unset member of a local object reaches a condition, an address, arithmetic, '
            'an argument, a result, or a callee that may read that member before setting it'),
}


def get(pid):
    mod, fn, level, rule = TABLE[pid]
    return getattr(importlib.import_module('checks.' + mod), fn), level, rule
