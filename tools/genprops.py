#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as code only because JSON lines are hard to edit)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


prop('C01', 'The announced serialized size is exactly the number of bytes written',
     'For every kind of object and every object state, the number of bytes that a size query announces for the binary serialization '
     'is exactly the number of bytes the serialization then produces, field by field and with the same optional parts and repetitions. '
     'Serializing into a buffer of the announced size therefore neither fails, nor leaves bytes undefined, nor writes past the end.',
     ['inputs', 'configurations'], 'every object kind, every optional part present or absent, every count and string length',
     'Tests serialize one or two small instances of each kind; whether the two traversals agree for every combination of optional members, element counts and variable-length integers is not sampled.',
     ['src/cconfigspace.c', 'src/cconfigspace_internal.h', 'src/parameter_categorical.c', 'src/configuration_space.c', 'src/tree.c', 'src/tuner.c', 'src/expression.c', 'src/map.c', 'src/distribution_mixture.c'],
     [('size function and writer of each object kind walk the same fields', 'src/*.c: _ccs_serialize_bin_size_*/_ccs_serialize_bin_*'),
      ('leaf encoders', 'src/cconfigspace_internal.h')],
     [('serialize_size / serialize operations', 'per-kind pair that must agree', 'src/*.c ops tables')],
     ['ccs_object_serialize(CCS_SERIALIZE_OPERATION_SIZE / MEMORY / FILE)'])

prop('C02', 'Deserialization reads exactly the fields serialization wrote, in order',
     'For every kind of object, the binary reader consumes exactly the sequence of items the writer produced: same order, same encodings, same optional parts, same repetition counts. '
     'Each item that is read ends up in the same attribute of the rebuilt object that it was written from, and no item is dropped or substituted.',
     ['inputs', 'configurations'], 'every object kind and state; every optional part and count',
     'Round-trip tests rebuild a few instances with default options and compare a handful of attributes.',
     ['src/*_deserialize.h', 'src/cconfigspace_internal.h', 'src/*.c'],
     [('reader and writer of each object kind', 'src/*_deserialize.h vs src/*.c'), ('leaf encoders/decoders', 'src/cconfigspace_internal.h')],
     [], ['ccs_object_serialize', 'ccs_object_deserialize'])

prop('C03', 'Truncated or corrupt serialized input is rejected without overrunning',
     'Deserialization never reads beyond the bytes it was given and never writes beyond memory it allocated, whatever the bytes are: '
     'every length, count and index taken from the input is compared with what remains or with the size of the array it indexes before it is used. '
     'Input that is too short or inconsistent yields an error result, and what is released on the way out was read before.',
     ['inputs', 'fault_sequences'], 'every byte string of every length presented as serialized input',
     'Tests only feed buffers that the library itself produced.',
     ['src/cconfigspace_internal.h', 'src/cconfigspace.c', 'src/*_deserialize.h'],
     [('remaining-size comparison before every read', 'src/cconfigspace_internal.h _ccs_deserialize_bin_*'), ('count checks', 'src/*_deserialize.h')],
     [('buffer / buffer_size', 'cursor and remaining bytes threaded through all readers', 'src/*_deserialize.h')], ['ccs_object_deserialize'])

prop('C04', 'Every acquired resource is released or handed over exactly once on all paths',
     'On every path through every operation, including each error and allocation-failure path, each object reference, memory block and file mapping the operation acquired is either released, '
     'handed to the caller, or stored in an object whose destruction releases it - exactly once. '
     'Destroying an object releases every reference and block its construction acquired.',
     ['fault_sequences', 'histories', 'inputs'], 'every control path, in particular every point where a callee or an allocation can fail',
     'Tests run success paths; failing allocations and failing callees half way through a constructor are never exercised and no leak checker is part of the test suite.',
     ['src/*.c', 'src/*_deserialize.h'],
     [('cleanup labels', 'src/*.c goto err/end blocks'), ('destructors', 'src/*.c *_del operations'), ('reference counting', 'src/cconfigspace.c ccs_retain_object/ccs_release_object')],
     [('refcount', 'number of owners of an object', 'src/cconfigspace_internal.h')], ['leaks or double frees seen by a client', 'ccs_object_get_refcount'])

prop('C05', 'Public calls reject null or wrongly typed handles and null outputs before use',
     'Every public function that takes an object handle verifies that the handle is non-null and of a kind the function accepts before it uses the object, and every pointer argument it dereferences is verified non-null first; '
     'otherwise it returns an error result and does not crash. ',
     ['inputs', 'programs'], 'every public entry point and every combination of null/incorrect handles and pointers',
     'Tests pass invalid handles to only a few entry points.',
     ['include/cconfigspace/*.h', 'src/*.c', 'src/cconfigspace_internal.h'],
     [('CCS_CHECK_OBJ / CCS_CHECK_PTR / CCS_CHECK_ARY at entry', 'src/*.c')], [], ['return value of every public function'])

prop('C06', 'A failing step makes the call fail and is recorded on the thread error stack',
     'When any step of a public operation fails - a nested call, a user callback, an allocation - the operation returns an error result and never reports success. '
     'Whenever the library itself detects an error it records it on the calling thread\'s error stack, so an error result is never returned without an error having been recorded, except for user-supplied callbacks\' own codes.',
     ['fault_sequences', 'inputs', 'histories'], 'every nested call whose result signals failure, at every call site',
     'Tests make very few nested calls fail; an ignored result code is invisible as long as the callee succeeds.',
     ['src/*.c', 'src/*.h', 'src/error_stack.c'],
     [('CCS_VALIDATE*, CCS_RAISE*, CCS_REFUTE* macros', 'src/cconfigspace_internal.h')],
     [('thread error', 'thread local error stack', 'src/error_stack.c')], ['return codes', 'ccs_get_thread_error'])

prop('C07', 'The Python bindings declare the same ABI as the C library',
     'Every function, constant, structure and callback that the Python bindings declare has the arity, argument and result types, values, field layout and order of the C declaration it binds, '
     'and each object kind is wrapped by the class made for that kind.',
     ['programs', 'inputs'], 'every foreign declaration in the bindings against the C headers',
     'A wrong foreign type, constant or field only shows when a test happens to pass a value for which the representation differs.',
     ['bindings/python/cconfigspace/*.py', 'include/cconfigspace/*.h'],
     [('ctypes prototypes', 'bindings/python/cconfigspace/*.py'), ('C headers', 'include/cconfigspace/*.h')], [], ['any Python program using the bindings'])

prop('C08', 'The Ruby bindings declare the same ABI as the C library',
     'Every function, constant, structure and callback that the Ruby bindings declare has the arity, argument and result types, values, field layout and order of the C declaration it binds, '
     'and each object kind is wrapped by the class made for that kind.',
     ['programs', 'inputs'], 'every foreign declaration in the bindings against the C headers',
     'The Ruby bindings are only syntax checked here; no Ruby FFI run is part of the stable tests.',
     ['bindings/ruby/lib/cconfigspace/*.rb', 'include/cconfigspace/*.h'],
     [('FFI attach_function / enum / layout declarations', 'bindings/ruby/lib/cconfigspace/*.rb'), ('C headers', 'include/cconfigspace/*.h')], [], ['any Ruby program using the bindings'])

prop('C09', 'Array queries honour the capacity / array / returned-count contract',
     'A public query that fills a caller-supplied array never writes beyond the capacity the caller gave, refuses a capacity smaller than the number of elements, reports the number of elements when asked for it, and nulls the unused tail. '
     'A request for neither the array nor the count, or for a non-zero capacity without an array, is refused.',
     ['inputs'], 'every capacity (smaller, equal, larger than needed), null or non-null array and count',
     'Tests call queries with exactly the right capacity.',
     ['src/*.c'], [('count comparison, copy loop and tail fill in each getter', 'src/*.c')], [], ['public getters returning arrays'])

prop('C10', 'Equality, ordering and hashing of values and objects are consistent',
     'Whatever the comparison of two objects or values examines, the hash examines too and vice versa in the sense that equal objects always have equal hashes: the hash depends only on attributes that the comparison compares. '
     'Comparison treats its two operands alike: it examines the same attribute of both and reverses its answer when they are exchanged.',
     ['inputs'], 'every pair of objects/values of the same kind',
     'Tests compare a few hand-written pairs.',
     ['src/binding.c', 'src/binding_internal.h', 'src/configuration.c', 'src/features.c', 'src/evaluation.c', 'src/tree_configuration.c', 'src/datum_hash.h', 'src/interval.c'],
     [('hash and cmp operations', 'src/*.c'), ('datum comparison and hash', 'src/cconfigspace_internal.h, src/datum_hash.h')], [], ['ccs_*_hash', 'ccs_*_cmp'])

prop('C11', 'Configurations a space hands out satisfy its conditions and forbidden clauses',
     'Every configuration that sampling or the default-configuration query returns successfully, and every configuration that validation declares valid, has passed the evaluation of the conditions of its parameters in dependency order, of every forbidden clause, and (for validation) the domain check of each active value. '
     'A configuration for which one of these evaluations rejects the values is never returned as valid.',
     ['inputs', 'configurations', 'histories'], 'every space, every condition graph and set of clauses, every sampled value',
     'Tests sample a few spaces; a missing check on one of the paths only shows for values that violate it.',
     ['src/configuration_space.c', 'src/features_space.c', 'src/objective_space.c', 'src/context.c'],
     [('forbidden-clause test, condition evaluation, parameter check', 'src/configuration_space.c')],
     [('sorted_indexes', 'dependency order of parameters', 'src/configuration_space_internal.h')], ['ccs_configuration_space_sample(s)', 'ccs_configuration_space_check_configuration', 'ccs_create_configuration'])

prop('C12', 'A value is only interpreted as the type its tag says it has',
     'The payload of a dynamically typed value is only read as an integer, float, boolean, string or object after its tag was established to be that type, and whenever a value is produced its tag and payload are set together.',
     ['inputs'], 'every value that reaches every consumer',
     'Tests pass values of the expected types.',
     ['src/*.c', 'include/cconfigspace/base.h'], [('switches and comparisons on the datum type', 'src/*.c')], [], ['any public function taking or returning values'])

prop('C13', 'Objects carved out of one block never overlap nor exceed the block',
     'Every object that is allocated as one block together with its variable-size parts lays those parts out disjointly and inside the block, for every element count and string length, with room for as many elements as the object announces.',
     ['inputs', 'configurations'], 'every element count and string length',
     'Tests use small counts; an undersized block usually falls in allocator slack.',
     ['src/*.c'], [('block size computation and pointer carving in constructors', 'src/*.c')], [], ['memory safety of constructors'])

prop('C14', 'Threads do not share mutable library state behind the caller\'s back',
     'The library keeps no mutable state that is visible to more than one thread other than the objects the caller shares explicitly: every variable with static lifetime is either never written after initialisation or private to the thread. '
     'The error recorded by one thread is never visible to, nor cleared by, another.',
     ['schedules', 'programs'], 'every interleaving of calls from different threads on different objects',
     'Tests are single-threaded.',
     ['src/error_stack.c', 'src/cconfigspace.c', 'src/*.c'], [('thread-local error storage', 'src/error_stack.c'), ('const tables', 'src/*.c')], [], ['ccs_get_thread_error, concurrent use from several threads'])

prop('C15', 'Every kind declared in the API is handled by every dispatch on that kind',
     'Every enumerated kind of object, distribution, parameter, expression, tuner and tree space has an implementation at each place that dispatches on the kind, and that implementation is the one for that kind: '
     'tables indexed by kind (operations, arity, precedence, associativity, symbols, result names) have an entry at every kind\'s own index, switches (reading back, evaluation, wrapping in the bindings) route each kind to its own code, '
     'and an object of one kind is never read as the data of another kind.',
     ['inputs', 'programs'], 'every enumerator against every table and switch that dispatches on its type',
     'Tests do not instantiate every kind at every dispatch point.',
     ['src/*.c', 'src/*_deserialize.h', 'include/cconfigspace/*.h'], [('ops tables, arity/precedence/symbol tables, deserialization switches', 'src/*.c')], [], ['all public functions dispatching on a type tag'])

prop('C16', 'Random tuners\' optima are exactly the non-dominated reported evaluations',
     'After any sequence of reports, the optima that a built-in tuner exposes are the reported evaluations that no other reported evaluation dominates. '
     'An evaluation leaves the set only when it is found worse than a new one, and a new one is left out only when it is found worse than or equivalent to a retained one.',
     ['histories', 'inputs'], 'every sequence of reported evaluations, including ones with failed results and incomparable objective vectors',
     'Tests report a few dozen random evaluations with one or two objectives.',
     ['src/tuner_random.c', 'src/features_tuner_random.c', 'src/tree_tuner_random.c'], [('optima update', 'src/*tuner_random.c')], [], ['ccs_tuner_get_optima and siblings'])

prop('C17', 'User-supplied callback tables are validated and optional callbacks are optional',
     'When an object is created from user callbacks, a mandatory callback that is missing makes the creation fail, and no operation on the object ever calls a callback that was not verified to be present.',
     ['inputs', 'programs'], 'every subset of callbacks a user may leave null',
     'Tests supply all or nearly all callbacks.',
     ['src/tuner_user_defined.c', 'src/features_tuner_user_defined.c', 'src/tree_tuner_user_defined.c', 'src/tree_space_dynamic.c', 'src/expression.c'],
     [('vector checks in constructors and guards at call sites', 'src/*_user_defined.c')], [], ['constructors taking callback vectors'])

prop('C18', 'Names, arrays and transient strings kept by the library are private copies',
     'Whatever the caller passes to a constructor or setter by pointer - names, arrays, and string values flagged as transient - is copied (or replaced by an equal string the library owns) before the call returns successfully, so the caller may change or free it afterwards without affecting any object. '
     'A validated value handed back by the library never points to the transient string that was validated.',
     ['inputs', 'histories'], 'every constructor/setter/validation and every later modification of the caller\'s buffers',
     'Tests pass string literals, which stay valid forever.',
     ['src/*.c', 'src/cconfigspace_internal.h'], [('string copies / transient flag handling / interning in constructors', 'src/*.c')], [], ['constructors and setters taking pointers'])

prop('C19', 'Evaluation yields what the operator says, propagates inactivity, never traps',
     'Evaluating an expression applies the operator that its type names to its operands in their order: arithmetic on two integers yields the integer result and on numbers otherwise the floating point result, comparisons and logical operators the truth value of the exact comparison. '
     'An operand that is inactive or fails makes the result inactive or an error and never a value computed from that operand (a disjunction whose other operand is true is true); operands are only combined after their types, and membership in the domain of a categorical or ordinal parameter they are compared with, were checked. '
     'Integer division and modulo never trap, whatever the operands.',
     ['inputs'], 'every expression tree and every operand value and type',
     'Tests evaluate selected operator/operand pairs.',
     ['src/expression.c'], [('per-operator evaluation functions', 'src/expression.c')], [], ['ccs_expression_eval'])

prop('C20', 'A rejected modification leaves the object as it was',
     'When a public operation that modifies an existing object (adding or setting parameters, conditions, clauses, distributions, objectives, children, values, keys) returns an error, the object is observably unchanged.',
     ['fault_sequences', 'histories'], 'every modifying operation and every failing step in it',
     'Tests check the error code of a few rejected modifications, not the state afterwards, and never inject failures.',
     ['src/configuration_space.c', 'src/objective_space.c', 'src/context.c', 'src/map.c', 'src/tree.c', 'src/distribution.c'],
     [('validate-before-commit order and rollback code in setters', 'src/*.c')], [], ['setters followed by getters'])

prop('C21', 'Samples follow the declared distribution and quantization',
     'For every distribution, scale and quantization, drawn values lie on the declared grid within the declared bounds and follow the declared law.',
     ['inputs', 'histories'], 'every parameterisation, every generator state',
     'Tests draw finite samples from a few parameterisations with statistical tolerances.',
     ['src/distribution_uniform.c', 'src/distribution_normal.c', 'src/distribution_roulette.c', 'src/distribution_mixture.c'], [('sampling functions', 'src/distribution_*.c')], [], ['ccs_distribution_sample(s)'])

prop('C22', 'Sampling terminates or reports failure',
     'A request for samples returns in bounded time: rejection sampling gives up with an error when constraints cannot be satisfied.',
     ['inputs', 'histories'], 'every space, clause set and generator state',
     'Tests use satisfiable spaces.',
     ['src/configuration_space.c', 'src/parameter_numerical.c', 'src/parameter_categorical.c', 'src/distribution_normal.c'], [('retry limits', 'src/configuration_space.c, src/parameter_*.c')], [], ['sampling functions'])

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P))
