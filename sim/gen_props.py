#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the wording is reviewable).
import json
R="libeantic/src/renf/"; E="libeantic/src/renf_elem/"; Z="libeantic/src/fmpz_poly_extra/"; Q="libeantic/src/fmpq_poly_extra/"
KC="libeantic/srcxx/renf_class.cpp"; EC="libeantic/srcxx/renf_elem_class.cpp"; CE="libeantic/e-antic/cereal.hpp"
KH="libeantic/e-antic/renf_class.hpp"; EH="libeantic/e-antic/renf_elem_class.hpp"
def P(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,title
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook))
props=[
P("C01","One object per field, however many threads create, share and drop it",
  "While some handle to a number field or some element of it is alive, creating the same field again (same minimal polynomial, same real root, same generator name, whatever ball or precision describes it) gives that very same field object. Fields that differ in minimal polynomial, root or generator name are different objects, and every field handed out has the requested degree, name and generator. This holds for every interleaving of threads that create, copy and drop fields.",
  ["schedules","histories"],"all interleavings (at every shared-memory access) of 2-4 threads creating, copying, comparing and dropping a small set of fields, with adversarial reuse of freed memory",
  "The only tests of uniqueness are single threaded; a lost race between the last release of a field and its re-creation needs a preemption between two particular instructions.",
  [KC,KH,R+"equal.c",R+"init_set.c"],
  [("global registry under a mutex, looked up on every creation",KC),("intrusive reference count deciding when a field leaves the registry",KC)],
  [("fields","registry of live fields",KC),("fields_mutex","guards the registry",KC),("refcount","live references incl. 3 internal ones",KH)],
  ["renf_class::make","operator==(renf_class)","renf_elem_class::parent"]),
P("C02","Fields live exactly as long as they are referenced, under any schedule",
  "A number field stays intact as long as any handle or element refers to it, and is destroyed exactly once after the last reference is gone, no matter which threads drop the references and in which order. Creating, copying, moving and dropping fields and elements from any number of threads never touches freed memory, never races on unsynchronised memory, and never deadlocks.",
  ["schedules","histories"],"all interleavings of threads creating, copying, moving, swapping, assigning and dropping handles and elements; every order of destruction; freed memory poisoned and reused adversarially",
  "Reference-count races, missing memory ordering and lock-order mistakes are invisible to single-threaded tests and practically never hit by real threads.",
  [KC,KH,EC,EH],
  [("atomic intrusive reference count, last release removes from registry and deletes",KC),("elements hold a counted reference to their parent",EC),("cache of 0, 1 and generator owned by the field",KC)],
  [("refcount","references to the field",KH),("cache","internal elements that refer back to the field",KH)],
  ["intrusive_ptr_add_ref","intrusive_ptr_release","renf_class::~renf_class"]),
P("C03","Threads working on their own data get exactly their sequential results",
  "Threads that each work on their own elements, over a shared field made immutable beforehand or over a field of their own, obtain exactly the results a sequential execution of the same operations gives, for every interleaving. Shared objects that are only copied or looked at (a field's zero, one and generator, its name, degree and printed form) can be used from several threads at once, and the library keeps no unsynchronised hidden shared state.",
  ["schedules"],"all interleavings, at the granularity of single memory accesses and library calls, of 2-4 threads each running a random program of arithmetic, comparison, rounding, printing, parsing and serialization",
  "No existing test starts a thread; hidden static state gives right answers in every single-threaded run.",
  [EC,KC,E+"get_d.c",E+"cmp.c",E+"sgn.c",E+"fdiv.c",E+"rounding_template.h",R+"refine_embedding.c",R+"set_immutable.c"],
  [("no static mutable data in the C library; only temporaries on the stack",E),("immutability flag forbids refinement of a shared field",R+"refine_embedding.c"),("function-local statics initialised once",EC)],
  [("immutable","forbids refinement",R+"set_immutable.c")],["all renf_elem_* and operator functions"]),
P("C04","An immutable field never changes and never yields a wrong answer",
  "Once a field is marked immutable its embedding and precision stay bit-for-bit the same, whatever is computed over it, until it is made mutable again. An operation over it either returns the exact answer or, if that would need a better embedding, stops the program with an assertion; it never refines the field anyway, never returns a wrong result, and setting or clearing the flag always returns the previous setting.",
  ["histories","inputs"],"all histories of operations, refinements and immutable/mutable switches over a field, including values that cannot be decided at the frozen precision",
  "Only a few tests set the flag and none combines it with values that are undecidable at the frozen precision.",
  [R+"set_immutable.c",R+"refine_embedding.c",R+"init_set.c",E+"sgn.c",E+"cmp.c",E+"get_d.c",E+"fdiv.c"],
  [("assertion at the start of every refinement",R+"refine_embedding.c"),("flag is exchanged, old value returned",R+"set_immutable.c"),("copies start out mutable",R+"init_set.c")],
  [("immutable","the flag",R+"set_immutable.c"),("emb, prec","embedding of the generator and working precision","libeantic/e-antic/renf.h")],
  ["renf_set_immutable","renf_refine_embedding"]),
P("C05","Arithmetic is exact whatever was computed, refined or shared before",
  "Creating, converting and combining elements (+, -, *, /, inverse, power, with operands of every supported type, also when result and operands are the same object) gives exactly the element that exact arithmetic in the field gives. This holds for every earlier history: how often the field or the operands were refined, how coarse or fine their enclosures are, and which other clients of the same field ran in between.",
  ["histories","inputs"],"all interleaved histories of several clients computing over shared fields of degree 1..12 and small/huge coefficients, with refinements and coarse enclosures injected between and inside operations",
  "Tests sample single operations on fresh operands; the C++ tests do not even run here. They do not cover aliasing patterns, type boundary values and enclosure states together.",
  [EC,E+"add.c",E+"mul.c",E+"div.c",E+"inv.c",E+"pow.c",E+"add_fmpq.c",E+"mul_fmpq.c",E+"div_fmpq.c",E+"fmpq_sub.c",E+"fmpq_div.c",E+"gen.c",E+"set_fmpq_poly.c"],
  [("exact part delegated to FLINT number field elements, ball part tracked separately",E),("coercion of rationals between fields",EC)],
  [("elem","exact coordinates","libeantic/e-antic/renf_elem.h"),("emb","enclosure","libeantic/e-antic/renf_elem.h")],
  ["renf_elem_{add,sub,mul,div,neg,inv,pow}*","renf_elem_class operators, constructors, num/den/num_vector"]),
P("C06","Sign, order, equality and hash are exact in every refinement state",
  "Sign, comparison, equality and the predicates zero/one/integer/rational agree with the true real numbers, between elements and with every supported integer and rational type, however close the numbers are. The answer does not depend on earlier refinements, on the enclosures the operands currently carry, or on the clients that used the field before, and equal elements have equal hashes at all times.",
  ["histories","inputs"],"all interleaved histories over shared fields; operands at distance down to 2^-2000 from each other or from the compared number; enclosures from exact to infinitely wide",
  "Deciding a sign is a race between interval refinement and an exact fallback; which path runs depends on hidden precision state that tests never vary.",
  [E+"cmp.c",E+"cmp_fmpq.c",E+"cmp_fmpz.c",E+"cmp_si.c",E+"cmp_ui.c",E+"sgn.c",E+"equal.c",E+"equal_si.c",E+"equal_ui.c",E+"equal_fmpz.c",E+"equal_fmpq.c",EC],
  [("compare enclosures, re-evaluate, then exact sign of the difference with refinement",E+"cmp.c"),("refine until zero is excluded",E+"sgn.c")],
  [("emb","cached enclosure updated by comparisons","libeantic/e-antic/renf_elem.h")],
  ["renf_elem_cmp*","renf_elem_equal*","renf_elem_sgn","relational operators","std::hash"]),
P("C07","Floor, ceiling, floor division, continued fractions and doubles are exact",
  "Floor, ceiling, floor division and continued fraction quotients are the true mathematical ones, and conversion to double is the correctly rounded value in the requested direction (normal range; beyond the largest double infinite, or the largest double when rounding towards zero, always with the right sign), however close the value is to an integer, a double or a midpoint. The result does not depend on earlier refinements, on the enclosure the element carries, or on other clients of the field.",
  ["histories","inputs"],"all interleaved histories over shared fields; values within 2^-2000 of integers, doubles and midpoints, negative and huge values; enclosures from exact to infinitely wide",
  "Rounding has separate fast and slow paths chosen by hidden precision state; tests sample random values far from ties.",
  [E+"rounding_template.h",E+"floor_ceil.c",E+"fdiv.c",E+"get_cfrac.c",E+"get_d.c",EC],
  [("ball gives candidate, exact comparison decides",E+"rounding_template.h"),("quotient refined until one integer is left",E+"fdiv.c"),("refine until both ends round to the same double",E+"get_d.c")],
  [("emb","cached enclosure","libeantic/e-antic/renf_elem.h")],
  ["renf_elem_floor","renf_elem_ceil","renf_elem_fdiv","renf_elem_get_cfrac","renf_elem_get_d","renf_elem_class::floor/ceil/floordiv/operator double"]),
P("C08","Enclosures always contain the true value, and refinement reaches its goal",
  "At every moment the enclosure of a field's generator contains the chosen root and the enclosure of every element contains its true value. Refining a field to p bits ends with an enclosure of the same root that is accurate to p bits and not worse than before, and asking for an enclosure of an element with p bits ends with one that contains the value and is that accurate, from every state reached before.",
  ["histories","inputs"],"all interleaved histories of arithmetic, observations and refinements to 1..4096 bits over shared fields, starting from coarse or fine balls",
  "A ball that is slightly too small or a refinement that stalls shows only for particular sequences of precisions.",
  [R+"refine_embedding.c",R+"init.c",Z+"newton_step_arb.c",Z+"bisection_step_arb.c",Z+"evaluate.c",Q+"evaluate.c",E+"set_evaluation.c",E+"get_arb.c",Z+"relative_condition_number_2exp.c"],
  [("interval Newton step, bisection as fallback, precision doubled when stuck",R+"refine_embedding.c"),("ball arithmetic on every operation",E)],
  [("emb","enclosures of generator and elements","libeantic/e-antic/renf.h")],
  ["renf_refine_embedding","renf_elem_get_arb","renf_elem_set_evaluation","to_string"]),
P("C09","Elements are independent values: no operation changes any other object",
  "Copying, moving, swapping and assigning elements transfers exactly the value, an enclosure of it, and its field, and an operation changes no element, field or argument other than the one it is documented to change: observing an element (comparing, rounding, printing, hashing, refining, serializing) never changes any value. Moved-from elements can be destroyed and assigned, and mixed-field operations give a result in the documented field or are rejected.",
  ["histories","programs"],"all histories of copies, moves, swaps, self-assignments, assignments across fields, in-place operations with every aliasing pattern, interleaved with observations and refinements",
  "Sharing mistakes show only when two objects that wrongly share storage are used in a particular order later.",
  [EC,EH,E+"set.c",E+"init.c",E+"clear.c","libeantic/e-antic/renf_elem.h"],
  [("deep copies of exact part and ball",E+"set.c"),("moved-from element gives up its field",EC)],
  [("nf","counted parent pointer, null when moved-from",EH)],
  ["renf_elem_class copy/move/assign/swap","renf_elem_set","renf_elem_swap"]),
P("C10","Creating a field picks exactly the root described, or refuses",
  "A field created from a minimal polynomial and a ball (or a sequence of ever better balls) is the one whose generator is the unique root in that ball, at any requested precision; a description that fits no root or several is refused with an error, and enumerating the embeddings of a polynomial gives all its real roots once each in increasing order. Describing an existing field by its own construction data, at any time in its history and at any precision, gives that same field back.",
  ["histories","inputs","configurations"],"polynomials with close, negative, huge and tiny roots, balls from barely isolating to far too coarse, precisions 2..2000, callbacks that return slowly improving balls, and construction data taken after arbitrary refinements",
  "Whether a ball is accepted depends on the precision/ball/root-distance combination and, for construction data, on the refinement history.",
  [KC,R+"init.c",R+"init_set.c",R+"equal.c",R+"set_embeddings_fmpz_poly.c",R+"init_nth_root.c",Q+"check_unique_real_root.c",Z+"isolate_real_roots.c",Z+"num_real_roots_0_1.c"],
  [("sign change plus derivative test, then exact root count",Q+"check_unique_real_root.c"),("retry at doubled precision",KC),("root isolation",Z+"isolate_real_roots.c")],
  [("emb","embedding",R+"init.c")],
  ["renf_class::make","renf_class::construction","renf_init","renf_set_embeddings_fmpz_poly","renf_init_nth_root_fmpq"]),
P("C11","Saved elements load back exactly, in this process or after a restart",
  "Elements and fields written to an archive (binary, portable binary, JSON or XML) and read back, in the same process or in a new one where no field exists yet, are equal to what was written: every element has its exact value and elements that shared a field share one field object afterwards. This holds whatever was refined, created or destroyed while the archive was being written or read. JSON archives in the format of versions before 1.0 are still read, with the same result.",
  ["histories","crash_points","schedules"],"all histories of saving, refining, dropping and re-creating fields during one archive, adversarial reuse of freed addresses, reading in the same or a restarted process, all archive kinds",
  "Round-trip tests keep all objects alive and read back in the same process; identifiers based on addresses go wrong only when memory is reused in the middle of an archive.",
  [CE,KC,EC,Q+"set_str_pretty.c",E+"get_str_pretty.c"],
  [("first occurrence of a field writes its construction data, later ones an id",CE),("exact text form of the value",E+"get_str_pretty.c")],
  [("shared pointer registry of the archive","maps field addresses to ids",CE)],
  ["cereal save/load of renf_elem_class and intrusive_ptr<const renf_class>"]),
P("C12","A torn archive yields the exact prefix, then an error, never bad data",
  "If an archive is cut off at any byte, or reading or writing it fails at any point, loading yields a prefix of the stored elements, each with its exact value, and then reports an error by exception unless everything was there. It never crashes, hangs, returns a wrong value or leaves fields or elements behind in a broken state, and an intact archive can be read right afterwards.",
  ["crash_points","fault_sequences"],"every truncation point of archives with several fields and elements, short reads, stream errors and lost writes at every byte",
  "Tests only read intact archives from memory.",
  [CE,KC,EC],
  [("archive exceptions propagate; elements are only replaced after complete parsing",CE)],
  [],["cereal load","renf_class::make"]),
P("C13","Text streams: what is printed reads back; broken input only throws",
  "The text written for an element reads back as exactly that element over its field, also when several elements share a stream, whatever refinements happen in between and in whatever pieces the stream delivers its bytes. If the stream ends, fails or contains text that is no element, reading throws or marks the stream as failed, the target element keeps its value, and neither the field nor any other element is affected.",
  ["fault_sequences","histories"],"all sequences of prints and reads on shared streams with short reads, end of file, stream failure or garbage injected at any byte",
  "Stream tests read complete, well-formed in-memory strings only.",
  [KC,EC,Q+"set_str_pretty.c",E+"get_str_pretty.c"],
  [("field attached to the stream, token read up to blank or closing parenthesis",KC),("exact polynomial text, approximation after ~ ignored",EC)],
  [("pword","field attached to a stream",KC)],["operator<<","operator>>","renf_elem_class(const renf_class&, const std::string&)","to_string"]),
P("C14","A failed operation leaves the library and all other objects intact",
  "When creating a field or element fails (malformed text, a ball that isolates no root, an exception from the user's refinement callback, an unsupported mixed-field operation, or memory exhaustion reported as std::bad_alloc), the failure reaches the caller as an exception and everything else is as before: no lock stays held, existing fields and elements keep their values, and the same operation succeeds when repeated without the fault.",
  ["fault_sequences","histories"],"a fault at every allocation, every callback invocation and every malformed argument, at every point of a history",
  "Existing tests inject no faults.",
  [KC,EC,CE],
  [("scoped lock on the registry",KC),("element replaced only after successful construction",EC)],
  [("fields, fields_mutex","registry and lock",KC)],["renf_class::make","renf_elem_class constructors and assignments","operator>>","cereal load"]),
P("C15","No history of successful or failed operations leaks memory",
  "After all elements, fields and handles a program created are gone, all memory and all fields they used have been released, whichever operations ran, succeeded or were rejected with an exception (bad input, a throwing callback, a torn archive), and in whatever order the objects were dropped.",
  ["histories","fault_sequences"],"all histories of field and element operations, including failing ones, ending with every object dropped in every order",
  "The test suite never counts allocations, and leaks on error or rare refinement paths need those paths to run.",
  [KC,EC,Q+"check_unique_real_root.c",Z+"bisection_step_arb.c",E,R],
  [("every init has a clear on every path",R),("field leaves the registry with its last reference",KC)],
  [("refcount","references to the field",KH)],["allocation balance after dropping everything"]),
P("C16","Python objects survive pickling and any order of garbage collection",
  "Number fields and elements used from Python keep their exact value and their parent field whatever order wrapper objects are deleted or garbage collected in, and pickling and unpickling them, in the same or a new interpreter, gives back equal elements whose parents are again one shared field object.",
  ["histories","crash_points"],"all histories of creating, combining, deleting, collecting and pickling wrappers, with the collector run at arbitrary points",
  "The Python tests keep every object alive and pickle single objects.",
  ["pyeantic/src/pyeantic/cppyy_eantic.py","pyeantic/src/pyeantic/__init__.py","libeantic/e-antic/cppyy.hpp",CE],
  [("pythonization of the C++ classes, pickling through the serialization",'pyeantic/src/pyeantic/cppyy_eantic.py')],
  [],["pyeantic.eantic.renf","pickle"]),
P("C17","Real root isolation and counting are correct for every polynomial",
  "For every squarefree integer polynomial, counting and isolating its real roots (in an interval or on the whole line) gives exactly its real roots, each isolated once.",
  ["inputs"],"all integer polynomials","Infinite input space.",
  [Z+"isolate_real_roots.c",Z+"num_real_roots_0_1_sturm.c",Z+"num_real_roots_vca.c",Z+"descartes_bound_0_1.c",Z+"positive_root_upper_bound_2exp.c",Z+"has_real_root.c"],
  [("Vincent-Collins-Akritas bisection and Sturm sequences",Z)]),
P("C18","The polynomial text parser accepts exactly the documented syntax",
  "Every string is either parsed to the polynomial it denotes or rejected.",
  ["inputs"],"all strings and variable names","Infinite input space.",
  [Q+"set_str_pretty.c",Z+"set_str_pretty.c"],[("hand-written parser",Q+"set_str_pretty.c")]),
P("C19","Random generators return valid objects for every random state",
  "From every state of the random number generator and for every requested size, the generators of random fields, irreducible polynomials and elements return: a polynomial of at most the requested length and coefficient size that is irreducible (or constant, for the polynomial generator), a field whose embedding isolates exactly one real root of such a polynomial at the requested precision, and elements in canonical form with an enclosure containing their value. Whatever else was created, refined or dropped before, the same random state gives the same object, and drawing an element does not change its field.",
  ["inputs","histories"],"all random states, lengths 2..11, 2..72 bits, precisions 2..2000, interleaved with creation, refinement and destruction of other fields",
  "Tests draw a few objects from one fixed state; the failing states are rare (e.g. one in a hundred for short polynomials).",
  [R+"randtest.c",E+"randtest.c",Z+"randtest_irreducible.c",Z+"isolate_real_roots.c"],[("lift of a random irreducible polynomial modulo a prime, rejected until it has a real root",R+"randtest.c")],
  [("state","random state passed in by the caller","libeantic/e-antic/renf.h")],["renf_randtest","renf_elem_randtest","fmpz_poly_randtest_irreducible"]),
P("C20","Conversions to SageMath and realalg number fields preserve values",
  "Elements and fields converted to or from SageMath or realalg denote the same real numbers.",
  ["inputs"],"all fields and elements","Infinite input space; SageMath is not installed here.",
  ["pyeantic/src/pyeantic/sage_conversion.py","pyeantic/src/pyeantic/realalg_conversion.py"],[("coercion maps","pyeantic/src/pyeantic/sage_conversion.py")]),
]
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in props))
