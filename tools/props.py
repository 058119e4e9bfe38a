#!/usr/bin/python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, observe, level_note, technique="property-based testing with Hypothesis: generated cases against a reference model", na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe,
                      level_note=level_note, technique=technique, na=na))

P("P01", "Array algebra and reductions equal element-wise arithmetic",
  "Every arithmetic, mathematical, flag and reduction operation on sampled values equals the operation applied point by point on the full grid, where a value collapsed along an axis stands for equal values at all points of that axis and flagged points are left out of reductions. Operands of incompatible shape or type are refused, and no operation changes any value but its destination, however values were copied or shared before.",
  ["inputs", "programs"], "all programs of array operations over real, complex and flag arrays of compatible and incompatible collapsed shapes, values and flag masks",
  "The existing tests apply a handful of operations to two or three fixed shapes; broadcasting, flags and sharing interact combinatorially.",
  ["MEQ/src/Vells.h", "MEQ/src/Vells.cc", "DMI/src/NumArray.cc"],
  [("stride computation for collapsed axes", "MEQ/src/Vells.cc"), ("lookup tables per operand type", "MEQ/src/Vells.cc"), ("copy-on-write of array data", "DMI/src/NumArray.cc")],
  ["values and flags of every operand after every operation"],
  "Random programs of up to 8 operations on arrays of up to 64 points; compares every register after every step with numpy.")

P("P03", "Function nodes evaluate their function of all children at every plane",
  "A node computing a mathematical function returns, for every plane of its result and every point of the grid, that function of its children's values; perturbed values are the function of the perturbed child values and the perturbation labels are the union of the children's. Flags are the union of the children's flags under the node's masks, failed planes make only the corresponding result planes fail, and missing data is skipped or propagated as the function documents.",
  ["inputs", "configurations"], "all function classes, child counts, tensor shapes, perturbation sets, collapsed shapes, flags, masks, failed and missing planes",
  "The existing tests evaluate a few fixed trees without flags, perturbations, failures or tensors.",
  ["MEQ/src/Function.cc", "MEQ/src/TensorFunction.cc", "MeqNodes/src"],
  [("plane and perturbation bookkeeping", "MEQ/src/Function.cc"), ("flag merging", "MEQ/src/Function.cc"), ("per-class evaluation", "MeqNodes/src")],
  ["result of executing the node"],
  "Random child results fed through a harness node in the real forest; compares with a numpy model.")

P("P04", "Caching never changes the answer of a tree",
  "For any history of requests and state changes, executing a node gives the same result, fails and flags as executing it in a freshly built forest in the same state with all caches off. A result is reused only while everything it depends on is unchanged, so a changed request or cell grid is always visible at the root, and a changed node state is visible to every request that announces it by raising its state component.",
  ["histories", "configurations"], "all trees, cache policies, request sequences, dependency masks, node state changes and cache clearings",
  "Tests run single requests on fresh trees; stale results need a history of requests and state changes.",
  ["MEQ/src/Node.cc", "MEQ/src/NodeNursery.cc", "MEQ/src/RequestId.cc", "MEQ/src/Function.cc"],
  [("request-id masks per dependency", "MEQ/src/RequestId.h"), ("cache policies and holding of child results", "MEQ/src/Node.cc")],
  ["result of every execution in the history", "result codes"],
  "Random trees of up to 8 nodes and histories of up to 12 steps, differential against a forest rebuilt from scratch.",
  "model-based property testing of histories: differential against a cache-free rebuild, with Hypothesis")

P("P05", "Request ids: dependency masks select exactly the changed components",
  "Two request ids are equal under a dependency mask exactly when every component selected by the mask is equal, and raising one component of an id changes it only for dependencies that include this component. Ids survive conversion to text and back.",
  ["inputs"], "all request ids, masks and component updates, including ids of different lengths",
  "The tests use a few literal ids.",
  ["MEQ/src/RequestId.h", "MEQ/src/RequestId.cc", "MEQ/src/Rqid.h"],
  [("masked comparison and component update", "MEQ/src/RequestId.cc")],
  ["compare/set/increment results"],
  "Random ids and masks against an integer-tuple model.")

P("P06", "Grids: cells, sizes, segments and domains stay mutually consistent",
  "A grid built from a domain and a number of cells, from explicit centers and sizes, by resampling or by integer binning describes the same partition: centers lie inside the domain, sizes add up to it, segments are exactly the maximal regular runs, and comparison, superset and copy agree with the described points. Undefined axes count as a single point and survive every operation.",
  ["inputs"], "all domains, axis subsets, cell counts, irregular centers and sizes, and sequences of axis changes",
  "The tests check one or two regular two-axis grids.",
  ["MEQ/src/Cells.cc", "MEQ/src/Domain.cc", "MEQ/src/Axis.cc"],
  [("segment recomputation", "MEQ/src/Cells.cc"), ("domain records", "MEQ/src/Domain.cc")],
  ["axis accessors and record form of the grid"],
  "Random grids over up to 8 axes against a plain list model.")

P("P07", "Results and requests survive conversion to records and back",
  "A result or request written as a record, sent as bytes or converted to Python and back describes the same values, perturbed values, perturbations, flags, grid, tensor dimensions and fails. Records that do not describe a valid result are refused without a crash.",
  ["inputs"], "all results with any combination of planes, fails, flags, perturbation sets, collapsed values, and all mutated records",
  "The tests convert a few well-formed objects once.",
  ["MEQ/src/VellSet.cc", "MEQ/src/Result.cc", "MEQ/src/Request.cc", "DMI/src/Record.cc"],
  [("record mirroring in setters and validation on the way back", "MEQ/src/VellSet.cc")],
  ["field-by-field comparison of both sides"],
  "Random objects and mutated records; mutation only looks for crashes and internal inconsistency.",
  "round-trip property testing and structured mutation fuzzing with Hypothesis")

P("P09", "Parameter functions evaluate to their polynomial and its perturbations",
  "Evaluating a parameter function on a grid gives the documented polynomial, log-polynomial, spline or composite value at every cell center, for any rank, scale, offset and coefficient count; collapsed axes are collapsed only when the value does not depend on them. Each perturbed value equals the value evaluated with exactly that coefficient moved by its perturbation.",
  ["inputs"], "all coefficient arrays, ranks, axes, scales, offsets, solvable masks, perturbation sizes and grids",
  "The tests evaluate one low-order polynomial at fixed points.",
  ["MEQ/src/Funklet.cc", "MEQ/src/Polc.cc", "MEQ/src/PolcLog.cc", "MEQ/src/ComposedPolc.cc", "MEQ/src/Spline.cc"],
  [("recursive polynomial evaluation with derivatives", "MEQ/src/Polc.cc")],
  ["values and perturbed values returned for a grid"],
  "Random funklets against a numpy polynomial model.")

P("P10", "Parameters return what was stored, updated or defaulted for the domain",
  "A parameter evaluates to the stored function matching the requested domain, else to its default, and a solver's update changes exactly the coefficients it addresses. What is saved in the parameter table is what a new parameter reads back, and putting, selecting and deleting table entries behaves like a list of entries with domains.",
  ["histories", "inputs"], "all sequences of puts, lookups, updates, saves and reopenings over overlapping and disjoint domains",
  "The tests store and read one parameter in one domain.",
  ["MeqNodes/src/Parm.cc", "MEQ/src/FastParmTable.cc", "MEQ/src/ParmTable.cc"],
  [("domain matching", "MEQ/src/FastParmTable.cc"), ("solvable bookkeeping", "MeqNodes/src/Parm.cc")],
  ["evaluated values, files after reopening"],
  "Random histories against a list-of-entries model.",
  "stateful model-based testing with Hypothesis")

P("P11", "Solving finds the parameters that minimise the residuals",
  "For any solvable tree the solver's update moves the parameters to the least-squares solution of the condition equations, leaving non-solvable parameters untouched; linear problems reach it within a few iterations, and the residual never ends above the one at the start. The reported metrics and values are those of the data actually used, without the flagged points.",
  ["inputs", "histories"], "all linear and mildly nonlinear systems, flags, tilings, real and complex data, iteration limits",
  "The tests solve two fixed systems.",
  ["MeqNodes/src/Solver.cc", "MeqNodes/src/Condeq.cc", "MeqNodes/src/Parm.cc"],
  [("derivatives from perturbed values", "MeqNodes/src/Condeq.cc"), ("normal equations and update distribution", "MeqNodes/src/Solver.cc")],
  ["parameter values and solver result after execution"],
  "Random small systems solved independently with numpy least squares.")

P("P13", "Matrix and tensor nodes obey matrix algebra at every point",
  "Matrix multiplication, inversion, transposition, composition, selection and stacking of tensors equal the corresponding matrix operation at every point of the grid and for every perturbed value. Missing and scalar elements behave as zeros and scaled identities as documented, and incompatible dimensions are refused.",
  ["inputs"], "all tensor ranks and dimensions, scalar operands, missing planes, perturbations and selections",
  "The tests multiply fixed 2x2 matrices.",
  ["MeqNodes/src/MatrixMultiply.cc", "MeqNodes/src/MatrixInvert22.cc", "MeqNodes/src/Transpose.cc", "MeqNodes/src/Composer.cc", "MeqNodes/src/Selector.cc", "MeqNodes/src/Paster.cc"],
  [("plane indexing", "MEQ/src/Result.h"), ("tensor evaluation", "MEQ/src/TensorFunction.cc")],
  ["result of executing the node"],
  "Random tensors against numpy matrix algebra.")

P("P14", "Reduction nodes reduce over exactly the unflagged points of the grid",
  "Nodes reporting sum, mean, product, minimum, maximum, count, standard deviation or rms return, for every plane, that statistic over all unflagged points of the grid, over all axes or just the selected ones. Values collapsed along an axis count once for every point of that axis.",
  ["inputs"], "all values, collapsed shapes, flags, masks, tensor shapes and axis selections",
  "The tests have no flags and reduce over whole small grids.",
  ["MeqNodes/src/Sum.cc", "MeqNodes/src/Mean.cc", "MeqNodes/src/StdDev.cc", "MeqNodes/src/Rms.cc", "MeqNodes/src/Max.cc", "MeqNodes/src/NElements.cc", "MeqNodes/src/ReductionFunction.cc", "MEQ/src/VellsSlicerWithFlags.cc"],
  [("reduction over slices", "MeqNodes/src/ReductionFunction.cc")],
  ["result of executing the node"],
  "Random results against numpy statistics.")

P("P15", "Resampling and axis nodes compute the documented value of every new cell",
  "Resampling a result to another grid gives for each new cell the documented integral or interpolation of the old cells with their flags weighted in, and resampling to the same grid changes nothing. Nodes that replace, shift or compound axes move values along axes without losing or mixing any.",
  ["inputs"], "all pairs of grids and values, flags and node options",
  "The tests do not execute these nodes on differing grids.",
  ["MeqNodes/src/Resampler.cc", "MeqNodes/src/ModRes.cc", "MEQ/src/ResampleMachine.cc", "MeqNodes/src/Compounder.cc"],
  [("overlap computation", "MEQ/src/ResampleMachine.cc")],
  ["result of executing the node"],
  "Random grids against a direct overlap computation.")

P("P16", "Flagging nodes set and clear exactly the flags they describe",
  "A zero-flagger flags exactly the points whose comparison with zero holds, a flag merger adds exactly the flags of its other children under their masks, and flag bits not addressed are left as they were. Flagging never changes a data value.",
  ["inputs"], "all values, operators, flag bits, masks and previously present flags, collapsed or full",
  "Flag nodes are hardly exercised by existing tests.",
  ["MeqNodes/src/ZeroFlagger.cc", "MeqNodes/src/MergeFlags.cc"],
  [("flag bit arithmetic", "MeqNodes/src/ZeroFlagger.cc")],
  ["flags and values of the node's result"],
  "Random values and flags against a numpy model.")

P("P18", "The forest behaves like a map of uniquely named and numbered nodes",
  "Creating, looking up, linking and deleting nodes by name or number behaves like a map in which names and numbers are unique; what does not exist is reported as such, whatever number or name is asked for. A refused operation leaves the forest unchanged.",
  ["histories", "inputs"], "all sequences of create, batch create, delete, lookup, state and clear commands with valid and invalid arguments",
  "The tests create trees once and never delete or collide.",
  ["MEQ/src/Forest.cc", "MeqServer/src/MeqServer.cc", "MEQ/src/NodeNursery.cc"],
  [("repository of nodes and name map", "MEQ/src/Forest.cc")],
  ["replies and node list after every command"],
  "Random command histories against a dictionary model.",
  "stateful model-based testing with Hypothesis")

P("P19", "Node state read back is the state that was set",
  "Setting fields of a node's state and reading the state gives the new values for these fields and the old values for all others, and the node then behaves like one created with this state. An update with a field of wrong type or a read-only field is refused as a whole: neither the state nor the behaviour of the node changes.",
  ["histories", "inputs"], "all node classes, state fields and sequences of updates, valid and invalid",
  "The tests never read back states.",
  ["MEQ/src/Node.cc", "MEQ/src/Function.cc", "MEQ/src/Forest.cc"],
  [("state initialisation and protection", "MEQ/src/Node.cc")],
  ["state record after every update"],
  "Random update sequences against a dictionary model.",
  "stateful model-based testing with Hypothesis")

P("P20", "Multithreaded execution gives the single-threaded result",
  "Executing any tree with any number of worker threads gives the same results, fails and per-node evaluation counts as executing it in one thread, for every schedule of the workers, and always terminates.",
  ["schedules", "inputs"], "all trees with shared children, child poll policies, delays in child evaluation, failures and numbers of threads",
  "The test-suite runs one fixed tree; outcome depends on the schedule.",
  ["MEQ/src/MTPool.cc", "MEQ/src/NodeNursery.cc", "MEQ/src/Node.cc", "TimBase/src/Thread"],
  [("work brigades", "MEQ/src/MTPool.cc"), ("execution locks", "MEQ/src/Node.cc")],
  ["results and number of evaluations"],
  "Random trees with random delays in every leaf, compared with the single-threaded forest; schedules are sampled, not enumerated.",
  "differential property testing under randomly delayed schedules")

P("P22", "Containers behave like their model and copies never influence each other",
  "Records, lists, vectors and arrays behave like a map, a sequence, and a fixed-type array under every sequence of element access, insertion, removal and merge. A copy made at any time keeps its value no matter what later happens to the original, and the original keeps its value no matter what happens to a writable copy.",
  ["histories"], "all sequences of operations on nested containers, with copies by reference, by privatisation and to any depth",
  "The tests run fixed sequences with a few copies.",
  ["DMI/src/Record.cc", "DMI/src/List.cc", "DMI/src/Vec.cc", "DMI/src/NumArray.cc", "DMI/src/CountedRef.h", "DMI/src/CountedRefBase.cc"],
  [("counted references with copy-on-write", "DMI/src/CountedRefBase.cc")],
  ["content of every live container after every step"],
  "Random operation histories against deep-copied Python values.",
  "stateful model-based testing with Hypothesis")

P("P23", "Serialisation round-trips, and corrupt input is refused safely",
  "Any container written as blocks or to a file and read back equals the original, in the order written. Truncated or corrupted input gives an error or a valid object, and never a crash, hang or out-of-bounds access.",
  ["inputs", "fault_sequences"], "all nested containers, file sequences, and all truncations and corruptions of their bytes",
  "The tests round-trip a few objects and feed no corrupt input.",
  ["DMI/src/BOIO.cc", "DMI/src/Record.cc", "DMI/src/Vec.cc", "DMI/src/List.cc", "DMI/src/NumArray.cc", "DMI/src/BlockSet.cc", "DMI/src/BObj.cc"],
  [("block headers", "DMI/src/BObj.h"), ("fromBlock of each container", "DMI/src/Vec.cc")],
  ["content read back, exceptions"],
  "Random containers; byte mutations of the written form.",
  "round-trip property testing and mutation fuzzing with Hypothesis")

P("P24", "Hierarchical ids behave like sequences of atoms",
  "Concatenation, slicing, prefixes, sub-ids, wildcard matching and ordering of hierarchical ids agree with the same operations on sequences of atoms, and an id written as text and read back is the same id for any sequence of non-empty components. Atom names and numbers map to each other one to one; names and numbers that stand for no atom are refused or kept as literal text, never turned into another id.",
  ["inputs"], "all ids including indices, negative values, wildcards, empty and long ids, and all operation sequences",
  "The tests use a few literal ids.",
  ["DMI/src/HIID.cc", "DMI/src/HIID.h", "DMI/src/AtomicID.cc"],
  [("atom vector with small-size storage", "DMI/src/HIID.h")],
  ["results of every operation"],
  "Random ids against Python tuples.")

P("P25", "Values cross the Python boundary unchanged",
  "A value passed from Python to the system and back is equal to the original, with its type, for numbers, strings, ids, arrays of any layout, lists and nested records; truth values may come back as equal integers and sequences as lists or tuples. A value that cannot be represented is refused, left out or marked as such and never silently changed.",
  ["inputs"], "all nested values, integer ranges, array types, byte orders, strides and orders",
  "The tests convert a few contiguous arrays.",
  ["OCTOPython/src/DataConv.cc", "OCTOPython/src/dmi.py"],
  [("type dispatch of the converters", "OCTOPython/src/DataConv.cc")],
  ["value that comes back"],
  "Random nested values; equality including types.",
  "round-trip property testing with Hypothesis")

P("P26", "Array views read and write exactly the elements they address",
  "Indexing an array with any mix of positions, ranges with strides and wildcards yields exactly the addressed elements, writes through such an index change exactly these and no array that was copied before, and any index outside the array is refused.",
  ["inputs"], "all array types, ranks, index expressions in and out of range",
  "The tests use a few ranges on one array.",
  ["DMI/src/NumArray.cc", "DMI/src/NumArrayFuncs.cc"],
  [("index parsing into shape, stride and offset", "DMI/src/NumArray.cc")],
  ["elements read and the full array after writing"],
  "Random index expressions against numpy indexing.")

P("P27", "Messages reach exactly their subscribers, once and in order",
  "A message sent or published reaches every process addressed or subscribed within the scope, nobody else, exactly once, with unchanged content, and messages of one sender to one receiver arrive in sending order within a priority. Unsubscribing and detaching take effect for every later message.",
  ["histories", "schedules"], "all sets of processes, subscriptions with wildcards and scopes, priorities and message sequences",
  "The tests exchange a few messages between two processes.",
  ["OCTOPUSSY/src/Dispatcher.cc", "OCTOPUSSY/src/WPInterface.cc", "OCTOPUSSY/src/Subscriptions.cc"],
  [("routing and subscription matching", "OCTOPUSSY/src/Dispatcher.cc")],
  ["messages received by each process"],
  "Random histories against a routing model in one process.",
  "stateful model-based testing with Hypothesis")

P("P29", "The server answers every command with the documented effect and reply",
  "A kernel process accepts any sequence of commands from a client and answers each with the requested reply or an error, executing what is valid and refusing what is not, and it keeps serving afterwards. Events requested by the client are published for exactly the matching operations.",
  ["histories", "fault_sequences"], "all command sequences with valid and malformed arguments",
  "The tests run scripted sessions of valid commands.",
  ["MeqServer/src/MeqServer.cc", "PyApps/src/Apps/meqserver.py", "PyApps/src/Apps/multiapp_proxy.py"],
  [("command map and reply construction", "MeqServer/src/MeqServer.cc")],
  ["replies and later behaviour of the process"],
  "Random sessions against a real kernel process over a local socket.",
  "stateful model-based testing with Hypothesis")

P("P30", "Visibility tiles keep what was put in them, and headers select data exactly",
  "A visibility tile returns what was written for every row, frequency and correlation, under any sequence of resizing, copying and merging, and as bytes. Data streamed through the visibility interface reaches the sinks and spigots of exactly the matching antenna pairs, and what the tree returns is what is written back.",
  ["inputs", "histories"], "all tile formats, sizes, operation sequences and streams of tiles and headers",
  "The tests fill one tile.",
  ["VisCube/src/VTile.cc", "VisCube/src/VCube.cc", "VisCube/src/Format.cc", "VisCube/src/ColumnarTableTile.cc", "MeqServer/src/Spigot.cc", "MeqServer/src/Sink.cc", "MeqServer/src/VisDataMux.cc"],
  [("column offsets in a single block", "VisCube/src/ColumnarTableTile.cc")],
  ["columns read back, results of executing spigots and sinks"],
  "Random operation sequences against per-column arrays.",
  "stateful model-based testing with Hypothesis")

P("P31", "Tree definition language: what a script defines is what the repository holds",
  "Node stubs, qualifiers, subscopes, redefinitions and search in a script build exactly the described nodes and child links: a name with qualifiers names one node, an equal redefinition is accepted, a conflicting one is an error, and searches return exactly the matching nodes.",
  ["programs"], "all sequences of definitions, qualifications, subscopes, redefinitions and searches",
  "The tests run a few scripts.",
  ["PyApps/src/TDL/TDLimpl.py"],
  [("node stubs and repository", "PyApps/src/TDL/TDLimpl.py")],
  ["repository after resolving, errors"],
  "Random scripts against a dictionary model.",
  "model-based testing of generated scripts with Hypothesis")

P("P32", "Compile-time options keep and restore the values a user selects",
  "An option's value is always one of its allowed values, what a user sets is what the script sees and what is written to the configuration, and reading the configuration in a new session restores it. Options of different scopes never influence each other.",
  ["histories", "inputs"], "all option types, value lists, nested menus, exclusions and sequences of settings, savings and reloads",
  "The tests do not reload configurations.",
  ["PyApps/src/TDL/TDLOptions.py"],
  [("option objects and config file handling", "PyApps/src/TDL/TDLOptions.py")],
  ["values seen by the script and in the file"],
  "Random option trees and setting sequences against a dictionary model.",
  "stateful model-based testing with Hypothesis")

P("P34", "Image files read back as the data that was written",
  "What a writer node stores in an image file is read back by a reader node as the same values on the same grid, and missing or malformed files give a failed result and never a crash.",
  ["inputs", "fault_sequences"], "all grids, values, complex and real planes, and truncations and corruptions of the files",
  "No existing test reads a file back.",
  ["MeqNodes/src/FITSReader.cc", "MeqNodes/src/FITSWriter.cc", "MeqNodes/src/FITSUtils.cc"],
  [("axis mapping in the header", "MeqNodes/src/FITSUtils.cc")],
  ["result of executing the reader"],
  "Random results written and read; byte mutations of the files.",
  "round-trip property testing and mutation fuzzing with Hypothesis")

P("P36", "Python nodes see exactly the request and child results and return their own",
  "A node implemented in Python receives the request and child results it would receive in C++, whatever it returns is returned to its parent unchanged, and any exception it raises becomes a failed result. The server is unharmed by whatever the code does with its arguments.",
  ["inputs", "programs"], "all child results, returned values of right and wrong type, exceptions and state fields",
  "The tests have one Python node that returns a constant.",
  ["MeqServer/src/PyNode.cc", "MeqServer/src/MeqPython.cc", "MeqServer/src/pynode.py"],
  [("conversion of requests and results", "MeqServer/src/PyNode.cc")],
  ["arguments seen in Python, result of executing the node"],
  "Random results and misbehaviours of the Python code.")

def main():
    have = set(f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f.endswith(".py"))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
    man = dict(version=1, setup_cmd="bash tools/build.sh release", checks=[], not_applicable=[],
               hooks=dict(guard="NONE", enable="no hooks: the checks build the unmodified sources", source_commits=[]),
               notes="check.sh PID quick|thorough; VERIF_SEED selects the random choices; check.sh PID --replay FILE reruns one case.")
    for p in PROPS:
        if p["id"] in have:
            man["checks"].append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                technique=p["technique"], level="exploration", level_note=p["level_note"]))
        else:
            man["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties,", len(man["checks"]), "checks; unclaimed:", [n["property"] for n in man["not_applicable"]])
main()
