# Writes properties.jsonl.  One place to edit titles/statements.
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "All processes enter the same collective operations",
  "Whether, how often and in which order a process enters a collective MPI operation (reduction, barrier, collective file open or close, collective PETSc call) never depends on something that only that process knows: its rank, its part of the mesh, messages it received, its local error, its timings. Every decision that guards a collective is taken from values that are the same on all processes (the input deck, the number of processes and threads, the result of an all-reduction). So no mesh, partition or deck makes one process wait in a collective that another process skips.",
  "inputs schedules configurations", "every deck, mesh, partition and process count, all interleavings",
  "The regression decks use one small mesh on at most 4 processes whose parts behave alike; a process-dependent branch only diverges on particular partitions or error histories, and shows as a hang.",
  "src/Comm.cc src/SourceIteration.cc src/KrylovSolver.cc src/SweeperPBJ.cc src/SweeperSchur.cc src/Util.cc src/PsiData.cc src/GraphTraverser.cc src/Main.cc src/SweepSchedule.cc src/TychoMeshIO.cc",
  [("collective wrappers", "Comm::gsum, Comm::gmax, Comm::barrier, Comm::openFile*"), ("iteration control on reduced errors", "SourceIteration.cc, SweeperPBJ.cc")])
p("C02", "Message buffers stay alive and unchanged until the request completes",
  "Data handed to a non-blocking send or receive is neither overwritten, resized, freed nor gone out of scope (nor, for a receive, read) before the program has waited for that request. Every request that is started is also completed by a wait or a successful test before its owner goes away.",
  "schedules inputs configurations", "every interleaving of message progress and every message size",
  "The tests' messages are small, so MPI copies them at once and a violation goes unseen; with large messages or other transports the data would be corrupted.",
  "src/CommSides.cc src/GraphTraverser.cc src/Sweeper.cc src/SweepSchedule.cc src/Comm.cc src/TychoMeshIO.cc",
  [("pending sends kept until waitAll", "Sweeper.cc, SweepSchedule.cc PendingSends"), ("wait before reuse", "CommSides.cc, GraphTraverser.cc")])
p("C03", "Exchanges between processes never rely on MPI buffering",
  "In every exchange between neighboring processes no process blocks in a send, or in completing a send, before it has done its share of receiving: blocking sends are not used towards a process that may be doing the same, receives are posted or served before a process waits for its own sends. A process also never blocks on a receive in an exchange before it has started the sends that its neighbors are waiting for.",
  "schedules inputs configurations", "every message size and transport (eager limit), every neighbor graph",
  "Small meshes send messages below the eager limit, where a blocking send returns at once; a deadlock needs a mesh with large sides on more processes.",
  "src/CommSides.cc src/GraphTraverser.cc src/Sweeper.cc src/SweepSchedule.cc src/TychoMeshIO.cc",
  [("Irecv/Isend/Wait order", "CommSides.cc, GraphTraverser.cc sendAndRecvData"), ("non-blocking sends first", "SweepSchedule.cc, TychoMeshIO.cc, Sweeper.cc")])
p("C04", "Sender and receiver agree on the content of every message",
  "For every message the receiving code takes the message apart in exactly the way the sending code put it together: same number and order of the parts, same size and type of each, same tag, and a receive large enough for the data. Entities are always named in messages by identifiers that mean the same on both processes (global side ids or the receiver's own index obtained from it), never by the sender's local index.",
  "inputs configurations programs", "every mesh partition, group count and angle count",
  "Whether pack and unpack agree is visible to a test only for the group counts, angle counts and partitions it runs; with symmetric partitions local and global ids coincide.",
  "src/CommSides.cc src/GraphTraverser.cc src/Sweeper.cc src/SweepSchedule.cc src/TychoMeshIO.cc src/Comm.cc",
  [("packets", "createPacket/splitPacket in GraphTraverser.cc, CommSides.cc"), ("strided int vectors", "SweepSchedule.cc")])
p("C05", "Threads never race on shared data",
  "Inside every parallel region, data that one thread writes is touched by no other thread without synchronization: it is private to the thread, indexed by the thread's own number, by the thread's own iteration, or by an angle of the thread's own angle group, or the access is atomic or in a critical section. This holds for every number of threads and angles and for the whole code called from the region.",
  "schedules configurations", "every thread schedule, thread count, angle count",
  "A race shows only under particular timing; the tests run 3 threads on few angles and compare with a tolerance.",
  "src/GraphTraverser.cc src/Sweeper.cc src/SweepData.hh src/Util.cc src/Priorities.cc src/SweeperSchur.cc src/SweeperPBJ.cc src/Transport.cc src/Main.cc",
  [("per-angle-group queues and buffers", "GraphTraverser::traverse"), ("per-thread work arrays", "SweepData.hh, Sweeper.cc"), ("omp critical/atomic", "Priorities.cc, Sweeper.cc")])
p("C06", "MPI is only called from threads as the thread level allows",
  "The thread support level that the program requests and checks at start-up covers every way in which it calls MPI: inside a parallel region, MPI is called by at most one thread at a time (a single designated thread, a critical section, or the communication token), and then at least serialized support is requested and its being granted is checked.",
  "schedules configurations", "every thread schedule and thread count",
  "Open MPI tolerates most violations; whether two threads are in MPI at once depends on timing.",
  "src/Main.cc src/Sweeper.cc src/GraphTraverser.cc src/Comm.cc",
  [("MPI_Init_thread level", "Main.cc"), ("commNumber token", "Sweeper.cc")])
p("C07", "No failed or short file or MPI operation goes unnoticed",
  "Every MPI operation and every file operation that can fail (opening, reading, writing, positioning, closing) has its result checked, and a failure or a short read or write ends the program with an error instead of going on with the data; this also holds in builds without debug assertions (starting and ending MPI, and closing a file after only reading it, excepted). A mesh or output file that is truncated, missing or cannot be written is therefore never silently accepted.",
  "fault_sequences inputs", "every failing call, every truncation point, both assertion settings",
  "The tests inject no I/O faults and use only intact files.",
  "src/Comm.cc src/ParallelMesh.cc src/SerialMesh.cc src/PsiData.cc src/GraphTraverser.cc src/CommSides.cc src/TychoMeshIO.cc src/KeyValueReader.cc src/Main.cc",
  [("Insist on results", "Comm.cc"), ("fileRead/fileWrite helpers", "ParallelMesh.cc, SerialMesh.cc")])
p("C08", "Mesh files are read back exactly as they are written",
  "For each mesh format the readers (serial reader, parallel-mesh reader, per-partition parallel reader) consume exactly the sequence of fields that the writer produces: same order, same element types and counts for header, partition table, cells, faces and nodes. The byte offsets stored in the partition table of a parallel mesh are the positions at which the writer puts each partition, whatever the sizes of the partitions.",
  "inputs configurations", "every mesh size and number of partitions",
  "The tests exercise one mesh with up to 4 partitions and only the fields that influence the flux; a wrong offset or field for other sizes is not visible there.",
  "src/ParallelMesh.cc src/ParallelMesh.hh src/SerialMesh.cc src/SerialMesh.hh",
  [("write/read pairs", "ParallelMesh.cc, SerialMesh.cc"), ("bytesOffset computation", "ParallelMesh::createFromSerialMesh")])
p("C09", "Files that are not a matching mesh are rejected before use",
  "A reader accepts a mesh file only if its format name and version are those of this program, and the transport code only if the number of partitions equals the number of processes. These checks happen before any count, offset or mesh data taken from the file is used, and failing one of them ends the program with an error in every build.",
  "inputs configurations", "every file content and process count, both assertion settings",
  "No test reads a wrong file or runs with a mismatching process count.",
  "src/ParallelMesh.cc src/SerialMesh.cc src/TychoMeshIO.cc",
  [("name and version checks", "ParallelMesh::read/readInParallel, SerialMesh::read"), ("partition count check", "ParallelMesh::readInParallel")])
p("C10", "The output file has one well-defined global layout",
  "The angular flux file is a fixed-size header (written once, by one process, holding the global problem dimensions) followed by the flux of every cell at a position given only by the cell's global number, with all values of a cell in one contiguous block of fixed size. Blocks of different cells never overlap each other or the header and leave no gap, so the file does not depend on the partition or the number of processes.",
  "inputs configurations", "every partition, process count, group and angle count",
  "The tests compare the file for one set of dimensions and a few partitions of one mesh.",
  "src/PsiData.cc src/Comm.cc", [("writeToFile", "PsiData::writeToFile"), ("Comm::writeDoublesAt", "Comm.cc")])
p("C11", "Invalid input decks are rejected",
  "Every option that the program needs must be present in the deck and be a well-formed value of its kind in its documented range (for example an even quadrature order from 2 to 30, ordering heuristics 0-4 and 0-2, at least one energy group); a missing key, a malformed number, a duplicate or badly formed line, or a value out of range ends the program with an error message before any computation. No value is silently truncated, defaulted or taken from another key.",
  "inputs", "every deck text", "The regression decks are all valid.",
  "src/KeyValueReader.cc src/Main.cc src/Quadrature.cc", [("parser", "KeyValueReader.cc"), ("range checks", "Main.cc readInput")])
p("C12", "Each named option selects exactly its documented algorithm",
  "For every option with named values (sweep type, MPI type, Gaussian elimination variant, source iteration switches) each documented name selects its own algorithm, distinct names select distinct algorithms, and any other text ends the program with an error. A selected value is dispatched to its implementation everywhere it is consulted, with no value falling through to another one's code.",
  "inputs configurations", "every documented and undocumented value of every named option",
  "Algorithms give the same flux, so the tests cannot tell which one ran; unknown names are not tested.",
  "src/Main.cc src/Global.hh src/Transport.cc src/GraphTraverser.cc src/Sweeper.cc src/Problem.cc",
  [("enum parsing", "Main.cc"), ("dispatch switches", "Transport.cc, GraphTraverser.cc, Main.cc")])
p("C13", "Graph traversal computes each cell-angle pair once, upwind first",
  "In the dynamic graph traversal every (cell, direction) pair becomes ready exactly when the last of the faces it waits for has delivered (from a finished neighbor cell or a received message), is queued once, for the thread that owns its direction, and is computed once. Each finished pair notifies exactly the downwind neighbors that count on it, locally or by one packet per face shared with another process, in the forward and backward directions and with and without communication between processes.",
  "schedules inputs configurations", "every partition, message arrival order, thread count, direction and step limit",
  "The order of arrivals and the set of waiting faces depend on timing and the partition; the tests see a few.",
  "src/GraphTraverser.cc src/TraverseData.hh src/Priorities.cc src/SweepData.hh",
  [("initial dependency counts", "GraphTraverser constructor"), ("decrement and push", "GraphTraverser::traverse")],
  [("numDependencies", "number of faces still awaited per (angle, cell)", "GraphTraverser::traverse")])
p("C14", "The precomputed sweep schedule covers all work in upwind order",
  "Every direction belongs to exactly one angle group. The schedule of a group records every (cell, direction) pair of the group in exactly one step: after all its upwind neighbors in the same process (in an earlier step or earlier in the same one) and after a step in which the data of its upwind neighbors in other processes arrived. For every step it lists exactly the processes that sides of the finished cells are sent to and those that sides are received from. The sweep computes all entries of all steps in this order. Faces whose product is within a small tolerance of zero may be left out, on both sides.",
  "inputs configurations", "every mesh, partition, angle group count, maximum cells per step",
  "The tests build schedules for one mesh and a few partitions.",
  "src/SweepSchedule.cc src/Sweeper.cc src/Priorities.cc", [("schedule construction", "SweepSchedule.cc")])
p("C15", "Both sides of a face agree on which is upwind",
  "For every direction and face the decision whether flux enters or leaves is derived from the sign of the product of direction and outward normal, such that a face is never both incoming and outgoing for a cell, and incoming on one side exactly when it is outgoing on the other, also when the product is zero. All parts of the program (dependency counts, schedules, boundary exchange, local solves) use this same classification, or one that leaves out faces within a tolerance of zero in the same way on both sides, so no part waits for data that no other part sends.",
  "inputs", "every direction and normal, including faces parallel to a direction",
  "The test mesh has no face exactly parallel to a quadrature direction.",
  "src/TychoMesh.hh src/TychoMesh.cc src/GraphTraverser.cc src/CommSides.cc src/SweepSchedule.cc src/Transport.cc src/Priorities.cc",
  [("isIncoming/isOutgoing", "TychoMesh.hh"), ("getOmegaDotN", "TychoMesh.hh")])
p("C16", "Solver vectors are packed and unpacked the same way",
  "The Krylov solvers work on flat vectors: the size announced for the vector, the code that copies data into it and the code that copies data out of it enumerate the same entries in the same order under the same conditions, on every process. No entry is shared by two unknowns, left unset or lost in a round trip.",
  "inputs configurations", "every mesh, partition, group count, angle count",
  "The tests run one group and angle count; a mismatch confined to particular faces or counts changes only convergence.",
  "src/SweeperSchur.cc src/SourceIteration.cc src/KrylovSolver.cc", [("psiBoundToVec/vecToPsiBound/getPsiBoundSize", "SweeperSchur.cc"), ("fixed point/Krylov vectors", "SourceIteration.cc")])
p("C17", "Every array element has its own place inside its array",
  "Each multi-dimensional container (angular flux, boundary flux, scalar flux, matrices) maps distinct in-range index tuples to distinct elements inside its storage, with the extents it was created with, and every use passes indices of the kind the container was declared for (group, vertex, angle, cell, side, face) in the declared order and within range.",
  "inputs configurations programs", "every combination of extents",
  "With the tests' extents (few groups, equal counts) swapped indices or strides can coincide or stay inside the allocation.",
  "src/PsiData.hh src/Mat.hh src/PsiData.cc src/TychoMesh.hh", [("index functions", "PsiData.hh, Mat.hh")])
p("C18", "Iterations stop exactly on convergence or at their limit",
  "Every iterative solver stops when its global error (reduced over all processes) is at or below the requested tolerance or when the requested maximum number of iterations has been done, whichever comes first, and never because of a value local to one process. The error is measured between the two latest iterates, and boundary data from other processes is exchanged before the next iteration uses it.",
  "inputs configurations histories", "every deck limit and tolerance, every convergence history",
  "The tests' limits are never reached and convergence histories are few.",
  "src/SourceIteration.cc src/SweeperPBJ.cc src/SweeperSchur.cc src/KrylovSolver.cc", [("iteration loops", "SourceIteration.cc, SweeperPBJ.cc")])
p("C19", "Timing never influences results",
  "Measured times are only ever reported: no timer value or clock reading flows into computed data, files other than reports, control of the computation, or the choice of what is communicated.",
  "schedules programs", "every timing", "Timing dependent results cannot be reproduced by a test.",
  "src/Timer.hh src/GraphTraverser.cc src/Sweeper.cc src/SourceIteration.cc src/Main.cc src/SweeperPBJ.cc src/SweeperSchur.cc", [("Timer", "Timer.hh")])
p("C20", "Debug assertions never change what the program does",
  "The conditions of debug assertions have no side effects and compute nothing that the rest of the program needs, so a build without them behaves like a build with them on every input for which the assertions hold. An error in a value read from an input file, the deck or the environment is not left to a debug assertion alone.",
  "configurations programs", "both assertion settings",
  "The tests run only with assertions on.", "src/Assert.hh src/Assert.cc src", [("Assert/Insist macros", "Assert.hh")])
p("C21", "Quadrature tables are correct for every order",
  "For every supported order the nodes and weights are those of the Gauss-Legendre/Chebyshev product rule: nodes are the roots of the Legendre polynomial of that order, weights are the matching positive Gauss weights, all eight octants are covered by reflection, directions have unit length and the weights of all directions sum to 4 pi.",
  "configurations", "all even orders 2 to 30", "The tests use one order.",
  "src/Quadrature.cc src/Quadrature.hh", [("tables", "Quadrature.cc")])
p("C22", "Acquired resources are released exactly once on every path",
  "Every file, borrowed solver array and solver object that is acquired is released exactly once, after its last use and before its owner goes away, on every path that does not end the program; nothing is used after its release.",
  "inputs configurations histories", "every path and repeated solve", "Leaks and reuse do not change the tests' results.",
  "src/KrylovSolver.cc src/KrylovSolver.hh src/SourceIteration.cc src/SweeperSchur.cc src/ParallelMesh.cc src/SerialMesh.cc src/PsiData.cc", [("create/destroy, get/release", "KrylovSolver.cc")])
p("C23", "A detected error ends the whole job with a failure status",
  "When the program detects an error it prints a message and ends all processes of the job with a failing exit status; no detected error is only printed, is turned into a normal return that lets the run continue, or ends one process while the others go on waiting.",
  "fault_sequences inputs configurations", "every error path", "The tests take no error path.",
  "src/Assert.cc src/Assert.hh src/Main.cc src/KeyValueReader.cc", [("my_insist/my_assert", "Assert.cc")])
p("C24", "Sizes, offsets and global ids keep 64 bits",
  "File offsets, global cell and side numbers, and counts whose size grows with the whole mesh or with cells x angles x groups are computed and stored in 64-bit integers end to end: no intermediate value, variable, table or message field narrows them (the integer types that the interfaces of MPI, METIS and PETSc prescribe for their own arguments are the only exception). A mesh or output larger than 2^31 elements or bytes is therefore handled like a small one.",
  "inputs configurations", "every mesh size that fits in memory of the machine",
  "Large meshes cannot be tested in seconds.", "src/PsiData.cc src/PsiData.hh src/ParallelMesh.cc src/SerialMesh.cc src/Comm.cc src/Mat.hh util", [("UINT = uint64_t", "Typedef.hh"), ("offset arithmetic", "PsiData.cc, ParallelMesh.cc")])
p("C25", "Partitioning assigns each cell to one partition and links neighbors",
  "Converting a serial mesh to a parallel mesh puts every cell in exactly one partition, keeps its global identity, gives every face and node a consistent local index in each partition that holds it, and records for each face on a partition border the rank on the other side. The partitioners assign every cell a partition number in range for every mesh size and partition count.",
  "inputs configurations", "every serial mesh, partition count and assignment",
  "The tests partition one mesh in columns.", "src/ParallelMesh.cc util/PartitionColumns.cc util/PartitionMetis.cc", [("createFromSerialMesh", "ParallelMesh.cc"), ("splitIntoChunks", "PartitionColumns.cc")])
p("C26", "Mesh refinement tiles every cell conformingly",
  "Refining a tetrahedron yields child tetrahedra that exactly fill it without overlap, each child uses four distinct vertices, and the pieces into which a face is cut are the same on both sides of the face, with every new node at the midpoint of its edge and shared by all cells at that edge.",
  "inputs", "every mesh, every ordering of a cell's vertices", "No test runs the refinement utility.",
  "util/RefineSerialMesh.cc", [("refineTet table", "RefineSerialMesh.cc")])
p("C27", "Every local solver variant solves the cell's linear system",
  "For every nonsingular small linear system and right hand side, each of the selectable elimination variants returns the solution of that same system: in exact arithmetic all variants are the same function of matrix and right hand side.",
  "inputs configurations", "all 4x4 systems in exact arithmetic", "The tests sample the systems of one mesh and compare with a tolerance.",
  "src/Transport.cc", [("gaussElim4, cramer variants", "Transport.cc")])
p("C28", "Scalar flux and sources are sums over exactly all their terms",
  "The scalar flux of every group, vertex and cell is the quadrature-weighted sum of the angular flux over all directions, and the total source is the external source plus the isotropic scattering term of the same group, vertex and cell, for all directions; each is computed afresh from the current flux with no term missed or counted twice, whatever the number of threads.",
  "inputs configurations schedules", "every flux, extents, thread count", "Tests sample one problem and tolerance.",
  "src/Util.cc src/SourceIteration.cc", [("psiToPhi, calcTotalSource", "Util.cc")])
p("C29", "The connectivity of the mesh is consistent",
  "Every query of the mesh returns the quantity it names for the cell, face, vertex or side asked for. The adjacent cell and adjacent face of a face that two cells of a process share lead to the other cell and back; faces on the boundary of the mesh or of the process have no adjacent cell but exactly one side, numbered without gaps, whose cell and global number are those of the face; the adjacent rank is the process on the other side; local face i of a cell is the one opposite vertex i; the vertex numbers of face and cell are inverse to each other and both cells of a face agree on the vertices; materials, nodes, coordinates and global numbers are those of the mesh file.",
  "inputs configurations", "every mesh and partition", "The tests use one mesh and cannot see a wrong neighbor that the solution hides.",
  "src/TychoMesh.hh src/TychoMesh.cc src/TychoMeshIO.cc", [("readTychoMesh", "TychoMeshIO.cc"), ("queries", "TychoMesh.hh")])
p("C30", "Volumes, areas and normals are those of the cells",
  "For every mesh: the volume of a cell is a sixth of the absolute determinant of its edge vectors, the area of a face is half the length of the cross product of two of its edges, and the product stored for direction, cell and face is the scalar product of that direction with the unit normal of that face that points out of the cell, whatever the order of the vertices, the orientation or the size of the cell.",
  "inputs", "every mesh, in exact arithmetic", "The tests use one mesh; orientation and scale of the cells vary between meshes.",
  "src/TychoMesh.cc", [("getTetVolume, getTriangleArea, getNormal, constructor", "TychoMesh.cc")])

# ------------------------------------------------- not decided statically
p("C40", "The numerical solution is accurate",
  "The computed flux approximates the solution of the transport equation to the order of the discretization.",
  "inputs", "every mesh and problem", "Tests compare one problem to a stored result.", "src/Transport.cc src/Problem.cc", [("discretization", "Transport.cc")])
p("C41", "Iterative solvers converge",
  "For every physical problem with scattering ratio below one, each solver reaches the requested tolerance.",
  "inputs configurations", "every problem", "Tests run one problem.", "src/SourceIteration.cc src/SweeperPBJ.cc src/SweeperSchur.cc", [("iterations", "SourceIteration.cc")])
p("C42", "Sweep types and process counts give the same flux",
  "All sweep types, process counts and thread counts produce the same flux up to the iteration tolerance.",
  "schedules configurations", "all modes and counts", "Tests sample some.", "src", [("sweepers", "src/Sweeper*.cc")])
p("C43", "Every sweep terminates",
  "On every mesh whose direction graphs are acyclic, every sweep finishes under every fair schedule.",
  "schedules inputs", "all schedules", "Tests see a few schedules.", "src/GraphTraverser.cc src/Sweeper.cc", [("communication protocol", "GraphTraverser.cc")])
p("C44", "Partitions are balanced and priorities speed up the sweep",
  "Partition sizes are balanced and priority heuristics reduce idle time.",
  "inputs", "all meshes", "Performance.", "util/PartitionMetis.cc src/Priorities.cc", [("METIS call", "PartitionMetis.cc")])
p("C45", "The reported solution error is the true L2 error",
  "For the manufactured source, the printed error equals the L2 norm of the difference between computed and exact flux.",
  "inputs", "all problems", "Not checked by tests.", "src/Problem.cc src/Util.cc", [("hatL2Error", "Problem.cc")])
