import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"meaning":x,"where":files[0]} for x in state]
    if observe: a["observe_at"]=[observe]

    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Parallel runs compute the same physics as the undecomposed model",
 "An explicit dynamics run produces, at every output and for every node and element, the state (displacement, velocity, acceleration, internal force, mass, stress, deformation gradient, volume) of the undivided problem up to floating-point summation order. This holds for every way of splitting the mesh over ranks, with either communication backend, and whatever the relative speed of the ranks or the timing of message delivery.",
 ["schedules","inputs","configurations"],
 "Every hex mesh, material assignment, boundary condition set, time step setting, decomposition (including ranks lacking some blocks or node sets and nodes shared by many ranks), rank count, backend, and every legal delivery order and delay of messages.",
 "The unit tests exercise material parameters, a 3x3 inverse and a projection in one process; none runs the time integrator, let alone several ranks, and a wrong interleaving-dependent or decomposition-dependent sum shows only for particular partitions and timings.",
 ["src/integrators/explicit_time_integrator.cc","src/nimble_kokkos_model_data.cc","src/nimble.mpi.reduction.h","src/nimble.mpi.reduction.cc","src/nimble_vector_communicator.h","src/nimble_tpetra_utils.cc","src/nimble_genesis_mesh.cc","src/nimble_element.h","src/nimble_material.cc"],
 [("velocity-Verlet time step with shared-node force summation","ExplicitTimeIntegrator::Integrate; ModelData::ComputeInternalForce, ComputeLumpedMass"),
  ("sum over sharing ranks","ReductionInfo::Reduce; VectorCommunicator::VectorReduction; TpetraContainer::VectorReduction")],
 ["nodal displacement/velocity/acceleration views","lumped mass","stress and deformation gradient at integration points"],
 "per-rank Exodus result files, merged by global node and element id")

p("P02","Results do not depend on the schedule and are bitwise reproducible",
 "Re-running the same input on the same decomposition gives bit-for-bit the same results and the same success status, however the ranks are interleaved, stalled or delayed and in whatever order messages complete. No result ever depends on the contents of a buffer whose transfer has not completed.",
 ["schedules","histories"],
 "Every interleaving of ranks at communication and polling points, every delay of completion of a pending collective or message, and every choice the message layer may legally make about buffering.",
 "A test runs one schedule chosen by the operating system; the premature-read, buffer-reuse and completion-order faults this property excludes appear only under delays a fast shared-memory run never produces.",
 ["src/nimble.mpi.reduction.h","src/nimble.mpi.rank_clique_reducer.h","src/nimble_vector_communicator.h","src/nimble_tpetra_utils.cc","src/integrators/explicit_time_integrator.cc"],
 [("nonblocking all-reduce with polling completion","ReductionClique_t::asyncreduce_initialize / asyncreduce_finalize; ReductionInfo::PerformReduction")],
 ["per-clique send and receive buffers","pending requests"],
 "result files compared bit for bit between schedules")

p("P03","Replicas of a shared node never diverge",
 "At every output instant all ranks that hold a copy of the same mesh node report identical displacement, velocity, acceleration, internal force and mass for it, bit for bit. A replica never drifts from its siblings over any number of steps.",
 ["schedules","histories","configurations"],
 "Every decomposition, every step of every run, both communication backends, all delivery schedules.",
 "No unit test runs two ranks; a divergence needs a node shared by particular rank groups, boundary conditions present on only some holders, and enough steps to be visible.",
 ["src/nimble_kokkos_model_data.cc","src/nimble.mpi.reduction.h","src/nimble_tpetra_utils.cc","src/nimble_boundary_condition_manager.h","src/nimble_boundary_condition.cc"],
 [("reduction result delivered to every sharer","ReductionClique_t::UnpackGridData; TpetraContainer export/import"),
  ("boundary conditions applied on every holder of a node","BoundaryConditionManager::ApplyKinematicBC")],
 ["nodal fields of shared nodes on each rank"],
 "per-rank result files keyed by global node id")

p("P04","The shared-entity sum is exact, complete and touches nothing else",
 "Summing a nodal field over the ranks leaves each shared entry equal, on all its holders, to the sum of all holders' contributions counted exactly once, and leaves every unshared entry unchanged. This holds for scalar, two- and three-component fields (with the Tpetra back-end: scalar fields and fields of the model's dimension), for any number of successive sums, for any sharing pattern and id numbering, and identically for both communication backends.",
 ["schedules","inputs","histories","configurations"],
 "Every assignment of global ids to ranks (sparse ids, ranks with few or no shared ids, ids shared by any subset), every field width, sequences of repeated reductions, both backends, every message schedule.",
 "The repository has no test of the reduction layer; the sharing patterns that matter (many overlapping groups, groups whose discovery order differs between ranks) are combinatorial.",
 ["src/nimble.mpi.reduction.cc","src/nimble.mpi.reduction.h","src/nimble.mpi.rank_clique_reducer.h","src/nimble.mpi.reduction_utils.cc","src/nimble_vector_communicator.h","src/nimble_tpetra_utils.cc"],
 [("grouping of ids by set of sharing ranks","reduction::GenerateReductionInfo"),("sum over each group","ReductionInfo::Reduce / PerformReduction"),("export-add/import-insert backend","TpetraContainer::VectorReduction")],
 ["clique index lists","clique communicators"],
 "the reduced arrays on every rank, compared with a single-copy sum")

p("P05","No deadlock, no livelock: every run terminates under any message timing",
 "With valid inputs on every rank, every rank reaches the end of the run within a bounded number of communication steps once messages are delivered, whichever legal completion order, blocking behaviour or delay the message layer chooses. Ranks always agree on the sequence, kind, root, size and communicator of collective operations, every message sent is received, and no buffer is reused while a transfer that uses it is pending.",
 ["schedules","configurations","inputs"],
 "Every decomposition, backend, contact and output option, and every legal message-layer behaviour: eager or blocking sends, synchronising or non-synchronising collectives, arbitrarily late completion, slow ranks.",
 "Tests that happen to run with eager buffering and fast collectives cannot reveal a dependence on buffering or on accidental synchronisation.",
 ["src/nimble.cc","src/nimble.mpi.reduction.cc","src/nimble.mpi.reduction.h","src/nimble.mpi.mpicontext.h","src/nimble_contact_manager.cc","src/integrators/explicit_time_integrator.cc","src/nimble_vector_communicator.h"],
 [("matched collectives during set-up and stepping","GenerateReductionInfo; VectorCommunicator::Initialize; ContactManager::CreateContactEntities; closing barrier loop"),
  ("polling completion loop","ReductionInfo::PerformReduction")],
 None,"message-layer call history of each rank")

p("P06","Fail-stop: a run reports success only if its results are complete and right",
 "If any rank meets a failing file operation while writing results, runs out of disk space or memory, or dies, the run as a whole ends with a failure status in bounded time. A run that ends with success has written every expected output on every rank with exactly the fault-free values. (Errors that the Exodus or netCDF library does not report to its caller are outside this promise.)",
 ["fault_sequences","crash_points","schedules"],
 "Every rank, every output-side file operation and every allocation as the failing one, error kinds EIO, ENOSPC, EACCES, EMFILE, torn and failed writes and failed closes, and every schedule of the other ranks around it.",
 "No test injects a failing write, a full disk or a failing allocation; each of hundreds of operations is a distinct failure point and the surviving ranks' reaction depends on the schedule.",
 ["src/nimble.cc","src/nimble_main.cc","src/nimble_exodus_output.cc","src/nimble_utils.h","src/nimble_macros.h","src/nimble_data_manager.cc"],
 [("checked output operations","ExodusOutput::InitializeDatabase, WriteStep; ReportExodusError"),("exception to exit status","NimbleApplication::Run, ExecMain")],
 None,"exit status of each rank and the launcher, output files")

p("P07","A crash never damages output steps already completed",
 "If the processes of a run are killed at any instant, every output step that had been completed on a rank before that instant is still readable in that rank's result file with exactly the values a fault-free run writes. At most the one step being written may be missing or incomplete.",
 ["crash_points","fault_sequences","histories"],
 "Kill of any rank or all ranks before, after or in the middle (torn write) of any file operation, and at any communication step.",
 "Tests never kill the program; the crash points lie between individual writes inside one output step.",
 ["src/nimble_exodus_output.cc","src/nimble_data_manager.cc","src/integrators/explicit_time_integrator.cc"],
 [("open-append-flush-close of each output step","ExodusOutput::WriteStep"),("in-order step index","exodus_write_count_")],
 ["result file contents"],"result file after the crash")

p("P08","Re-running over the leftovers of a crashed or failed run gives clean results",
 "Starting the same input again in a directory holding whatever an earlier killed, failed or completed run left behind produces exactly the results of a run in a clean directory. Stale or damaged result files never abort the new run, leak into its output or lengthen it.",
 ["crash_points","histories","fault_sequences"],
 "Every leftover state reachable by killing or failing an earlier run (also with other output settings) at any file operation, followed by a re-run under any schedule.",
 "Tests start from clean directories; the leftover states are produced only by crashes at particular points.",
 ["src/nimble_exodus_output.cc","src/nimble_data_manager.cc","src/nimble_contact_manager.cc"],
 [("overwrite of any existing result file","ExodusOutput::InitializeDatabase")],
 ["result file contents"],"result files after the second run")

p("P09","The output history is exactly the one requested and does not disturb the run",
 "A successful run writes, on every rank, the initial state, every state the output frequency asks for and the final state, exactly once each, in increasing time order with the same time values on all ranks. Which fields and how often are written, or whether contact visualisation is on, never changes the computed trajectory.",
 ["configurations","histories","schedules"],
 "Every output frequency (including none, and larger than the run), step count, initial and final time, output field selection and decomposition.",
 "Needs comparison of whole histories between differently configured runs on several ranks; the unit tests never write output.",
 ["src/integrators/explicit_time_integrator.cc","src/nimble_exodus_output.cc","src/nimble_kokkos_model_data.cc","src/nimble_data_manager.cc"],
 [("output step selection","ExplicitTimeIntegrator::Integrate"),("field selection and write","ExodusOutputManager::SpecifyOutputFields; ModelData::WriteExodusOutput")],
 ["output step counter"],"time axis and fields of result files")

p("P10","Prescribed motion holds on every copy of every constrained node",
 "At every output instant each node of a constrained set has the prescribed velocity for that instant, and from the first step on the prescribed displacement for that instant, on every rank that holds the node; an initial velocity is what the first output shows. Unconstrained directions and nodes outside the set are never overwritten. The value prescribed by an expression of position and time is its ordinary mathematical value, with the usual precedence of signs, powers, products, sums, comparisons and conditions, whatever blanks and redundant parentheses it is written with.",
 ["configurations","inputs","schedules"],
 "Every node set (with or without distribution factors, absent from some ranks), constant or space-time expression, start time, component, decomposition and backend.",
 "No test applies a boundary condition; a mistake on one rank or one component shows only with particular sets and decompositions.",
 ["src/nimble_expression_parser.h","src/nimble_expression_parser.cc","src/nimble_boundary_condition.cc","src/nimble_boundary_condition_manager.h","src/nimble_boundary_condition_manager.cc","src/integrators/explicit_time_integrator.cc","src/nimble_genesis_mesh.cc"],
 [("application of initial and kinematic conditions","BoundaryConditionManager::ApplyInitialConditions, ApplyKinematicBC"),("node set look-up per rank","BoundaryCondition::Initialize; GenesisMesh::ReadFile")],
 None,"nodal fields in result files at set nodes")

p("P11","Mass and momentum are conserved over the whole set of ranks",
 "The nodal masses of the distinct nodes add up to density times volume; without constraints the nodal internal forces of the distinct nodes sum to zero and total linear momentum stays constant over all steps, and for rotation-invariant material angular momentum does too. Counting shared nodes once, no rank boundary creates or destroys mass, force or momentum, under any schedule and with failing or slow peers up to the instant of failure.",
 ["schedules","histories","configurations"],
 "Every mesh, material, initial velocity field, decomposition, backend, schedule and number of steps.",
 "A conservation law over the union of ranks cannot be sampled by single-process unit tests; small asymmetric errors at rank boundaries only accumulate over steps.",
 ["src/nimble_kokkos_model_data.cc","src/integrators/explicit_time_integrator.cc","src/nimble.mpi.reduction.h","src/nimble_element.h"],
 [("mass lumping and force summation","ModelData::ComputeLumpedMass, ComputeInternalForce"),("sum over sharing ranks","VectorCommunicator::VectorReduction")],
 None,"mass, velocity and force fields in result files")

p("P12","The contact surface is independent of the decomposition",
 "The union over ranks of the contact facets and contact nodes is the exterior skin of the primary and secondary blocks of the undivided mesh: each facet and each node appears exactly once globally, with unique ids, the right position and no facet along a rank boundary, and each facet faces outward. The totals reported equal those of the undivided model and the facets follow the deforming mesh. (The ids built for facets are 32 bit: the largest node id and the largest element id have to add up to less than 2^24.)",
 ["configurations","schedules","inputs"],
 "Every mesh, choice of primary and secondary blocks, decomposition (including ranks holding none of the blocks), and message schedule of the face exchange.",
 "No test builds contact entities; errors need particular partitions, such as a skin node held by a rank that owns no contact face.",
 ["src/nimble_contact_manager.cc","src/nimble_contact_manager.h","src/nimble_vector_communicator.h","src/nimble_contact_entity.h","src/nimble_genesis_mesh.cc"],
 [("skinning and removal of rank-internal faces","ContactManager::SkinBlocks, RemoveInternalSkinFaces"),("ownership of shared contact nodes","ContactManager::CreateContactEntities; VectorCommunicator::GetPartitionBoundaryNodeLocalIds")],
 ["contact entity lists"],"contact visualisation files and start-up report")

p("P13","Rank-to-rank messages and gathers deliver each payload exactly once, intact",
 "The messaging layer's send, receive, packed exchange, gather, scatter, catenation, broadcast and id-space packing operations deliver every rank's payload exactly once, unmodified and in rank order, for payloads of any and unequal length including empty ones. The outcome does not depend on message arrival order or buffering.",
 ["schedules","inputs","histories"],
 "Every rank count, payload length per rank, root, tag sequence, interleaving and buffering choice.",
 "The messaging layer has no tests; unequal and empty payloads and adverse arrival orders are exactly what ad-hoc use does not produce.",
 ["src/nimble.mpi.mpicontext.h","src/nimble.mpi.serialization.h","src/nimble.mpi.reduction_utils.cc"],
 [("point-to-point and collective wrappers","mpicontext"),("packing","serialization::pack / unpack"),("id renumbering through the root","PackIDSpace")],
 None,"values returned on each rank")

p("P14","Unreadable or cut-off input never turns into a successful run",
 "If the input deck or any rank's mesh file is missing, cannot be opened or fails while being read, or a mesh file has been cut short so that it no longer holds the entities it announces, the run ends in bounded time with a failure status on the launcher and completes no output step computed from partial input. Faults on one rank's input fail the whole run, not just that rank.",
 ["fault_sequences","inputs","schedules"],
 "Every input file, every read or open operation as the failing one, every truncation length, any rank, any schedule of the others.",
 "Tests read only intact files in the happy path.",
 ["src/nimble_parser.cc","src/nimble_genesis_mesh.cc","src/nimble_utils.h","src/nimble.cc"],
 [("checked mesh reads","GenesisMesh::ReadFile"),("deck reading loop","Parser::ReadFile"),("exception to exit status","NimbleApplication::Run")],
 None,"exit statuses and output files")

p("P15","The wall clock has no influence on results",
 "Clock jumps forwards or backwards, a stopped clock and arbitrary skew between ranks (within the range a 64-bit nanosecond clock can express) change neither the results, the number of steps or outputs, nor the success of a run. If the timing report is requested, it is written once, by one rank, whatever the clock does.",
 ["fault_sequences","schedules","configurations"],
 "Every sequence of clock readings, on every rank independently.",
 "Tests run on a well-behaved clock.",
 ["src/nimble_profiling_timer.h","src/nimble.quanta.stopwatch.h","src/nimble_timing_utils.cc","src/integrators/explicit_time_integrator.cc"],
 [("time stamps and stop-watches","quanta::stopwatch; ProfilingTimer"),("timing report","TimingInfo::BinaryWrite")],
 None,"result files and timing report")

p("P16","Implicit quasistatic solution satisfies equilibrium",
 "A quasistatic step that is accepted satisfies nodal equilibrium of the unconstrained directions to the requested relative tolerance, and a step that cannot be solved is reported as a failure.",
 ["inputs","configurations"],
 "Every mesh, material, load and solver tolerance.",
 "No test runs the solver.",
 ["src/integrators/quasistatic_time_integrator.cc","src/nimble_linear_solver.cc"],
 [("Newton loop and conjugate gradient","QuasistaticTimeIntegrator::Integrate; CGSolve")],
 None,"residual at accepted steps")
p("P17","Expressions in boundary conditions evaluate to their mathematical value",
 "Every arithmetic expression of position and time accepted in a boundary condition evaluates to its ordinary mathematical value, before and after constant folding.",
 ["inputs","programs"],
 "Every well-formed expression and every point in space and time.",
 "The unit tests do not evaluate expressions.",
 ["src/nimble_expression_parser.h","src/nimble_expression_parser.cc"],
 [("expression tree evaluation and optimisation","ExpressionParsing")],
 None,"value of the expression")
p("P18","Material response is frame indifferent and hyperelastic",
 "The large-deformation material's stress rotates with the material under superposed rigid rotation, vanishes in the undeformed state and performs no net work over a closed deformation path.",
 ["inputs"],
 "Every deformation gradient with positive determinant and every admissible parameter pair.",
 "Unit tests check parameter parsing, not the constitutive response over the space of deformations.",
 ["src/nimble_material.cc","src/nimble_utils.h"],
 [("polar decomposition and stress update","NeohookeanMaterial::GetStress; Polar_Decomp")],
 None,"stress returned for a deformation")

p("P19","The reported stable time step and its warning describe the whole model",
 "The approximate maximum stable time step that an explicit run reports is that of the whole model: the smallest over the elements of all blocks and of all ranks' parts of characteristic length over sound speed, wherever the model lies in space. The warning that the requested step exceeds it is given exactly when it does. Neither depends on how the mesh is split or on the schedule.",
 ["inputs","configurations","schedules"],
 "Every mesh, material set, position in space, decomposition and requested step, whichever rank holds the critical element.",
 "No test checks the estimate, and a test on one rank cannot see that a part's estimate is reported for the whole.",
 ["src/integrators/explicit_time_integrator.cc","src/nimble_block_base.cc","src/nimble_element.cc","src/nimble_kokkos_model_data.cc"],
 [("estimate per block","BlockBase::ComputeCriticalTimeStep; HexElement::ComputeCharacteristicLength"),("report and warning","ExplicitTimeIntegrator::Integrate")],
 None,"standard output of the run")

p("P20","A deck that cannot be honoured is refused by the whole run",
 "If the input deck holds an unknown or misspelt command, a number that is none, an unknown model, material, block, integration scheme, set, direction or condition type, an incomplete or malformed command, or asks for what several ranks cannot do, or the command line names no readable deck or asks for what the build does not have, the run ends in bounded time with a failure status on the launcher, without a memory fault and without silently doing something else. This holds when only the ranks holding the block concerned can notice, and under every schedule. (Not meant: names in the output-field list that do not exist, which are left out by design; values that are numbers but make no physical sense; and block, set or time values whose absence has a documented default.)",
 ["inputs","configurations","schedules"],
 "Every single defect of a deck, at every place it can have, on every decomposition and schedule.",
 "Tests run only correct decks; whether the ranks that see nothing wrong end too depends on the schedule.",
 ["src/nimble_parser.cc","src/nimble_boundary_condition.cc","src/nimble_boundary_condition_manager.cc","src/nimble_material_factory_base.cc","src/nimble_contact_manager.cc","src/nimble.cc"],
 [("commands and numbers","Parser::ParseKeyValue"),("conditions","BoundaryCondition::Initialize; BoundaryConditionManager::Initialize"),("materials","MaterialFactoryBase::ParseMaterialParametersString; MaterialFactory::create"),("failure of the whole run","NimbleApplication::Run")],
 None,"exit statuses and output files")

p("P21","The resources a run needs do not grow with its length",
 "The memory, open files and message-layer objects a rank holds while stepping do not grow with the number of steps, outputs, reductions or contact exchanges it has performed (apart from a record of less than 100 bytes per step with contact), whatever the schedule.",
 ["histories","schedules","configurations"],
 "Every run length, output frequency, decomposition, contact configuration and schedule.",
 "Tests run a few steps; a leak of a buffer, request, communicator or descriptor per step shows only after thousands.",
 ["src/integrators/explicit_time_integrator.cc","src/nimble_exodus_output.cc","src/nimble_data_manager.cc","src/nimble.mpi.reduction.h","src/nimble.mpi.rank_clique_reducer.h","src/nimble_contact_manager.cc"],
 [("time stepping loop","ExplicitTimeIntegrator::Integrate"),("output per step","ExodusOutput::WriteStep; DataManager::WriteOutput"),("reductions","ReductionInfo::PerformReduction")],
 None,"live memory, descriptors and communicators of each process")

p("P22","The layout of the deck is immaterial",
 "Two decks that say the same thing give the same results, bit for bit: the order of the commands (the boundary conditions among themselves excepted), blanks around and between words, comments, empty lines, a missing newline at the end, spelt-out defaults, and the notation of numbers and of switches have no influence, nor have short or interrupted reads of the deck.",
 ["inputs","fault_sequences","schedules"],
 "Every layout of every deck, every pattern of partial reads.",
 "Each test deck has one layout.",
 ["src/nimble_parser.cc","src/nimble_parser_util.h","src/nimble_boundary_condition.cc","src/nimble_material_factory_base.cc"],
 [("line reading, comments, blanks","Parser::ReadFile"),("keys and values","Parser::ParseKeyValue; BlockProperties")],
 None,"result files")

p("P23","A run reads and writes exactly the files its deck names",
 "Each rank reads its part of the mesh, and writes its part of the results, under the name the deck gives with the extension replaced and the number of ranks and the zero-padded rank appended, whatever dots, blanks or directories the name holds and however many ranks there are. Nothing else appears, and no other file - deck, mesh, results of other runs or other rank counts - is changed or removed, also when a rank fails or is killed. The contents do not depend on the names.",
 ["inputs","configurations","schedules","fault_sequences"],
 "Every file name, directory layout, number of ranks, set of neighbouring files, and failure.",
 "Tests use one plain name per deck and at most a few ranks, in a directory of their own.",
 ["src/nimble_parser.cc","src/nimble.cc","src/nimble_exodus_output.cc","src/integrators/explicit_time_integrator.cc","src/nimble_timing_utils.h"],
 [("names of parts","IOFileName"),("mesh and result files","NimbleMain"),("contact results","ExplicitTimeIntegrator::Integrate")],
 None,"contents of the working directory")
p("P24","What a run reports about itself is true and reported once",
 "Whatever the number of ranks and their timing, one rank alone prints the report of a run: the number of ranks, the number of element blocks, on one rank the numbers of nodes and elements, and the requested time step are those of the input; the times reported for parts of the run do not exceed the total; the progress starts at 0, rises strictly, counts whole steps and ends with 100 per cent exactly in runs which complete their steps. A percentage is printed only after the steps it counts have been computed and their output steps due are in the files of the rank which prints it, so that also a run which fails or is killed has not claimed more than it did. The timing data file, if asked for, holds the number of ranks and the times printed; if it cannot be written, the run says so. Apart from times, what is printed does not depend on the schedule.",
 ["crash_points","fault_sequences","schedules","configurations"],
 "Every problem, number of ranks, number of steps, output frequency, schedule, and moment of failure.",
 "Tests do not look at the report, and a claim ahead of the facts shows only when a run is interrupted.",
 ["src/nimble.cc","src/integrators/explicit_time_integrator.cc","src/nimble_genesis_mesh.cc"],
 [("report of the input","NimbleMain"),("progress and times","ExplicitTimeIntegrator::Integrate")],
 None,"standard output of the ranks")
p("P25","The shipped examples reproduce their reference results",
 "The example problems of the repository - brick with fibres, notched plates, wave in a bar, rigid body motion, simple deformation modes, single elements, contact entities - give, whatever the schedule, on one rank, on the parts shipped with them and on parts cut in any other way, with either kind of global id map, either back-end, any output frequency and any choice of the fields, also in a directory where an earlier attempt was killed, the reference results shipped with them within the shipped tolerances, for every node, element and contact entity, on every rank which holds it.",
 ["schedules","configurations","inputs","crash_points"],
 "Every example with reference results that this build supports, every decomposition of its mesh, schedule, output setting, and earlier attempt.",
 "The example runs are not among the tests this build runs (their comparison tool is not there), and each would run one decomposition under one schedule.",
 ["test","src/integrators/explicit_time_integrator.cc","src/nimble_genesis_mesh.cc","src/nimble_element.h","src/nimble_material.cc","src/nimble_contact_manager.cc","src/nimble_exodus_output.cc"],
 [("time integration over many steps","ExplicitTimeIntegrator::Integrate"),("stresses of both materials","NeohookeanMaterial, ElasticMaterial::GetStress"),("contact skin","ContactManager::CreateContactEntities")],
 None,"result files and contact visualisation files, by global id")

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
