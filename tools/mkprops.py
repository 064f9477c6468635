import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    m,_,o=mech.partition('; observed ')
    a={"files":["src/repast4py/"+f for f in files],"mechanism":[{"name":m,"where":", ".join("src/repast4py/"+f for f in files)}],"observe_at":["observed "+o],"hook_needed":None}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S='schedules';I='inputs';H='histories';C='configurations';PR='programs'
p("C01","Events within a tick run in priority order",
 "Within one tick, every FIRST event runs before every BY_PRIORITY and RANDOM event, and every LAST event after them; FIRST and LAST events run in the order they were scheduled, and BY_PRIORITY events run in ascending order of their priority value. Events that an executing event adds to the current tick take their place by the same rules among the events of that tick that have not yet run. RANDOM events run exactly once somewhere between the FIRST and the LAST events, in an order determined by the seeded generator.",
 [S,PR],"all sets of events (types, priorities, ties) at all ticks, including events added by executing events",
 "The tests run a handful of fixed event sets; ordering must hold for every mixture of priority types, ties and in-tick additions.",
 ["schedule.py"],"ScheduleGroup orders four lists and merges the random events; an in-tick addition interrupts execution and re-sorts; observed as the sequence of executed callables")
p("C02","Every scheduled event runs exactly at its times",
 "Ticks execute in ascending order; a one-time event runs exactly once at its tick, and a repeating event runs at its start tick and then once every interval, for as long as the schedule runs. A voided event never runs again, an event scheduled before the current tick is ignored, and a stop lets the rest of the stop tick's events run, runs nothing later, and then each end event runs exactly once.",
 [S,PR],"all programs of one-time, repeating, stop, end and void operations, made before the run and from within executing events, with integer and fractional ticks and intervals",
 "Tests use a few hand-written programs; dynamic scheduling, voiding from inside events and coinciding repeat times form an unbounded space of histories.",
 ["schedule.py"],"heap queue keyed by (tick, insertion index); events reschedule themselves; runner loop with stop flag and end events; observed as the trace (tick, event)")
p("C03","Ranks execute one shared timeline",
 "In a multi-process run, the ticks executed form one global ascending sequence, in which each rank executes exactly its own events: no rank executes a tick while another rank still has an event for an earlier tick. All ranks end the run after the same tick when they all schedule a stop at that tick, and every rank terminates and runs its end events once.",
 [S,C],"all assignments of events (one-time, repeating, dynamically added) to 1..N ranks with a common stop tick",
 "The tests exercise the shared runner on one rank or with identical schedules on all ranks; rank-dependent schedules are not sampled.",
 ["schedule.py"],"runner takes the global minimum of the next ticks and executes only where it is the local next tick; observed as per-rank traces with a collective inside the events and as termination")
p("C04","A restored schedule continues as the original would",
 "Saving the schedule and random state between ticks, pickling, and restoring both in a fresh runner yields a schedule whose continuation executes the same events at the same ticks in the same order as the uninterrupted run, including repeats, stops when restored, and end events. Voided events are not restored, events refused by the event creator are dropped without disturbing the others, and events carrying another tag are restored only by a call asking for that tag. A checkpoint can be restored from more than once.",
 [S,'crash_points',PR],"all schedules and all checkpoint ticks",
 "Tests checkpoint a few fixed schedules at one tick; every point of every schedule is a possible checkpoint.",
 ["checkpoint.py","schedule.py","random.py"],"queue entries are saved with their order index and re-pushed with it; observed by comparing the executed traces")
p("C05","Checkpointed agents, random state and values survive",
 "Agents saved in a checkpoint that is pickled and unpickled are restored with the same ids, types, ranks and state, in the order saved. The restored random generator continues the exact stream of draws and reports the saved seed. Arbitrary saved values come back equal under their key.",
 [I,H],"all agent populations and states, all generator states, all picklable values",
 "Tests sample one population and one generator position.",
 ["checkpoint.py","random.py"],"agent save tuples, bit generator state and a key-value store; observed through the restored objects")
p("C06","Checkpointed spaces put every agent back",
 "Saving a grid or continuous space and restoring it into a fresh space of the same bounds, border and occupancy type puts every agent at exactly the location it had, on every rank. Agent and location lookups in the restored space agree with the original, however often the checkpoint is restored from.",
 [H,C],"all populations and locations in 1-D, 2-D and 3-D grids and 2-D and 3-D continuous spaces on 1..N ranks",
 "Tests restore one small population in one configuration.",
 ["checkpoint.py","space.py"],"locations are saved per agent id and re-applied by moving; observed through location queries")
p("C07","Checkpointed networks are restored completely",
 "Saving a directed or undirected network on every rank and restoring it into a fresh context holding the restored agents reproduces on every rank exactly the same edges, with the same attributes, including edges that cross ranks in either direction. After restoring, the restored network stays coherent across ranks under synchronization.",
 [I,C],"all multi-rank graphs with attributes, directed and undirected",
 "Tests restore one fixed network; edge direction relative to rank ownership and shared neighbours vary.",
 ["checkpoint.py","network.py"],"per-node neighbour lists saved, remote neighbours requested as ghosts, edges re-added; observed as the edge sets on every rank")
p("C08","A context's agent collections always agree",
 "At every point, iterating a context's agents, its total and per-type sizes, its type test and its id lookup describe the same set of local agents: those added and not yet removed, in insertion order. A type restriction selects exactly the agents of that type, a count returns that many of them, and shuffling returns a permutation fixed by the random seed. Adding or removing an agent adds or removes it in every projection, and projections added later contain the agents already present.",
 [H],"all histories of adding, removing and projection-adding over several agent types",
 "Tests check a few adds and removes; consistency must hold after every history.",
 ["context.py","core.py"],"one ordered map of local agents plus one per type; observed through the public queries")
p("C09","Agents are never lost, duplicated or misplaced",
 "Across all ranks, after every synchronization each agent that was added and not removed is local on exactly one rank with its original id and current state, and no other agent is local anywhere. In a model with a shared grid or continuous space, the rank on which an agent is local is the one whose local bounds contain its location, and that location is the one it last moved to. Explicitly moving agents to another rank makes them local there and only there.",
 [H,C],"all histories of adds, removes, moves (including across several ranks and periodic borders), explicit rank moves and synchronizations on 1..N ranks and all space configurations",
 "Tests move a few agents between fixed ranks once.",
 ["context.py","core.py","space.py","distributed_space.h"],"out-of-bounds agents are collected per projection, sent to the owner and recreated; observed as the set of local agents on every rank")
p("C10","Buffers mirror the neighbouring areas exactly",
 "After every synchronization, a rank sees in its shared grid or continuous space, besides its local agents, exactly those remote agents whose location lies within the buffer size of its own local bounds (with wrap-around for periodic borders), at their current location and with their current state. Agents that have left the buffered area or were removed no longer appear.",
 [H,C],"all populations and movement histories, 1-D to 3-D grids, 2-D and 3-D continuous spaces, both border types, all rank counts and buffer sizes not larger than the local extents",
 "Tests check fixed points on 9 or 18 ranks; corner areas, two-process periodic dimensions and repeated synchronization vary.",
 ["space.py","distributed_space.cpp","distributed_space.h"],"each rank sends the agents in computed border slabs to each neighbour; observed through the agents found at locations on each rank")
p("C11","Ghosts always reflect their owners",
 "After every synchronization, each ghost agent on a rank, whether it is there through a buffer, an edge or a request, carries the state its original has on the rank where it is local. When an agent is removed, after the next synchronization it is gone from every rank, as local agent, as ghost and from every projection.",
 [H,C],"all histories of state changes, requests, removals and rank moves on 1..N ranks",
 "Tests update a few ghosts in fixed configurations.",
 ["context.py","core.py","network.py"],"owner tracks the ranks holding ghosts with reference counts and sends state updates and removals; observed by comparing ghost state with owner state on all ranks")
p("C12","Grid locations are exact",
 "An agent moved in a grid is located at the border-transformed target; looking up that location returns it, and every location query reflects exactly the agents there (in arrival order) and no others. In a single-occupancy grid a move to an occupied cell is refused and changes nothing; a removed agent is nowhere, and moving an agent that is not in the grid is an error.",
 [H,C],"all histories of adds, moves and removals in 1-D to 3-D grids, both occupancies, both borders, any bounds, local and shared",
 "Tests sample a few moves.",
 ["grid.h","space.h","occupancy.h","borders.h","spacemodule.cpp"],"map from agent to point and map from point to agents kept in step; observed through the query methods")
p("C13","Continuous space locations are exact",
 "An agent moved in a continuous space is located at the border-transformed target; looking up that location returns it, and every location query reflects exactly the agents there (in arrival order) and no others. With single occupancy a move to an occupied point is refused and changes nothing; a removed agent is nowhere, and moving an agent that is not in the space is an error.",
 [H,C],"all histories of adds, moves and removals in 2-D and 3-D continuous spaces, both occupancies, both borders, any bounds, local and shared",
 "Tests sample a few moves.",
 ["cspace.h","space.h","occupancy.h","borders.h","spacemodule.cpp"],"map from agent to point and map from point to agents kept in step; observed through the query methods")
p("C14","Box queries return exactly the agents inside",
 "After any history of moves and removals, querying a continuous space for the agents within a box returns each located agent whose point lies in the box (lower bounds included, upper excluded) exactly once and no other agent. The answer does not depend on the index's split threshold.",
 [H,C],"all histories, including many agents at one point, points on split planes and bounds, and all thresholds and query boxes",
 "Tests query a few static populations; the index must stay right under every history of splits, shared points and removals.",
 ["SpatialTree.h","SpatialTree.cpp","cspace.h"],"quad or oct tree of points with counts, resolved through the location map; observed by comparison with a brute-force filter")
p("C15","Rank areas partition the world",
 "For any bounds, dimension and number of ranks, the local bounds of the ranks are disjoint, cover the global bounds exactly, and differ in extent by at most one per dimension. Shared grids, continuous spaces, value layers and topologies with the same bounds and ranks agree on the decomposition, and random local points lie in the local bounds.",
 [C],"all bounds (any origin and extents not smaller than the process grid), 1-D to 3-D, both border types, all rank counts",
 "Tests use a few sizes, mostly divisible.",
 ["distributed_space.cpp","spacemodule.cpp","space.py","value_layer.py"],"cartesian process topology with remainders spread over the first ranks; observed as local bounds on each rank")
p("C16","Border rules map every point into bounds",
 "Sticky borders clamp each coordinate to the nearest coordinate within bounds, periodic borders shift it by a whole number of extents into the bounds, and both leave points within bounds unchanged.",
 [I,C],"all points, near and far, and all bounds",
 "Tests transform a few points.",
 ["borders.h","spacemodule.cpp"],"clamping and modulo transforms; observed through the border objects and through moves in grids and spaces")
p("C17","Neighbourhood functions return exactly the adjacent cells",
 "For a cell in bounds, the neighbourhood functions return the cell and its adjacent cells (Moore neighbourhood, in their documented scan order, x fastest): those within bounds for sticky borders, wrapped for periodic borders. The array ordering option only reverses the coordinate rows.",
 [I,C],"all cells and bounds in 1-D, 2-D and 3-D",
 "Tests sample a few cells.",
 ["geometry.py"],"offset tables, masks and modulo in compiled kernels; observed as the returned arrays")
p("C18","Network edits are reflected exactly",
 "On one rank, after any history of adding, updating and removing edges and agents, the network contains exactly the agents added and not removed and the edges added and not removed (nor incident to a removed agent), with the latest attributes. Membership tests, per-agent edge counts, total counts and iteration agree; an undirected edge is one edge in either orientation, a directed edge is distinct from its reverse.",
 [H],"all edit histories, directed and undirected",
 "Tests apply a few edits.",
 ["network.py"],"networkx graph plus edge keys; observed through the network's queries")
p("C19","Networks stay coherent across ranks",
 "After every synchronization, for each rank, every edge of the global network that touches an agent local to that rank is present there with its current attributes, and no edge touching a local agent is present that is not in the global network. This holds across edges added, updated and removed from either end, agents removed, and agents moved between ranks.",
 [H,C],"all histories of edge and agent operations and rank moves on 1..N ranks, directed and undirected",
 "Tests script fixed scenarios on 2-4 ranks.",
 ["network.py","context.py","core.py"],"cross-rank edges are recorded per rank and exchanged at synchronization; observed as edge sets on every rank")
p("C20","Network files round-trip",
 "A network description written from a graph and read back on the number of ranks it was partitioned for yields, over all ranks, exactly the graph's nodes, on the assigned ranks with their types and attributes, and exactly its edges with their attributes and direction, each visible on the ranks of both endpoints. Every node is assigned to exactly one valid rank, and the random partition gives no rank more than ceil(nodes / ranks) nodes. Writing a graph does not change it; an invalid agent type or partition method is refused.",
 [I,C],"all graphs with JSON-representable attributes, directed and undirected, all rank counts",
 "Tests read one sample file and write one graph.",
 ["network.py"],"line format with optional JSON dictionaries; observed as the context and network on each rank")
p("C21","Value layers store and return what was set",
 "A value layer returns at each location the last value set there, or the initial value, under the border rule for locations out of bounds; setting one location changes no other. The neighbourhood query returns the values of exactly the cells its companion coordinates name.",
 [H,C],"all set and get histories, bounds, borders, dimensions and element types",
 "Tests set a few cells.",
 ["value_layer.py","geometry.py"],"a tensor addressed by translated coordinates; observed through get, set and neighbourhood queries")
p("C22","Shared value layers mirror neighbouring cells",
 "After synchronization, reading any cell in a rank's local bounds or within the buffer distance of them gives on that rank the value the owning rank last set, with wrap-around for periodic borders. Neighbourhood queries at local cells return the globally correct values, and synchronizing changes no local cell.",
 [H,C],"all write histories in 1-D and 2-D shared layers, both borders, all rank counts and buffer sizes not larger than the local extents",
 "Tests check fixed layouts; each process-grid shape uses different halo slices.",
 ["value_layer.py","distributed_space.cpp"],"halo slices exchanged all-to-all; observed through reads on each rank")
p("C23","Read-write layers isolate writes until swapped",
 "Writes to a read-write value layer are invisible to its reads until the layers are swapped, and swapping exactly exchanges the two layers. Synchronizing a context holding one refreshes the buffers of both layers, and neighbourhood queries answer from the read layer.",
 [H,C],"all histories of sets, gets, swaps and synchronizations",
 "Tests do not exercise neighbourhood queries or synchronization of such layers through a context.",
 ["value_layer.py","context.py"],"two shared layers swapped by reference; observed through reads")
p("C24","Reduced logs equal the true reductions",
 "The file of a reducing data set has a header and one row per logged tick, in order, whose values are the reductions over all ranks of the values the sources had when that tick was logged. The contents do not depend on the buffer size or on when writes happen, and closing leaves nothing unwritten. A logger that is reduced directly returns the reductions of what it logged since the last reduction, in an array that later logging does not change.",
 [H,C],"all logging histories, operations, types, buffer sizes and rank counts, including more rows than any internal array holds",
 "Tests log a few dozen rows with one buffer size.",
 ["logging.py"],"per-source arrays reduced to rank 0 on write; observed as the file contents")
p("C25","Tabular logs keep every row of every rank",
 "The file of a tabular logger holds one header and then, for each write, every row logged since the previous write, grouped by rank in rank order and in logging order within a rank, and nothing else. Parsing the file with the same delimiter gives back the logged values.",
 [H,C],"all rows (strings with delimiters, quotes and newlines; numbers), write schedules and rank counts",
 "Tests log simple rows.",
 ["logging.py"],"rows gathered to rank 0 and appended as CSV; observed by parsing the file")
p("C26","Output never overwrites an existing file",
 "Creating a logger or a parameter dump for a path that exists leaves the existing files untouched and writes to a new name with the same directory, stem prefix and suffix and the first free number. The name is the given one when it is free, and missing parent directories are created by loggers.",
 [I,H],"all sets of pre-existing files and path forms",
 "Tests create one colliding file.",
 ["util.py","logging.py","parameters.py"],"probing for a free numbered name; observed as the directory contents")
p("C27","Parameter overrides and seeds take effect",
 "Initialized parameters equal the file's values overridden by the command line JSON values, the module's parameter dictionary is the returned one, and a dump file holds the same parameters. A seed among the parameters seeds the random generator exactly as initializing it directly would.",
 [I],"all parameter files and override strings",
 "Tests use one file.",
 ["parameters.py","random.py","util.py"],"YAML then JSON update; observed in the returned dictionary, the dump and generator draws")
p("C28","Seeding makes runs reproducible",
 "Initializing the random module with a seed resets all of its streams: whatever was drawn before, the same seed gives the same subsequent draws, the same shuffles of agents, the same random event order, the same random points and the same randomly initialized value layers. Different seeds give different streams and the reported seed is the one given.",
 [I,PR],"all seeds and all programs of random-consuming operations",
 "Tests compare single draws.",
 ["random.py","schedule.py","context.py","space.py","value_layer.py"],"one numpy generator and torch's seed; observed by running a program twice")
p("C29","Agent identity is stable",
 "An agent's id, type, rank of creation and unique id tuple are exactly those it was created with, on whatever rank it is or moves to; the identity attributes cannot be reassigned. Agents with distinct unique ids are distinct everywhere agents are kept, even if two of the three components coincide.",
 [I,H],"all id, type and rank values and histories",
 "Tests create a few agents.",
 ["core.h","coremodule.cpp","context.py","space.h"],"native id record with a cached tuple used as key throughout; observed through attributes and lookups")
p("C30","Native spaces never leak or free live objects",
 "Through any history of operations, agents and points held by spaces stay valid, and after an agent has been removed from all spaces, or the spaces are destroyed, nothing in them keeps it alive. Objects returned by queries remain valid after the agents are removed. Repeating a history of operations on spaces that are then destroyed takes no more memory (the communicators of shared spaces aside).",
 [H],"all operation histories on grids and continuous spaces, single and shared",
 "Tests never check object lifetimes; reference-count errors show up only under particular histories.",
 ["space.h","grid.h","cspace.h","occupancy.h","SpatialTree.h","distributed_space.h","spacemodule.cpp","coremodule.cpp"],"manual reference counting; observed through reference counts, weak references and memory checking")
p("C31","The number of ranks does not change results",
 "A model whose agents act only on their own state and location and on what lies within the buffer distance evolves identically on any number of ranks: after the same steps, the global set of agents, states, locations, edges and layer values is the same.",
 [PR,C],"all such models generated from combined spaces, networks and value layers, all rank counts",
 "The tests fix the rank count for each scenario and never compare runs with different rank counts.",
 ["context.py","space.py","network.py","value_layer.py"],"differential runs of one generated model on different rank counts; observed as the global state")
p("C32","Points are values",
 "A point has exactly the coordinates it was made with, or last reset to from coordinates, a tuple or an array (whatever the array's memory layout), and two points of one kind are equal, and not unequal, exactly when all their coordinates are. Spaces copy the points they are given: a move does not change its argument, and resetting that point, or moving the agent whose location was given, later moves nothing else.",
 [I,H],"all coordinates, array layouts and data types, and histories of resets, comparisons and moves that share points",
 "Tests reset a point from one contiguous array and never compare points for inequality or reuse them after a move.",
 ["spacemodule.cpp","space.h","grid.h","cspace.h"],"native point objects backed by arrays, and copied into an agent's location when it moves; observed through coordinates, comparisons and locations")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80
        f.write(json.dumps(x)+'\n')
print(len(P))
