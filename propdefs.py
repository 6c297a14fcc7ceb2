"""The texts behind properties.jsonl and MANIFEST.json (python3 gen.py writes both)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, na=na, state=state, observe=observe))


prop("C01", "Splitting, merging, packaging and cloning conserve resource quantity",
     "Extracting or packaging a part of a material or product removes exactly the requested quantity from the original and puts exactly that quantity in the new resource; absorbing moves all of one resource into another and leaves it with zero. A request for more than is held is refused with a ValueError and changes nothing (packaging part of a material tolerates an excess of at most the resource tolerance), and a request for no more than is held is never refused. Squashing resources puts all of them into one, unpackaged if it is tracked, and leaves nothing in the others. A clone has its original's quantity and is independent of it.",
     ["inputs", "histories"], "all quantities and all sequences of extract / package / absorb / clone operations on tracked and untracked materials and products",
     "Unit tests run a few fixed quantities through single operations; conservation has to hold for every quantity and every sequence, including requests a hair beyond what is held.",
     ["src/material.cc", "src/product.cc", "src/resource.h", "src/toolkit/res_manip.cc"],
     [("ExtractQty/ExtractComp/PackageExtract/Absorb/Clone", "src/material.cc"), ("Extract/PackageExtract/Absorb/Clone", "src/product.cc")])

prop("C04", "A resource buffer's books always match its contents",
     "After any sequence of pushes and pops a resource buffer (plain or bulk) reports as its quantity the sum of what it holds, as its count the number of resources, and as its space the capacity less the quantity, never below zero. Resources leave oldest first (newest first when popped from the back), are split only to meet an exact quantity, and exactly what was asked for leaves. A push that exceeds the space by more than the resource tolerance, a duplicate or wrong-type push, a pop of more than is held and a capacity below the held quantity all raise an error and leave the buffer and the resources as they were; every other such call succeeds.",
     ["inputs", "histories"], "all quantities, capacities and sequences of buffer operations, for plain and bulk buffers of products and materials",
     "Tests push two or three fixed resources; the running total, the order and the error paths must agree for every history and for quantities around the tolerance.",
     ["src/toolkit/res_buf.h", "src/toolkit/res_manip.cc"],
     [("Push/Pop/PopN/PopVector/PopBack/capacity/UpdateQty", "src/toolkit/res_buf.h"), ("Squash", "src/toolkit/res_manip.cc")])

prop("C02", "Mixing and separating materials conserves the mass of every nuclide",
     "When a material absorbs another, the mass of every nuclide in the result is the sum of what the two held; when a given quantity of a given composition is taken out, the masses of every nuclide in the part and in the remainder add up to what was there before, and the part has the requested composition. Taking out more of some nuclide than the material holds, beyond the resource tolerance, is refused with a ValueError and changes nothing; a feasible separation is never refused. Splitting by quantity leaves both parts with the original composition.",
     ["inputs", "histories"], "all quantities and all sequences of mixing and separating materials of overlapping and disjoint compositions",
     "Tests mix fixed pairs; nuclide masses have to balance for every quantity and sequence, including materials separated after being mixed.",
     ["src/material.cc", "src/comp_math.cc", "src/composition.cc"],
     [("Absorb/ExtractComp/ExtractQty", "src/material.cc"), ("Add/Sub/Normalize/ApplyThreshold", "src/comp_math.cc")])

prop("C03", "Composition arithmetic is nuclide-wise arithmetic",
     "For any two compositions Add and Sub give the nuclide-wise sum and difference over exactly the nuclides present in either and leave their operands alone; Sum is the total; Normalize scales every entry so that the total is the given value (and does nothing to an all-zero map); ApplyThreshold removes exactly the entries whose magnitude is not above the threshold; AlmostEq is symmetric and holds exactly when the same nuclides are present and each pair agrees within the relative threshold; negative thresholds are refused. A Composition can be created exactly from maps of valid nuclides with no negative entry and holds what it was created from.",
     ["inputs"], "all maps over a set of nuclides with arbitrary entries of either sign, including missing, zero and near-threshold entries",
     "Tests use one or two fixed maps; every material operation relies on these functions for every map.",
     ["src/comp_math.cc", "src/composition.cc", "src/cyc_arithmetic.cc"],
     [("Add/Sub/Sum/ApplyThreshold/Normalize/AlmostEq/ValidNucs/AllPositive", "src/comp_math.cc"), ("CreateFromAtom/CreateFromMass", "src/composition.cc"), ("KahanSum/sort_ascending", "src/cyc_arithmetic.cc")])

prop("C05", "A resource map reports the sum of what it holds",
     "After any sequence of insertions, replacements, erasures, pops, clears and in-place changes of the resources, a ResMap's quantity is the sum of the quantities of the resources it holds at that moment, its size is the number of keys, Values lists the resources in key order, popping a key returns its resource and a missing key raises KeyError. Saving and restoring by object ids puts every resource back under its key.",
     ["histories", "inputs"], "all sequences of map operations and all quantities",
     "The cached quantity is invalidated operation by operation; tests exercise a few orders, the cache must be right after every one.",
     ["src/toolkit/res_map.h"], [("operator[]/erase/Pop/clear/quantity/UpdateQty/obj_ids/ResValues", "src/toolkit/res_map.h")])

prop("C06", "Combined inventory limits are consistent with their buffers",
     "A total inventory tracker over several buffers reports as quantity the sum over the buffers, as capacity the lower of its own limit and the sum of the buffers' capacities, as space the capacity less the quantity (never negative), and as a single buffer's space the lower of the buffer's own and the total space. Its limit can be set to any value not below the held quantity (within the resource tolerance) and to no other; it needs at least one buffer and a positive limit.",
     ["inputs", "histories"], "all capacities, quantities and sequences of pushes, pops and limit changes",
     "Storage limits of facilities are computed from these numbers at every time step; tests check a few fixed fillings.",
     ["src/toolkit/total_inv_tracker.h"], [("Init/quantity/capacity/space/constrained_buf_space/set_capacity", "src/toolkit/total_inv_tracker.h")])

prop("C07", "The greedy solver never exceeds any limit of the exchange",
     "For every exchange graph the greedy solver finds matches such that each carries a positive quantity along an arc of the graph, no arc is matched twice, no request receives and no bid supplies more than its quantity, no request portfolio receives more than its total and all capacity constraints of every bid portfolio are respected (a bid that does not contribute to a constraint is not limited by it). Exclusive requests and bids are matched entirely with one partner or not at all, and an exclusive resource offered to several requests goes to at most one. The solver never fails on such a graph.",
     ["inputs"], "all graphs of up to two request and two bid groups with arbitrary quantities, capacities, unit demands, exclusivity and preferences",
     "Tests solve a dozen hand-computed graphs; feasibility must hold for every combination of limits, including ones exhausted exactly.",
     ["src/greedy_solver.cc", "src/exchange_graph.cc"],
     [("GreedilySatisfySet/Capacity/UpdateCapacity/GetCaps", "src/greedy_solver.cc"), ("Arc/AddMatch/AddArc", "src/exchange_graph.cc")])

prop("C08", "The greedy solver serves requests in order of weight and preference",
     "The greedy solver serves request groups in descending order of their average node weight (commodity weight times 1 + p/(1+p) with p the average preference; reversed weights reverse the order), requests of a group in descending average preference, and a request's bids in descending preference, ties going to the higher agent id; each bid in turn supplies all that the remaining limits allow (an exclusive one all or nothing), so no supply is left unused that could serve a later request. The reported objective is the sum of quantity over preference plus the pseudo cost times the unmet demand, the pseudo cost being 1.1 times the highest arc cost.",
     ["inputs"], "all such graphs with arbitrary quantities and capacities and all patterns of preferences, weights and exclusivity",
     "Tests fix the order on a few graphs; whether the order is respected depends on which limits bind, which only an exploration of all relations between quantities covers.",
     ["src/greedy_solver.cc", "src/greedy_preconditioner.cc", "src/exchange_solver.cc"],
     [("SolveGraph/GreedilySatisfySet", "src/greedy_solver.cc"), ("Condition/GroupWeight/NodeWeight/AvgPref/ProcessWeights_", "src/greedy_preconditioner.cc"), ("PseudoCostByPref/Cost", "src/exchange_solver.cc")])

prop("C09", "The linear program describes exactly the exchange's solutions",
     "The program handed to the optimiser has one variable per arc and one per request group with bids for its unmet demand. A point satisfies its bounds and rows exactly when the flows it stands for respect every request's and bid's quantity, every capacity constraint of the bid groups, the demand of every request group up to the unmet part, and, with exclusive orders, that exclusive arcs carry all or nothing and mutually exclusive nodes at most one match. Its objective is flow over preference plus the penalty for unmet demand, exactly the exclusive arcs are integer variables, and the optimiser's solution is read back arc by arc, dropping only flows below the tolerance.",
     ["inputs"], "all points of the program and all quantities, demands and capacities of graphs with up to two request and two bid groups",
     "A test compares one matrix with hand-written numbers; that the program allows neither more nor less than the exchange quantifies over all points.",
     ["src/prog_translator.cc", "src/exchange_solver.cc", "src/exchange_graph.cc"],
     [("Translate/XlateGrp_/Populate/FromProg", "src/prog_translator.cc"), ("Cost", "src/exchange_solver.cc")],)

prop("C10", "Exchanges are translated to graphs and back faithfully",
     "Every request and bid of an exchange becomes exactly one node with its quantity, exclusivity, commodity and agent in its portfolio's group; every bid becomes one arc to its request, carrying the requester's adjusted preference (its own, else the request's), unless that is negative; a zero preference is refused. Every portfolio constraint becomes a group capacity, with each arc's unit capacity the constraint's measure per unit of the offer; a request group also gets its requested total, to which requests that stand in for each other count so that a full order of any of them meets the demand (their average). Portfolios accept only one requester or bidder and only positive offers and capacities. Matches become trades of the same request, bid and amount.",
     ["inputs"], "all quantities, capacities, exclusivity and preference patterns of exchanges with two requesters and two bidders",
     "Translation tests check single nodes and arcs with fixed numbers; solvers see only the translated graph, so every quantity must survive for every exchange.",
     ["src/exchange_translator.h", "src/exchange_context.h", "src/request_portfolio.h", "src/bid_portfolio.h", "src/capacity_constraint.h"],
     [("Translate/AddArc/TranslateArc/TranslateCapacities/BackTranslateSolution", "src/exchange_translator.h"), ("AddRequest/AddMutualReqs/qty_converter", "src/request_portfolio.h"), ("AddBid", "src/bid_portfolio.h"), ("AddBid", "src/exchange_context.h")])

prop("C11", "A market step delivers what was agreed, to whom, and records it",
     "In every market step each trader in the simulation is asked once for requests and then, once all requests are in, once for bids, in order of agent id; bidders see every request of their commodity. Preferences of a requester's bids are adjusted by the requester and then by each of its parents upwards, starting from the request's own preference, and the last word counts: a negative one excludes the bid, a higher one is served first. A supplier is asked only for trades on its own bids and within its capacity constraints, a requester is assigned no more than it asked for (an exclusive request from one supplier, all or nothing). Exactly what suppliers hand over reaches the agent that requested it, with its trade, and every delivery above the resource tolerance is recorded as one transaction with a unique id, the sender, the receiver, the resource, the commodity and the time; empty deliveries are not recorded.",
     ["inputs", "histories"], "all demands, stocks and short deliveries of markets with two requesters and two suppliers and all patterns of preference adjustment, exclusivity and response",
     "Tests run single stages of the exchange with one trader and fixed numbers; what is delivered and recorded depends on how quantities, vetoes and short deliveries combine across all stages.",
     ["src/resource_exchange.h", "src/exchange_manager.h", "src/trade_executor.h", "src/trader_management.h"],
     [("AddAllRequests/AddAllBids/AdjustAll/AdjustPrefs", "src/resource_exchange.h"), ("Execute", "src/exchange_manager.h"), ("GroupTradesBySupplier/GetTradeResponses/RecordTrades/SendTradeResources", "src/trade_executor.h")])

prop("C12", "Every time step runs its phases in order for every agent in the simulation",
     "A simulation of duration d runs the steps 0 to d-1, or up to and including the step in which its termination is requested. Each step consists of building, ticks, resource exchange (materials, then products), tocks, decisions and decommissioning, in this order, and every agent in the simulation takes part in each phase once: from the step it is built in up to and including the step it is decommissioned in. Builds take place in exactly the step they were scheduled for and decommissions in the step they were last scheduled for; scheduling a build not later than, or a decommission before, the current step raises ValueError (a build or decommission without a time is for the next, respectively the current, step). Accepted schedulings and the end of the run are recorded, and the final state is saved.",
     ["schedules", "histories"], "all build, decommission and termination times of a run of up to four steps",
     "Tests run one or two fixed schedules; what happens when builds, rescheduled decommissions and termination coincide, or fall outside the run, is decided by their order for every schedule.",
     ["src/timer.cc", "src/context.cc"],
     [("RunSim/DoBuild/DoTick/DoResEx/DoTock/DoDecision/DoDecom/SchedBuild/SchedDecom/KillSim", "src/timer.cc"), ("SchedBuild/SchedDecom", "src/context.cc")])

prop("C13", "Agents enter, age and leave as their lifetimes say, and it is recorded",
     "An agent built in step t with lifetime n is its parent's child, counts once for its prototype and its archetype, and leaves in the first step at or after t+n-1 in which its decommission conditions hold (never, with an infinite lifetime), after its parent is told; then it is no longer its parent's child and is no longer counted. A built agent's lifetime can only be forced: to a new finite or infinite one, which then decides when it leaves; one that has already run out ends with the current step. Every entry is recorded once with the agent's parent, kind, archetype, prototype, lifetime and time, and every exit once with its time. A requested snapshot is taken at the start of the next step.",
     ["histories", "schedules"], "all lifetimes, build times, forced lifetimes and decommission conditions of a run of up to four steps",
     "Tests build and decommission single agents at fixed times; when an agent leaves depends on how lifetimes, forced changes and hold conditions interact for every history.",
     ["src/agent.cc", "src/institution.cc", "src/facility.cc", "src/context.cc", "src/timer.cc"],
     [("Build/Connect/lifetime_force/EnterNotify/Decommission/AddToTable/exit_time", "src/agent.cc"), ("Tock", "src/institution.cc"), ("EnterNotify/Decommission", "src/facility.cc"), ("CreateAgent/RegisterAgent/UnregisterAgent", "src/context.cc")])

prop("C14", "The recorded resource history accounts for every tracked resource",
     "Every change of a tracked resource (creation, splitting, packaging, merging, repackaging, transmutation) is recorded exactly once as a new state with an id of its own, the object it belongs to, its quantity, units, quality, package and time, and the state or states it came from, which were recorded before it; changes that are no change, clones, untracked resources and anything made of them are not recorded. Every created resource, and nothing else, has a recorded creator. The composition of every recorded material is recorded once, as mass fractions. The recorded states that no later state came from add up to all that was ever created.",
     ["histories", "inputs"], "all sequences of operations on tracked materials and products and all quantities",
     "Mass balance over the output database is the first thing users compute; tests look at single operations, but the graph of states has to be closed for every sequence.",
     ["src/res_tracker.cc", "src/resource.cc", "src/material.cc", "src/product.cc"],
     [("Create/Extract/Absorb/Modify/Package/Record", "src/res_tracker.cc"), ("BumpStateId", "src/resource.cc"), ("Record", "src/composition.cc")])

prop("C15", "Everything recorded reaches every backend once, in order, unchanged",
     "Whatever sequence of recording, flushing, changing the dump count, switching the simulation id and registering further backends takes place, every backend registered receives every datum recorded after its registration exactly once, in the order recorded, with its title and exactly its fields and values (preceded by the simulation's id unless that is switched off), whatever the caller does afterwards with the strings and values it passed; after a flush or closing nothing is withheld, and nothing recorded after closing is delivered.",
     ["histories", "inputs"], "all sequences of recorder operations, all dump counts and all recorded values",
     "Tests record a fixed number of data with one dump count; buffering makes delivery depend on the exact interleaving.",
     ["src/recorder.cc", "src/datum.cc"],
     [("NewDatum/AddDatum/NotifyBackends/Flush/Close/set_dump_count/RegisterBackend", "src/recorder.cc"), ("AddVal/Record", "src/datum.cc")])

prop("C17", "Packaging fills packages within their limits and conserves what is packaged",
     "Packaging a material or product into a package with a minimum and maximum fill yields parts that each carry the package's name and lie within its limits, and leaves the rest unpackaged; parts and rest add up to the original, and the rest is too little to fill a package. Filling first-come fills every package but the last to the maximum; filling equally uses the fewest packages that take everything and fills them alike, or falls back on maximal packages where that would fall below the minimum; uniform and normal filling draw each fill from within the limits. A package whose minimum exceeds its maximum, or a random one without a range, is refused. Changing a resource's package is refused with ValueError exactly if its quantity lies outside the new package's limits, and changes nothing but the package. Buffers strip packages unless told to keep them; bulk buffers cannot keep them.",
     ["inputs", "histories"], "all quantities, the fill limits listed, all strategies and all random draws",
     "Tests package a handful of quantities; whether fills fall outside the limits or material vanishes depends on how the quantity relates to the limits and on the random draw.",
     ["src/package.cc", "src/resource.h", "src/resource.cc", "src/toolkit/res_buf.h", "src/random_number_generator.h"],
     [("GetFillMass/SetDistribution", "src/package.cc"), ("Resource::Package", "src/resource.h"), ("ChangePackage", "src/material.cc"), ("Push", "src/toolkit/res_buf.h")])

prop("C18", "A transport unit lets through only packages that fill units within limits",
     "A transport unit can be defined exactly with 0 <= minimum <= maximum fill. However many packages are offered, the number let through is at most that number and can be divided into units within the limits. Filling first-come ships full units only; filling equally shares the packages evenly among the fewest units that could take all of them (if that meets the minimum; otherwise it fills units to the maximum), ships as many such units as there are packages for, and something whenever one unit can be filled; hybrid filling ships as many packages as any division into units could. The unrestricted unit lets everything through.",
     ["inputs"], "all numbers of packages and all limits within the bounds, all strategies",
     "Tests try a few numbers of packages; rounding and the interplay of both limits decide the result for every number.",
     ["src/package.cc"], [("GetTransportUnitFill/MaxShippablePackages", "src/package.cc")])

prop("C19", "A buy policy asks for exactly what its limits allow, when it may",
     "In every step a material buy policy asks for the least of its throughput, the room up to its fill level, the space of its buffer and of the total inventory limit, times the sampled request fraction, and what is left of its cumulative limit: as one portfolio with one request per configured commodity (in place of each other, with the configured composition and preference), or, with a quantum, as one exclusive portfolio per whole quantum. It asks for nothing if that is below the tolerance, if the inventory is above its reorder point, or in a dormant period; active and dormant periods alternate with the sampled lengths, and with a cumulative limit the dormant period follows the step in which that limit is reached. Everything delivered is put in the buffer and its commodity is known. Resetting and configuring a policy anew makes it follow the new configuration only.",
     ["histories", "inputs"], "all stocks, capacities, limits, throughputs and deliveries, all kinds of policy and all period lengths within the bounds",
     "Tests follow one or two policies with fixed numbers for some steps; over- or under-ordering depends on which of the many limits binds in which step.",
     ["src/toolkit/matl_buy_policy.cc", "src/toolkit/matl_buy_policy.h", "src/toolkit/total_inv_tracker.h"],
     [("GetMatlRequests/AcceptMatlTrades/TotalAvailable/ReqQty/NReq/CheckActiveDormantCumulativeTimes/SetNextActiveTime/SetNextDormantTime/ResetBehavior", "src/toolkit/matl_buy_policy.cc")])

prop("C29", "Random draws stay in their ranges and follow the simulation's seed",
     "Every draw lies in the range asked for, whatever the generator yields: [0,1), uniform integers and reals between their limits, normal draws truncated (and rounded, for integers) to their limits, binomial draws between none and all trials, binary draws one of the two choices, Poisson draws not negative, fixed ones the value itself; distributions report the parameters they were given. Empty ranges, non-positive numbers of trials and probabilities outside [0,1] raise ValueError. Two simulations with the same seed draw the same sequence.",
     ["inputs"], "all outcomes of the underlying generator, all limits within the bounds and all seeds",
     "Tests draw some samples from a fixed seed; a bad draw may occur once in 2^32.",
     ["src/random_number_generator.cc", "src/random_number_generator.h", "src/context.cc"],
     [("random_01/random_uniform_int/random_uniform_real/random_normal_real/random_normal_int", "src/random_number_generator.cc"), ("sample", "src/random_number_generator.h"), ("InitSim", "src/context.cc")])

prop("C20", "A sell policy offers what it can deliver and delivers what it offered",
     "A material sell policy limits all its bids together to the lesser of its throughput and its stock (in whole quanta if it has a quantum) and bids only on requests for its commodities, and only if there is something to sell. On each such request it bids as many exclusive quanta as fit in the request and the limit, or the packages the quantity fills (all of it, unpackaged), no more than its transport unit lets through; offers have the requested composition if the policy ignores compositions, else that of the stock. Each trade is answered with what was agreed, in its package and with the composition offered, or with nothing if it cannot be packaged; no more packages are handed over than the transport unit lets through, and whatever is not handed over stays in the buffer. Quanta that do not fill exactly one package that can be shipped are refused with ValueError.",
     ["inputs", "histories"], "all stocks, throughputs, demands and traded amounts within the bounds and all kinds of policy",
     "Tests sell fixed stocks to one or two sinks; what is offered and handed over depends on how stock, throughput, demand, quanta, packages and transport limits relate.",
     ["src/toolkit/matl_sell_policy.cc", "src/package.cc"],
     [("Limit/GetMatlBids/GetMatlTrades/set_package/set_transport_unit", "src/toolkit/matl_sell_policy.cc"), ("GetFillMass/MaxShippablePackages", "src/package.cc")])

prop("C22", "A simulation restored from its records goes on exactly as the recorded one",
     "Initialising a simulation from the records of its set-up, or restarting it from the snapshot taken at any time step, restores duration, start, step length, seed, tolerances, decay mode, recipes, packages, transport units, solver order, prototypes, all id counters and every agent that was there, with its parent, entry time, lifetime, prototype, internal state and its resources (type, quantity, quality, package, ids), and nothing of other simulations in the same database. Run on, it has the same agents with the same state in the same steps as the recorded run had from there on: builds and decommissions scheduled before the snapshot happen at their times, those ordered later happen once.",
     ["histories", "inputs"], "all histories of builds, decommissions, lifetimes and resource changes within the bounds, all snapshot times and quantities",
     "Tests restore one fixed set-up and restart once without running on; what is lost or doubled depends on when things were scheduled relative to the snapshot.",
     ["src/sim_init.cc", "src/query_backend.h", "src/db_init.cc", "src/timer.cc", "src/context.cc"],
     [("Init/Restart/Snapshot/SnapAgent/Load*", "src/sim_init.cc"), ("CondInjector/PrefixInjector/CmpCond", "src/query_backend.h"), ("RunSim/Initialize/SchedBuild/SchedDecom", "src/timer.cc")])

prop("C26", "Material queries report what a material holds",
     "For any material a query reports its quantity; as mass and mass fraction of a nuclide its share of the material's mass; as atom fraction its share of the atoms; as moles its mass over its molar mass; nothing for absent nuclides; for a set of nuclides the sum of theirs, also if the material is empty. The amount reported of a wanted composition is what the material holds of it, no more and no less. Materials compare as almost equal if every nuclide's fractions differ by less than the threshold relative to the smaller of them, and not if some differ by more.",
     ["inputs"], "all quantities and mixtures within the bounds",
     "Tests query one or two fixed materials; empty materials, absent nuclides and mixtures where another nuclide is scarce behave differently.",
     ["src/toolkit/mat_query.cc", "src/comp_math.cc", "src/composition.cc"],
     [("qty/mass/moles/mass_frac/atom_frac/AlmostEq/Amount", "src/toolkit/mat_query.cc"), ("Normalize/AlmostEq/Sub", "src/comp_math.cc")])

prop("C33", "Enrichment balances mass and assays are shares of the uranium",
     "For every product quantity and assays with tails below feed and feed not above product, the feed required contains exactly the U-235 of product and tails, feed is product plus tails, and neither feed below product nor negative tails are reported. The value function is refused with ValueError exactly outside [0,1). The uranium assay of a material by atoms or mass is the share of U-235 in U-235 and U-238 (zero without uranium), and its uranium quantity is the uranium's share of the material.",
     ["inputs"], "all quantities and assays within the bounds",
     "Tests use one set of assays.",
     ["src/toolkit/enrichment.cc"],
     [("FeedQty/TailsQty/ValueFunc/UraniumAssayAtom/UraniumAssayMass/UraniumQty", "src/toolkit/enrichment.cc")])

prop("C16", "The SQLite database returns what was recorded in it",
     "Whatever is recorded through a SQLite backend is returned by a query of its table: every row once, in the order recorded, each value with its type and unchanged, for numbers, text, ids, blobs and all supported containers; columns, types and tables are reported as recorded. A query with conditions returns exactly the rows for which all of them hold, one without conditions or with an empty list all rows; restricting a query to one simulation returns that simulation's rows only. Opening an existing database again adds to it. Unknown tables and unsupported types are refused with ValueError, and something that cannot be stored does not keep other data, recorded before or after, out of the database.",
     ["inputs", "histories"], "all values within the bounds, all conditions on them, batches of one or two",
     "Tests write a few fixed rows and query them once; which rows a condition selects, and what survives an error or reopening, depends on values and on the order of events.",
     ["src/sqlite_back.cc", "src/sqlite_db.cc", "src/query_backend.h", "src/recorder.cc"],
     [("Notify/Query/ColumnTypes/Tables/Bind/ColAsVal/CreateTable/WriteDatum", "src/sqlite_back.cc"), ("SqlStatement/SqliteDb", "src/sqlite_db.cc"), ("CondInjector", "src/query_backend.h")])

prop("C21", "Recorded inventories and time series are what the agents hold and report",
     "If a simulation is set to record inventories, then after each step's tock every agent in the simulation has its material inventories recorded under agent, time and name: the detailed table has the mass of each nuclide, the compact one a single row with total quantity and normalised composition; neither has anything else (no prototypes, products or empty inventories, nothing if not asked for), and recording leaves the inventories as they are. Each value reported for a time series is recorded once with agent, time, value and units, and its listeners get the same value.",
     ["inputs", "histories"], "all quantities and values within the bounds, inventories that change between steps and agents that leave",
     "Tests record one fixed inventory.",
     ["src/timer.cc", "src/toolkit/timeseries.h", "src/toolkit/timeseries.cc"],
     [("RecordInventories/RecordInventory/DoTock", "src/timer.cc"), ("RecordTimeSeries", "src/toolkit/timeseries.h")])

prop("C23", "Agents, their families and registered names are what was set up",
     "In any history of agents built from prototypes under other agents and decommissioned: an agent created has its prototype's name, kind and lifetime and an id of its own; its parent is the one it was built under while that is in the simulation, none afterwards; children, ancestors, descendants and family follow from that; agents are counted per prototype and kind; the traders are the facilities present; every entry and exit is recorded once; printing a family names every descendant. No agent can be its own parent. Packages and transport units get a name once, prototypes too unless overwriting is asked for; looking a name up returns what it was last registered with, and unknown names raise KeyError, prototypes of another kind CastError.",
     ["histories"], "all histories within the bounds",
     "Tests build a fixed family; what is left after agents leave in some order is not tried.",
     ["src/agent.cc", "src/agent.h", "src/context.cc", "src/context.h", "src/facility.cc", "src/institution.cc"],
     [("Build/Connect/Decommission/AncestorOf/DecendentOf/InFamilyTree/PrintChildren/~Agent", "src/agent.cc"), ("AddPrototype/AddPackage/AddTransportUnit/AddRecipe/Get*/DelAgent", "src/context.cc"), ("CreateAgent/RegisterAgent/UnregisterAgent", "src/context.h")])

prop("C24", "A commodity and recipe context answers as told, also cloned or restored",
     "Incoming and outgoing commodities, their recipes and counterparts, and the commodity of each resource held are those last given, whatever the order of additions, updates and removals and whatever is taken from the resources; a clone, and a context restored from a snapshot, are equal to the original and answer alike; changing a clone leaves the original as it was.",
     ["histories"], "all histories within the bounds",
     "Tests check one fixed context and one round trip.",
     ["src/toolkit/commodity_recipe_context.cc", "src/toolkit/commodity_recipe_context.h"],
     [("AddInCommod/AddRsrc/UpdateRsrc/RemoveRsrc/UpdateInRec/Clone/Snapshot/InitFrom", "src/toolkit/commodity_recipe_context.cc")])

prop("C25", "Demand functions and supply totals are what their parts define",
     "A linear function is slope times argument plus intercept. A piecewise function is zero before its first piece and otherwise follows the last piece that has started, in that piece's own coordinates; a piece added as continuous starts at the value the function had there; a piece that does not start after the last is refused and changes nothing. A producer produces what was added and not removed, with the capacity last set or copied; a production manager's capacity for a commodity is the sum over its registered producers of it, and supply is the sum over registered managers, whatever was registered, unregistered, removed or copied before; demand is the value of the commodity's demand function.",
     ["inputs", "histories"], "all arguments, starts and intercepts, all histories within the bounds",
     "Tests evaluate a few functions at a few points and register producers once.",
     ["src/toolkit/symbolic_functions.cc", "src/toolkit/symbolic_function_factories.cc", "src/toolkit/commodity_producer.h", "src/toolkit/commodity_producer.cc", "src/toolkit/commodity_producer_manager.cc", "src/toolkit/supply_demand_manager.cc", "src/toolkit/supply_demand_manager.h"],
     [("value", "src/toolkit/symbolic_functions.cc"), ("AddFunction", "src/toolkit/symbolic_function_factories.cc"), ("TotalCapacity", "src/toolkit/commodity_producer_manager.cc"), ("Supply", "src/toolkit/supply_demand_manager.cc")])

prop("C28", "Positions are on the globe and kept to a tenth of a second",
     "Every way of setting a latitude or longitude accepts exactly [-90,90] and [-180,180] and refuses the rest with ValueError, leaving the position as it was; what is read back differs from what was set by no more than the rounding to a tenth of a second of arc (and six decimals).",
     ["inputs"], "all coordinates within the bounds",
     "Tests try a few places.",
     ["src/toolkit/position.cc"], [("Position/latitude/longitude/set_position/LatCheck/LonCheck/SetPrecision", "src/toolkit/position.cc")])

prop("C30", "Materials decay for exactly the time that has passed, once",
     "However often and whenever a material is told to decay, its composition is that of its origin decayed for exactly the time from its last change of composition to its last decay: no time step counts twice and none is lost. A decay may be put off only while no nuclide would change by more than a thousandth, and the time is then made up for later. Decay leaves the quantity as it is, is recorded together with the time, and parts split off go on from the whole's last decay; a material that absorbs another counts as decayed when the larger of them was. With decay switched off nothing ever changes; lazy decay shows every composition as of the present. Compositions decayed by different routes for the same total time are equal, and the original is never altered.",
     ["inputs", "histories"], "all histories of decays, splits, merges and changes within the bounds, all decay modes",
     "Tests decay one material once or twice; double counting or loss of time only shows for certain sequences of skipped, repeated and mixed decays.",
     ["src/material.cc", "src/composition.cc"],
     [("Decay/comp/Transmute/Absorb/ExtractComp", "src/material.cc"), ("Decay/NewDecay", "src/composition.cc")])

prop("C37", "Reference facilities trade all they can and keep to their capacities",
     "In a simulation of the Source, Sink and KFacility archetypes that come with cyclus, initialised from input documents, no facility supplies more than its capacity or takes more than its capacity and the room left in its inventory in any time step, for all capacities (zero included), inventory sizes, lifetimes and conversion factors; capacities of a KFacility change by its factors every step; as much is traded in a step as the facilities of a commodity can supply and take together; what is supplied has the supplier's recipe, or the composition asked for if it has none; facilities trade only from their entry to the end of their lifetime; and the simulation runs to its end.",
     ["inputs", "histories"], "all capacities, inventory sizes, entry times and lifetimes within the bounds",
     "Tests run fixed capacities with large inventories; that a step's trades fit every facility depends on how the capacities and inventories relate.",
     ["agents/source.cc", "agents/sink.cc", "agents/k_facility.cc", "src/greedy_solver.cc", "src/trade_executor.h", "src/timer.cc"],
     [("GetMatlBids/GetMatlTrades", "agents/source.cc"), ("GetMatlRequests/AcceptMatlTrades", "agents/sink.cc"), ("Tick/Tock/GetMatlRequests/GetMatlBids", "agents/k_facility.cc")])

prop("C31", "The HDF5 database returns what was recorded in it",
     "Whatever is recorded through an HDF5 backend is returned by a query of its table with the same values, types and order, for every supported type, also after the file is reopened, and conditions select exactly the rows for which they hold.",
     ["inputs", "histories"], "all values of all supported types and all batches", "Tests write a few fixed rows.",
     ["src/hdf5_back.cc.in", "src/hdf5_back.h"], [("Notify/Query/ReadGroups", "src/hdf5_back.cc.in")],
     na="every value passes through libhdf5 in type-erased buffers: the code only makes sense together with that library (several hundred thousand lines, no source here), and a stand-in for its dataspaces, compound and variable-length types and chunk cache would be a model of HDF5 rather than of this code")

prop("C32", "A simulation loaded from an input file is the one the file describes",
     "For every input file that the schema accepts, the simulation that starts after loading it (the nested and the flat form) has what the file describes and nothing else: its duration, start, handle, decay mode, time step, seed, stride, tolerances and inventory recording, or the documented defaults for what is left out; the solver it names, with exclusive orders as it says, serving commodities in the order of their priorities (1 first; commodities without a positive priority last); the recipes with their proportions by mass or by atoms; packages and transport units with their limits and strategies; a prototype for every region, institution and facility with its archetype (by alias), configuration and lifetime; and, from the start, every region, every institution in its region and as many facilities of each prototype as listed in each institution. A solver, basis, container or parent that makes no sense is refused with an error, it does not hang or crash.",
     ["inputs"], "all values and combinations of settings in the input file within the bounds",
     "Tests load a handful of files; whether a setting arrives depends on what is given, omitted and combined, and goes through the loader, the recorded tables and the initialisation from them.",
     ["src/xml_file_loader.cc", "src/xml_flat_loader.cc", "src/infile_tree.cc", "src/sim_init.cc"], [("LoadSim", "src/xml_file_loader.cc"), ("LoadInitialAgents", "src/xml_flat_loader.cc"), ("Init", "src/sim_init.cc")])

prop("C38", "A building manager orders exactly the decision the optimiser made",
     "For every set of registered builders and producers and every demand for capacity in a commodity: without a positive demand, or without a producer of the commodity, nothing is ordered; otherwise the integer program handed to the optimiser has an answer of whole, unlimited, non-negative numbers exactly where the capacities of what would be built reach the demand, and minimises its cost; and whatever answer the optimiser gives, integral to within its tolerance, is ordered as those whole numbers, each from a builder that registers the producer. Repeated decisions follow every change of the builders, producers, capacities and costs.",
     ["inputs", "histories"], "all demands and answers of the optimiser within the bounds, all registrations in the listed arrangements",
     "Tests solve a few programs whose answers come out integral; answers off by a rounding error, several builders and changes between decisions are not sampled.",
     ["src/toolkit/building_manager.cc", "src/toolkit/building_manager.h", "src/toolkit/builder.h", "src/toolkit/commodity_producer.h"], [("SetUp_", "src/toolkit/building_manager.cc"), ("Solve_", "src/toolkit/building_manager.cc"), ("MakeBuildDecision", "src/toolkit/building_manager.cc")])

prop("C39", "An input file says the same in XML and in JSON",
     "For every input document: converting a JSON input to the XML it is loaded from gives well-formed XML with exactly the document's elements, in the order of each repeated name, empty ones included, with the same text whatever characters it has and with numbers equal to the last bit; and converting an XML input to JSON and back gives the document again.",
     ["inputs"], "all numbers within the bounds, all documents of the listed shapes",
     "Tests convert one document back and forth, whose values are short texts; other numbers, characters and empty elements are not sampled.",
     ["src/toolkit/infile_converters.cc", "src/infile_tree.cc"], [("AddJsonToXml", "src/toolkit/infile_converters.cc"), ("AddXmlToJson", "src/toolkit/infile_converters.cc"), ("JsonInsertOrAppend", "src/toolkit/infile_converters.cc")])

prop("C34", "The optimiser's solution of an exchange is optimal",
     "With an optimising solver, no feasible solution of the exchange has a lower objective than the one returned, within the solver's gap and time limit; nor has any other decision to build that meets the demand a lower cost than a building manager's.",
     ["inputs"], "all exchanges", "Tests solve a few fixed problems.",
     ["src/prog_solver.cc", "src/coin_helpers.cc", "src/toolkit/building_manager.cc"], [("SolveGraph", "src/prog_solver.cc"), ("MakeBuildDecision", "src/toolkit/building_manager.cc")],
     na="optimality is decided inside COIN's simplex and branch-and-bound (no source here): the programs handed over and the solutions read back are covered by C09 and C38")

prop("C35", "Running time steps in parallel gives the serial result",
     "With OpenMP enabled, every interleaving of the agents' ticks, tocks and inventory recording leaves the simulation in a state reachable serially and loses no recorded data.",
     ["schedules"], "all interleavings", "Tests run one schedule.",
     ["src/timer.cc", "src/context.cc", "src/res_tracker.cc"], [("DoTick/DoTock", "src/timer.cc"), ("SchedBuild/SchedDecom", "src/context.cc")],
     na="the build under study is serial (CYCLUS_IS_PARALLEL=0): the pragmas generate no code, so there are no threads in the compiled program to interleave")

prop("C36", "Code generated for annotated archetypes keeps every state variable",
     "For archetypes that directly extend Facility, Institution or Region and have annotated state variables of primitive types and of vectors, sets, lists, pairs and maps of them (nested), the code cycpp generates keeps them, whatever their values: a clone has the state of its original and empty inventories of the same size; an agent restored from its record (Snapshot, InitFrom) has the recorded state; an agent initialised from an input document has the values given there under their aliases, the annotated defaults for those left out, and derived initial values computed from them; an inventory has its annotated capacity, and its snapshot lists exactly its resources, from which it is restored in order. State variables are recorded with their annotated shapes, completed with free extents.",
     ["inputs", "histories"], "all values of the state variables within the bounds and every choice of optional inputs",
     "Tests compare the text generated for a few variables and run a few archetypes; whether the generated code keeps every variable depends on its type, annotations and value.",
     ["cli/cycpp.py", "src/infile_tree.h", "src/query_backend.h", "src/db_init.cc"],
     [("code generation filters", "cli/cycpp.py"), ("OptionalQuery/Query", "src/infile_tree.h")])