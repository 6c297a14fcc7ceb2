"""Which harnesses decide which property, and within which bounds."""
HARNESSES = {
    "res_qty": dict(src="res_qty.cc", deadline=(60, 900), witness=["refused", "extracted", "absorbed", "squashed"],
                    what="sequences of extract / package / absorb / clone on materials and products, squashed at the end",
                    bounds="2 initial resources, 3 (untracked 2; thorough 4) operations with symbolic choice and operands, quantities in [0,1024] and requests in [0,2048] on the 2^-20 grid"),
    "resbuf_prod": dict(src="resbuf.cc", deadline=(50, 900), witness=["pushed", "pushed group", "popped quantity", "popped tolerant", "popped count", "popped one", "capacity changed", "duplicate refused", "came back"],
                        what="any sequence of buffer operations on a plain buffer of products against a list model",
                        bounds="4 (bulk 3; thorough 5) operations, the first two pushes, symbolic capacity and quantities in [0,512] on the 2^-24 grid"),
    "resbuf_bulk": dict(src="resbuf.cc", defines=("BULK", "MAT"), deadline=(50, 900), witness=["pushed", "pushed group", "popped quantity"],
                        what="the same on a bulk buffer of materials", bounds="as resbuf_prod"),
    "mat_comp": dict(src="mat_comp.cc", deadline=(45, 900), witness=["mixed", "extracted", "refused", "split"],
                     what="sequences of mixing, separating and splitting two materials",
                     bounds="2 materials, 2 (thorough 3) operations, three nuclides, compositions from a fixed set of 4, quantities in [0,256] on the 2^-10 grid, tracked (thorough: and untracked)"),
    "resmap": dict(src="resmap.cc", deadline=(40, 600), witness=["erase", "pop", "clear", "changed in place", "restored"],
                   what="sequences of map operations against a model", bounds="4 (thorough 5) operations on 2 (3) integer keys, products of quantity in [0,256] on the 2^-20 grid"),
    "invtracker": dict(src="invtracker.cc", deadline=(40, 600), witness=["pushed", "popped", "capacity changed"],
                       what="two buffers under one tracker", bounds="2 buffers (one possibly unlimited), 3 (thorough 4) operations, capacities and quantities in [0,256] on the 2^-20 grid"),
    "compmath": dict(src="compmath.cc", deadline=(40, 600), witness=["sum", "threshold", "normalize", "equal", "different", "composition", "sorted"],
                     what="each function on arbitrary maps", bounds="maps over 3 (thorough 4) nuclides, entries in [-64,64] (comparison and threshold [-4,4]) on grids 2^-4 to 2^-24; AlmostEq thresholds from {-1,0,1,2}/8"),
    "greedy": dict(src="greedy.cc", deadline=(60, 900), witness=["matched", "several matches", "exclusive request met", "exclusive bid taken", "capacity used up"],
                   what="the limits on the greedy solution of an arbitrary small graph",
                   bounds="5 graph shapes of up to 2x2 nodes and 4 arcs, quantities and capacities in [0,64] on the 2^-10 grid, unit demands from {0,1/2,1,2}, up to 2 constraints, preferences 1 or 2, 7 exclusivity patterns (4-arc shapes: 2 in quick)"),
    "greedy_order": dict(src="greedy.cc", defines=("ORDER",), deadline=(60, 900), witness=["matched", "several matches", "unmet demand"],
                         what="the greedy solution against an independent reference",
                         bounds="as greedy, all preference patterns over {1,2} (4-arc shapes: 4 of 16 in quick), 4 commodity weightings, unit demand 1 in quick; objective for non-exclusive graphs"),
    "precond": dict(src="precond.cc", deadline=(60, 600), witness=["as given", "exchanged", "two first", "two last"],
                    what="the order of requests and groups for arbitrary preferences",
                    bounds="3 requests in one or two groups, two commodities, 5 weightings, 4 arcs of which any adjacent two have arbitrary preferences in (0,8] on the 2^-4 grid, the others concrete ones"),
    "xlate": dict(src="xlate.cc", deadline=(60, 900), witness=["translated", "mutual", "negative preference", "refused"],
                  what="translation of an exchange of two requesters and two bidders", bounds="3 requests, 4 bids, up to 2 constraints per portfolio, quantities and capacities in (0,64] on the 2^-8 grid, mutual requests in the ratio 1:2"),
    "prog": dict(src="prog.cc", deadline=(60, 900), witness=["matched", "exclusive", "negligible"],
                 what="feasible points of the program against the exchange's limits", bounds="4 graph shapes of up to 4 arcs, flows, demands, capacities and quantities in [0,64] on the 2^-8 grid; quantities of exclusive graphs from {2,4}; concrete preferences and unit demands"),
    "market_prod": dict(src="market.cc", deadline=(60, 900), witness=["vetoed", "favoured", "recorded", "empty delivery", "several deliveries"],
                        what="a complete product market step with scripted traders", bounds="one or two requesters, two suppliers, one region and institution; demands, stocks and short deliveries in [0,32] on the 2^-10 grid; 8 adjustment patterns; exclusive or not; three ways of responding"),
    "market_mat": dict(src="market.cc", defines=("MAT",), deadline=(60, 900), witness=["vetoed", "favoured", "recorded", "empty delivery", "several deliveries"],
                       what="the same for materials", bounds="as market_prod"),
    "timer": dict(src="timer.cc", deadline=(60, 900), witness=["build scheduled", "decommission scheduled", "killed", "decommissioned", "without parent"],
                  what="a whole run with builds, decommissions and early termination", bounds="1 to 3 (thorough 4) steps, up to 2 scheduled builds and 2 schedulings of a decommission at symbolic times, or 1 and 1 and the decommission of another agent for agents without parents, termination at a symbolic time"),
    "lifecycle": dict(src="timer.cc", defines=("LIFE",), deadline=(60, 900), witness=["forced", "left", "forced while running"],
                      what="a whole run with agents of symbolic lifetimes", bounds="2 or 3 (thorough 4) steps, two agents with symbolic lifetimes, build time, forced lifetime and decommission condition"),
    "recorder": dict(src="recorder.cc", deadline=(60, 900), witness=["flushed", "dump count changed", "injection switched", "second backend", "closed"],
                     what="recording interleaved with everything else a recorder does", bounds="4 (thorough 6) operations, dump counts 1 to 2 (3), up to 2 backends, symbolic values"),
    "restrack_prod": dict(src="restrack.cc", deadline=(60, 900), witness=["extracted", "packaged part", "absorbed", "repackaged", "clone", "used up"],
                          what="the history recorded for products", bounds="2 created resources, 3 (thorough 4) operations on any of the resources (quick: the first splits or merges), quantities in [0,256] on the 2^-24 grid"),
    "restrack_mat": dict(src="restrack.cc", defines=("MAT",), deadline=(60, 900), witness=["extracted", "packaged part", "absorbed", "repackaged", "clone", "used up", "transmuted"],
                         what="the same for materials", bounds="as restrack_prod with 2 (thorough 3) operations, two compositions"),
    "package": dict(src="package.cc", deadline=(60, 900), witness=["even filling", "no even filling", "several packages", "left over", "nothing packaged", "outside the limits", "buffer"],
                    what="filling packages by every strategy, changing packages, buffers that keep or strip them",
                    bounds="fill limits from {0,1,3} and {1,3,4,unlimited}, quantities in [0,12] (thorough [0,24]) on the 2^-10 grid (changes of package: [0,16], 2^-26), uniform draws arbitrary, normal draws concrete; 3 (thorough 4) changes of package"),
    "transport": dict(src="transport.cc", deadline=(60, 900), witness=["refused", "some left behind", "all shipped"],
                      what="the number of packages let through by every strategy",
                      bounds="limits from 0 to 5 (thorough 8) and unlimited, up to 24 (40) packages"),
    "buypolicy": dict(src="buypolicy.cc", deadline=(60, 900), witness=["dormant", "delivered", "cumulative limit reached", "changed behaviour"],
                      what="a facility buying under every kind of policy", bounds="2 to 5 steps; capacities, limits, stocks, throughput, thresholds and deliveries in [0,16] on the 2^-4 grid; quanta 2 and 4; active and dormant periods of up to 2 steps; request fractions 1/2 and 1"),
    "rng": dict(src="rng.cc", deadline=(60, 600), witness=["refused", "normal", "fixed", "repeated"],
                what="every kind of draw with every outcome of the generator; sequences repeated from any seed",
                bounds="integer limits in [-4,4], real limits in [-4,4] on the 2^-4 grid, all 32-bit draws (at most 2 to 4 per sample; samples rejected more often are not followed), normal draws within 8 deviations on the 2^-16 grid, all non-negative seeds below 2^30, 3 draws"),
    "sellpolicy": dict(src="sellpolicy.cc", deadline=(60, 900), witness=["nothing to sell", "could not be packaged", "several trades", "composition ignored", "fits", "does not fit"],
                       what="one round of bids and trades under every kind of sell policy",
                       bounds="one or two stocks of one composition, three requests, throughput, stocks, demand and trades in [0,8] on the 2^-4 grid; quantum 2; packages filled first-come [1,2], equally [3,4] or uniformly [1,2] with arbitrary draws; no transport limit or pairs"),
    "restart": dict(src="restart.cc", deadline=(60, 900), witness=["restarted", "initialised", "packaged", "split"],
                    what="a run, and the same run restored from its records at any step",
                    bounds="3 (thorough 4) steps, a snapshot at any of them; one institution or two, one prototype, one to three facilities with a material and a product of quantity in [0,8] on the 2^-4 grid; six kinds of run: up to two builds at symbolic times, built agents with a symbolic lifetime, a decommission at a symbolic time and perhaps rescheduled, builds and decommissions ordered during the run, a split and a forced lifetime at symbolic times, an institution that leaves before its facility"),
    "building": dict(src="building.cc", deadline=(60, 600), witness=["no demand", "nobody", "built", "three kinds"],
                     what="decisions of a building manager, with any answer of the optimiser",
                     bounds="2 builders and 3 producers of up to 2 commodities in 10 (thorough 20) arrangements with fixed capacities, costs in [0,16] on the 2^-4 grid, 2 (thorough 3) decisions with five kinds of change in between, demands in [-4,64] on the 2^-10 grid, answers of 0-8 of each kind within 2^-22 of the whole number"),
    "convert": dict(src="convert.cc", instrument=("pyne",), deadline=(60, 600), witness=["there and back", "read", "repeated", "from JSON"],
                    what="input documents converted from JSON to XML, and from XML to JSON and back",
                    bounds="documents three levels deep with one to three repeated elements (text, numbers, whole numbers, children, empty ones), a further element and a second parent; 4 texts with special characters, 4 whole numbers and 5 awkward ones from any of them on; any numbers in [-64,64] on the 2^-40 grid"),
    "loader": dict(src="loader.cc", deadline=(60, 600), witness=["settings", "solver", "prioritised", "no such solver", "recipes", "no such basis", "refused", "transport unit", "package", "agents", "flat", "no such parent"],
                   what="an input file loaded and the simulation started from what was recorded of it",
                   bounds="durations 1-60, start years 1950-2060, time steps, seeds and strides 1-100000, tolerances in [0,1] on the 2^-10 grid, every combination of given and omitted settings; 0-3 commodities with priorities in [-2,5] on the half grid; 1-2 recipes of 1-3 nuclides of 1-8; a package or transport unit with limits in [0,8], each given or omitted, and four strategies; 1-2 regions, 1-2 institutions, 0-2 entries of 0-2 facilities each, prototype values in [-9,9]; flat inputs of 3-4 agents in every order of names"),
    "matquery": dict(src="matquery.cc", deadline=(60, 600), witness=["fractions", "sets", "amount", "equal", "different"],
                     what="every query on a material",
                     bounds="quantities in [0,64] on the 2^-6 grid; arbitrary mixtures of three nuclides with masses in [0,4] on the 2^-4 grid for mass fractions, two-nuclide mixtures for comparison, seven fixed compositions (two with traces) for the rest"),
    "enrich": dict(src="matquery.cc", defines=("ENRICH",), deadline=(60, 600), witness=["balance", "value", "refused", "assay", "any uranium"],
                   what="the mass balance of enrichment and uranium assays",
                   bounds="products in [0,64] on the 2^-4 grid, assays in [0,1] on the 2^-4 (thorough 2^-6) grid with tails < feed <= product; any uranium on the 2^-20 grid; seven fixed compositions, two with traces"),
    "sqlite": dict(src="sqlite.cc", deadline=(60, 900), witness=["types", "reopened", "refused", "conditions", "no conditions", "one simulation of several"],
                   what="recording to and querying a database",
                   bounds="3 rows in two tables, written in batches of 1 or 2, with integers in [-4,4] and reals in [-8,8] on the 2^-8 grid; up to 2 conditions with symbolic bounds; the database reopened by a second simulation; unsupported values in between; all 26 container and text types with a few fixed values"),
    "symfunc": dict(src="symfunc.cc", deadline=(60, 600), witness=["refused", "three pieces", "added", "removed", "registered", "unregistered", "copied"],
                    what="piecewise demand functions; producers, their managers and the supply",
                    bounds="up to 3 linear pieces of slopes 1, -2, 3 (thorough: any of 0, 1, -2, 3), starts and intercepts in [-8,8], arguments in [-16,16] on the 2^-4 grid; 2 producers, 2 managers, 2 commodities, 3 (thorough 4) operations, capacities in [0,16]"),
    "position": dict(src="symfunc.cc", defines=("POSITION",), deadline=(60, 600), witness=["set", "refused"],
                     what="setting and reading positions", bounds="latitudes in [-128,128] and longitudes in [-256,256] on the 2^-12 grid"),
    "inventory": dict(src="inventory.cc", deadline=(60, 600), witness=["recorded", "moved", "series", "three materials"],
                      what="a run that records inventories and time series",
                      bounds="2 steps, 2 facilities with up to 3 materials and a product of quantity in [0,64] on the 2^-6 grid, an amount taken out at either step, symbolic time series, every combination of what is recorded, one facility perhaps leaving"),
    "agents": dict(src="inventory.cc", defines=("AGENTS",), deadline=(60, 600), witness=["built", "left", "ancestor", "printed", "taken", "names"],
                   what="histories of agents built and decommissioned under each other; names registered and looked up",
                   bounds="one institution and 5 (thorough 6) builds or decommissions of two prototypes under any parent; 3 registrations of packages, transport units, recipes and prototypes under two names"),
    "recipectx": dict(src="recipectx.cc", deadline=(60, 600), witness=["held", "removed", "copied", "named again"],
                      what="histories of a commodity/recipe context, cloned and restored",
                      bounds="4 (thorough 5) operations, two commodities in and out, three recipes, two resources"),
    "archetype": dict(src="archetype.cc", cycpp=("cycpp/arch_all.h",), deadline=(60, 600), witness=["clone", "restored", "inventories", "all given", "defaults", "some given", "nested clone", "nested restored", "nested input", "nested defaults", "another clone", "another restored", "more input", "more defaults"],
                      what="the code generated for three annotated archetypes (35 state variables of every kind, two inventories)", bounds="numbers in [-64,64] on the 2^-10 grid and integers in [-9,9]; containers of up to two or three elements; every subset of the optional variables"),
    "reference": dict(src="reference.cc", cycpp=("agents/sink.h", "agents/sink.cc", "agents/source.h", "agents/source.cc", "agents/k_facility.h", "agents/k_facility.cc"), deadline=(60, 600),
                      witness=["both ways", "several", "limited life", "traded", "full"],
                      what="simulations of the reference facilities, initialised from input documents",
                      bounds="2 (thorough 3) steps; a source and a sink, two of each, two facilities with conversion factors trading both ways, or ones with limited life; capacities in [0,16] and inventory sizes in [0,24] on the 2^-4 grid; conversion factors 1/2, 1 and 2"),
    "decay": dict(src="decay.cc", deadline=(60, 600), witness=["chain", "put off", "decayed", "split", "transmuted", "merged"],
                  what="histories of decaying compositions and materials",
                  bounds="3 (thorough 4) decays along any route by 0 to 3 steps; 3 decays, splits and changes of a material (the last a decay) at times up to 3 steps apart in every decay mode, quantities in [1/2,64] on the 2^-4 grid, two lengths of step; a linear decay law of one nuclide stands in for the matrix exponential and the decay data, which are not in the repository"),
}
PROPS = {
    "C30": dict(harnesses=["decay"]),
    "C01": dict(harnesses=["res_qty"]),
    "C02": dict(harnesses=["mat_comp"]),
    "C03": dict(harnesses=["compmath"]),
    "C04": dict(harnesses=["resbuf_prod", "resbuf_bulk"]),
    "C05": dict(harnesses=["resmap"]),
    "C06": dict(harnesses=["invtracker"]),
    "C07": dict(harnesses=["greedy"]),
    "C08": dict(harnesses=["precond", "greedy_order"]),
    "C09": dict(harnesses=["prog"]),
    "C10": dict(harnesses=["xlate"]),
    "C12": dict(harnesses=["timer"]),
    "C13": dict(harnesses=["lifecycle"]),
    "C14": dict(harnesses=["restrack_prod", "restrack_mat"]),
    "C15": dict(harnesses=["recorder"]),
    "C17": dict(harnesses=["package"]),
    "C18": dict(harnesses=["transport"]),
    "C19": dict(harnesses=["buypolicy"]),
    "C20": dict(harnesses=["sellpolicy"]),
    "C29": dict(harnesses=["rng"]),
    "C22": dict(harnesses=["restart"]),
    "C16": dict(harnesses=["sqlite"]),
    "C21": dict(harnesses=["inventory"]),
    "C23": dict(harnesses=["agents"]),
    "C24": dict(harnesses=["recipectx"]),
    "C25": dict(harnesses=["symfunc"]),
    "C28": dict(harnesses=["position"]),
    "C26": dict(harnesses=["matquery"]),
    "C37": dict(harnesses=["reference"]),
    "C36": dict(harnesses=["archetype"]),
    "C32": dict(harnesses=["loader"]),
    "C38": dict(harnesses=["building"]),
    "C39": dict(harnesses=["convert"]),
    "C33": dict(harnesses=["enrich"]),
    "C11": dict(harnesses=["market_prod", "market_mat"]),
}
