#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with the checks by hand)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/pylattica/" + f for f in files],
            state=[dict(name=n, meaning=m, where="src/pylattica/" + w) for n, m, w in state],
            mechanism=[dict(name=n, where="src/pylattica/" + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Applying updates overlays exactly the named attributes and nothing else",
 "After updates are applied to a simulation state, every attribute named in the updates holds the new value, and every other attribute, every other site and the general state read exactly as before; a site that had no state yet then holds its own id plus the given attributes, and it appears in the list of sites and in the site count. "
 "This holds for updates to one site, to the general state, and for whole batches, where a batch is either a mapping of site ids to attributes or a mapping with a site section, a general section, or both. "
 "Applying updates never changes the update mapping the caller passed in, and reading a state never changes it.",
 ["inputs", "histories"],
 "every starting state, every site id, every set of attribute names and values, every batch of either layout (with or without a general section), and every sequence of such updates",
 "The tests apply a handful of fixed updates to one- and two-site states; they do not reach unnamed attributes of many sites, batches with only one section, repeated updates of one site, or falsy values and ids.",
 ["core/simulation_state.py"],
 [("set_site_state / set_general_state build a merged copy", "core/simulation_state.py:SimulationState.set_site_state"),
  ("batch_update dispatches on the layout of the batch", "core/simulation_state.py:SimulationState.batch_update")],
 [("_state", "mapping of SITES to per-site attribute mappings and GENERAL to the general attributes", "core/simulation_state.py")],
 ["get_site_state", "get_general_state", "site_ids", "size", "all_site_states"])

prop("C02", "A copied state is equal to and fully independent of its original",
 "A copy of a simulation state, and a state created from a given mapping, reads exactly like what it was made from, and two states compare equal exactly when all their site and general contents are equal. "
 "No later change to one of them, including an in-place change of a nested value such as a list stored as an attribute, is visible in the other or in the mapping it was created from. "
 "A state made from a structure has exactly one entry for every site of that structure, holding that site's id.",
 ["inputs", "histories"],
 "every state content (nested mutable values included) and every history of later updates to the original or the copy",
 "The tests compare one copy of a flat state before and after one update; sharing of nested containers and later multi-step histories are not reached.",
 ["core/simulation_state.py"],
 [("deep copy in the constructor", "core/simulation_state.py:SimulationState.__init__"), ("copy goes through the constructor", "core/simulation_state.py:SimulationState.copy"), ("equality compares the whole content", "core/simulation_state.py:SimulationState.__eq__")],
 [("_state", "content of the state", "core/simulation_state.py")], ["copy", "==", "from_struct"])

prop("C03", "A result reproduces the state after any step, however it is read",
 "For a result holding a starting state and n recorded steps, its length is n+1, and the state it returns for step k equals the starting state with the first k recorded updates applied in order, for every k from 0 to n; its first step is step 0 and its last step is step n. "
 "The answer is the same whether or not steps were preloaded at any interval, in whatever order steps are requested, and when more steps were recorded in between. "
 "Going through the steps one by one visits exactly steps 0 to n in order, each reading as its step at the moment it is visited, and neither reading nor preloading changes the starting state or the recorded updates.",
 ["inputs", "histories"],
 "every starting state, every sequence of recorded updates of either layout, every preload interval of at least 1, and every interleaving of recording, preloading and reading",
 "The tests read a three-step result once per accessor; intervals, interleavings of preloading with further recording, and the end points of the iteration are not explored.",
 ["core/simulation_result.py", "core/simulation_state.py"],
 [("replay of diffs onto a copy of the initial state", "core/simulation_result.py:SimulationResult.get_step"), ("cache of preloaded states", "core/simulation_result.py:SimulationResult.load_steps"), ("live replay", "core/simulation_result.py:SimulationResult.steps")],
 [("_diffs", "recorded updates, one per step", "core/simulation_result.py"), ("_stored_states", "preloaded states by step number", "core/simulation_result.py")],
 ["get_step", "first_step", "last_step", "steps", "len"])

prop("C04", "Combining rule responses loses nothing; per site the later response wins",
 "When the response of an update rule for a site is combined with the updates collected so far, the combination contains for every site and for every general attribute the response's entry if the response has one, and otherwise the entry collected so far. "
 "A response may be a mapping with a site and/or a general section, a mapping of integer site ids to attributes, a mapping of attributes for the site the rule was applied to, or nothing at all (which leaves the collected updates as they are, or yields an empty update if there are none yet); attributes given without any site to apply them to are rejected with an error. "
 "The response itself is never changed by being combined.",
 ["inputs"],
 "every response of each of the layouts, every collection of earlier updates including none, and every site id including 0",
 "Unit tests give one example per layout; they do not quantify over contents, overlap between the response and the collected updates, id 0, or empty sections.",
 ["core/runner/common.py"],
 [("dispatch on response layout", "core/runner/common.py:merge_updates")],
 (), ["updates recorded by a run"])

prop("C05", "A synchronous step applies the rule to each site once, on the pre-step state",
 "In a serial synchronous run of n steps, each step calls the update rule exactly once for every site of the current state, always with the state exactly as it stood at the end of the previous step, so no update of the step in progress is ever visible to the rule. "
 "The state after the step is the previous state overlaid with the combined responses, exactly n steps are recorded, each with those combined updates, and the output of the run reads like its last step. "
 "The starting state handed in by the caller is not changed by the run, and the result's step 0 equals it.",
 ["inputs", "histories", "programs"],
 "every starting state with at least one site, every update rule (any response layout, including none), and every number of steps",
 "The tests run two example rules for a few steps and look at one or two sites; visibility of in-progress updates, call counts and the frame of the caller's state are not quantified over rules and step counts.",
 ["core/runner/synchronous_runner.py", "core/runner/base_runner.py", "core/runner/common.py", "core/basic_controller.py"],
 [("batch of rule applications against one state", "core/runner/synchronous_runner.py:_step_batch"), ("apply and record after the batch", "core/runner/synchronous_runner.py:SynchronousRunner._run"), ("copies for result and live state", "core/runner/base_runner.py:Runner.run")],
 [("live_state", "state the run advances", "core/runner/base_runner.py")],
 ["recorded steps of the result", "calls received by the controller", "output"])

prop("C06", "A parallel run gives the same result as a serial run under every schedule",
 "For an update rule whose response depends only on the site and the state it is given, a parallel synchronous run records exactly the same steps, starting state and output as the serial run from the same starting state with the same number of steps. "
 "This holds for every number of workers, including more workers than sites and numbers that do not divide the number of sites, and for every way the operating system distributes the work among the workers, including a worker that receives no work in some steps. "
 "Every site is handed to exactly one worker in every step.",
 ["inputs", "schedules", "configurations"],
 "every starting state with at least one site, every worker count of at least 1, every number of steps, every deterministic rule, and every assignment of batches to workers",
 "The tests compare one growth run with whatever worker schedule happened; the dependence on which worker received which batch in earlier steps cannot be sampled by them.",
 ["core/runner/synchronous_runner.py"],
 [("splitting of the sites into batches", "core/runner/synchronous_runner.py:SynchronousRunner._take_step_parallel"), ("state shipped with each batch", "core/runner/synchronous_runner.py:_step_batch_parallel"), ("merging of batch results", "core/runner/synchronous_runner.py:SynchronousRunner._take_step_parallel")],
 [("mp_globals", "what the workers inherit at fork", "core/runner/synchronous_runner.py")], ["result of a parallel run"])

prop("C07", "An asynchronous run applies the rule once per step, in first-in-first-out order",
 "An asynchronous run first asks the controller for a site or a list of sites (by default a single id that belongs to the state), then in every step takes the oldest waiting site, calls the rule exactly once with the state reflecting all earlier steps, applies and records the response as that step's updates, and appends the follow-up sites the rule named in the order given. "
 "The controller is asked for new sites exactly when nothing is waiting after a step; the run ends after the requested number of steps, or earlier exactly when nothing is waiting and the controller offers nothing, and it fails with an error if the controller offers no site at the start. "
 "The number of recorded steps equals the number of rule applications, the output reads like the last step, and the caller's starting state is not changed.",
 ["inputs", "histories", "programs"],
 "every controller (single ids or lists of sites, with or without follow-up sites, any response layout), every starting state and every number of steps, including zero",
 "The tests run short example controllers; queue order over long histories, exhaustion at each possible step and the state seen by each call are not quantified.",
 ["core/runner/asynchronous_runner.py", "core/runner/base_runner.py", "core/basic_controller.py"],
 [("site queue", "core/runner/asynchronous_runner.py:AsynchronousRunner._run"), ("default choice of a site", "core/basic_controller.py:BasicController.get_random_site")],
 [("site_queue", "sites waiting for the rule", "core/runner/asynchronous_runner.py")], ["recorded steps", "calls received by the controller"])

prop("C08", "Wrapping into the cell is exact, and coordinate conversions are inverse",
 "Converting fractional to Cartesian coordinates gives the sum of the lattice vectors weighted by the fractional coordinates, and converting back gives the original coordinates. "
 "Wrapping moves a point by a whole number of lattice vectors along each periodic direction and by nothing along the others, ends with fractional coordinates in [0, 1) along every periodic direction, and changes nothing when applied again. "
 "A lattice scaled by given cell counts has the original vectors multiplied by the respective counts and the same periodic directions.",
 ["inputs", "configurations"],
 "every invertible lattice of any dimension, every combination of periodic directions (given as one flag or one per direction), every point and every cell count; up to floating-point rounding",
 "The tests check a few points of square and one hexagonal lattice; non-symmetric matrices, mixed periodicity, negative coordinates and other dimensions are not covered.",
 ["core/lattice.py"],
 [("periodize", "core/lattice.py:periodize"), ("matrix products", "core/lattice.py:Lattice.get_cartesian_coords"), ("scaled lattice", "core/lattice.py:Lattice.get_scaled_lattice")],
 [("vecs/_matrix/_inv_matrix/periodic", "lattice vectors, matrix, its inverse, periodic directions", "core/lattice.py")],
 ["get_cartesian_coords", "get_fractional_coords", "get_periodized_cartesian_coords", "get_scaled_lattice"])

prop("C09", "The periodic distance is symmetric, shift-invariant and the shortest separation",
 "The distance between two points of a lattice equals, to three decimals, the smallest Euclidean distance between the first point and any image of the second under whole lattice translations along the periodic directions. "
 "It is symmetric, zero for images of the same point, and does not change when either point is moved by a whole lattice translation along a periodic direction. "
 "Along directions that are not periodic no wrapping takes place.",
 ["inputs", "configurations"],
 "every lattice with mutually perpendicular vectors, and every other lattice for pairs whose shortest separation is below half its smallest cell height (beyond that see the known finding); every combination of periodic directions and every pair of points, away from ties of the rounding",
 "The tests evaluate a few pairs in square lattices; half-cell separations, mixed periodicity, skewed cells and points outside the cell are not covered.",
 ["core/lattice.py"],
 [("per-direction minimum image", "core/lattice.py:pbc_diff_frac_vec"), ("norm of the Cartesian difference", "core/lattice.py:pbc_diff_cart")],
 (), ["cartesian_periodic_distance", "pbc_diff_cart"])

prop("C10", "Site ids and locations stay in one-to-one correspondence",
 "Sites added to a structure receive the ids 0, 1, 2, ... in the order they were added, and looking a site up by id gives the class it was added with and its location wrapped into the cell and rounded to three decimals. "
 "Looking up a location gives the site added there, for the location itself and every periodic image of it, and nothing where there is no site; listing sites, classes and ids, optionally by class, gives exactly the added ones in order. "
 "Adding a site where one already is, or at a periodic image of it, is rejected and leaves the structure exactly as it was, and looking things up never changes the structure.",
 ["inputs", "histories", "configurations"],
 "every lattice and periodicity, every sequence of additions (accepted and rejected) and lookups; locations away from rounding ties and the cell boundary, see the known finding",
 "The tests add a few sites in a square cell; sequences with rejected additions, images along several directions, partially periodic lattices and classes that interleave are not covered.",
 ["core/periodic_structure.py", "core/lattice.py"],
 [("add_site", "core/periodic_structure.py:PeriodicStructure.add_site"), ("location lookup by transformed coordinates", "core/periodic_structure.py:PeriodicStructure._transformed_coords")],
 [("_sites", "sites by id", "core/periodic_structure.py"), ("_location_lookup", "id by transformed location", "core/periodic_structure.py"), ("site_ids", "ids in order", "core/periodic_structure.py")],
 ["site_at", "id_at", "class_at", "get_site", "sites", "site_ids", "add_site"])

prop("C11", "A built structure holds every motif site in every unit cell exactly once",
 "Building a structure from a lattice, cell counts and a motif gives a lattice with each vector multiplied by its count and, for every unit cell and every motif entry, exactly one site of that class at the entry's position shifted by that cell's whole multiples of the lattice vectors, and no other site. "
 "The motif may be given in Cartesian or in fractional coordinates, or as a plain list that gets a default class. "
 "A single number as the size means that many cells in every direction, and a size whose length does not match the dimension is rejected.",
 ["inputs", "configurations"],
 "every lattice (skewed and non-symmetric ones included) in any dimension, every motif with distinct positions inside the cell, every combination of cell counts and both coordinate conventions",
 "The tests count sites of equal-sided square grids and one fractional motif; unequal counts per direction, Cartesian motifs in skewed lattices and per-class completeness are not covered.",
 ["core/periodic_structure.py", "core/structure_builder.py", "core/coordinate_utils.py", "core/lattice.py", "structures/square_grid/structure_builders.py", "structures/honeycomb/structure_builders.py"],
 [("build_from", "core/periodic_structure.py:PeriodicStructure.build_from"), ("enumeration of cells", "core/coordinate_utils.py:get_points_in_box"), ("size handling", "core/structure_builder.py:StructureBuilder.build")],
 (), ["sites of the built structure", "its lattice"])

prop("C12", "Distance neighborhoods hold exactly the sites in range, with their distances",
 "In a neighborhood built from a cutoff, the neighbors of a site are exactly the other sites whose periodic distance to it is below the cutoff, each once and with that distance as its weight; in one built from an inner and an outer radius they are exactly those whose distance lies strictly between the two. "
 "A site is never its own neighbor, and being a neighbor is mutual. "
 "When the neighborhood is built for one site class only, exactly the sites of that class have neighbors, which may be of any class.",
 ["inputs", "configurations"],
 "every structure (several classes, skewed or partially periodic lattices), every cutoff and pair of radii",
 "The tests count neighbors on small square grids; exact membership, weights, mutual membership and class restriction are not quantified.",
 ["core/neighborhood_builders.py", "core/neighborhoods.py", "core/lattice.py", "structures/honeycomb/neighborhoods.py"],
 [("distance filter", "core/neighborhood_builders.py:DistanceNeighborhoodBuilder.get_neighbors"), ("annulus filter", "core/neighborhood_builders.py:AnnularNeighborhoodBuilder.get_neighbors"), ("graph construction", "core/neighborhood_builders.py:NeighborhoodBuilder.get")],
 (), ["neighbors_of"])

prop("C13", "Motif neighborhoods contain exactly the sites the offset vectors lead to",
 "In a neighborhood built from offset vectors, the neighbors of a site are exactly the other sites found at its location plus one of the vectors (wrapped periodically), weighted by the vector's length to two decimals, and a vector that leads to no site contributes nothing; the von Neumann and Moore neighborhoods of size n use exactly the nonzero integer vectors with coordinate sum, respectively largest coordinate, of absolute values at most n. "
 "A neighborhood that depends on the site class gives each site the neighbors its own class's rule gives it and none to classes without a rule. "
 "A stochastic neighborhood answers every request with the complete neighbor set of one of its alternatives, and every alternative can be chosen.",
 ["inputs", "configurations", "histories"],
 "every structure (partially periodic ones included), every set of vectors, every size and dimension, every assignment of rules to classes and every list of alternatives",
 "The tests check neighbor counts of individual sites on small fully periodic grids; edges of non-periodic structures, larger sizes, mixed classes and composition of builders are not covered.",
 ["core/neighborhood_builders.py", "core/neighborhoods.py", "core/distance_map.py", "core/coordinate_utils.py", "structures/square_grid/neighborhoods.py"],
 [("motif lookup", "core/neighborhood_builders.py:MotifNeighborhoodBuilder.get_neighbors"), ("class dispatch", "core/neighborhoods.py:SiteClassNeighborhood"), ("random alternative", "core/neighborhoods.py:StochasticNeighborhood"), ("vector enumeration", "structures/square_grid/neighborhoods.py")],
 (), ["neighbors_of"])

prop("C14", "The Game of Life rule gives every cell the state its variant prescribes",
 "For every variant written as birth and survival counts, the rule makes a cell alive exactly when it is alive and its number of living neighbors is one of the survival counts, or it is dead and that number is one of the birth counts, and dead otherwise. "
 "The neighbors are the up to eight distinct cells that touch it on the periodic grid. "
 "The rule changes nothing else and does not depend on the order of the cells.",
 ["inputs", "configurations", "programs"],
 "every variant string with digits 0 to 8, every periodic square grid and every alive/dead configuration",
 "The tests run one pattern under the standard variant; other variants and the full table of counts for living and dead cells are not covered.",
 ["models/game_of_life/controller.py", "structures/square_grid/neighborhoods.py"],
 [("rule", "models/game_of_life/controller.py:GameOfLifeController.get_state_update"), ("variant parsing", "models/game_of_life/controller.py:process_variant_string")],
 (), ["get_state_update", "steps of a run"])

prop("C15", "Growth only fills background cells, with a most frequent neighboring phase",
 "The growth rule changes a site only if it holds the background phase and has at least one neighbor holding another phase; it then gives the site a phase that no other non-background phase outnumbers among its neighbors, and otherwise it leaves the site unchanged. "
 "During growth a site that left the background phase never changes again, and no phase appears that was not there before. "
 "The growth setup returns the last state of such a run on the structure it was started on.",
 ["inputs", "histories"],
 "every structure, neighborhood, background phase, assignment of phases and number of steps",
 "The tests grow one small grid; ties, several phases, other neighborhoods and custom background phases are not covered.",
 ["models/growth/growth_controller.py", "structures/square_grid/growth_setup.py"],
 [("rule", "models/growth/growth_controller.py:GrowthController.get_state_update"), ("setup run", "structures/square_grid/growth_setup.py:GrowthSetup.grow")],
 (), ["get_state_update", "grow"])

prop("C16", "Analysis counts, fractions and phase lists agree with the actual site states",
 "A site query returns the ids of exactly those sites, in order, that have the requested class and satisfy all given conditions (or hold all given attribute values), and the matching count is the number of those ids. "
 "The count and fraction of a phase are the number of sites holding it and that number divided by the number of sites, the ratio of two phases is the quotient of their counts, and the phases present are exactly those held by some site, each once. "
 "For a result, the phases are those present in any of its steps from first to last, the final fractions are those of the last step for each of these phases, and analysis never changes the states or the result.",
 ["inputs", "histories"],
 "every state and result, every structure with several classes, every set of conditions and attribute values including falsy and missing ones, and every phase",
 "The tests query one fixed state with one or two conditions; phases that occur only in the last step, several conditions, missing attributes and class filters combined with conditions are not covered.",
 ["core/analyzer.py", "discrete/discrete_step_analyzer.py", "discrete/discrete_state_result_analyzer.py", "discrete/phase_set.py"],
 [("filter", "core/analyzer.py:StateAnalyzer.get_sites"), ("phase counts", "discrete/discrete_step_analyzer.py"), ("phases over all steps", "discrete/discrete_state_result_analyzer.py:DiscreteResultAnalyzer.all_phases")],
 (), ["get_sites", "get_sites_where_equal", "cell_count", "cell_fraction", "phases_present", "all_phases", "final_phase_fractions"])

prop("C17", "Saving and loading states, structures, simulations and results is lossless",
 "Converting a state, lattice, structure, simulation or result to its dictionary form, through JSON text or a file, and back gives an object equal in content: the same sites with the same ids, classes, locations and attributes, the same general state, the same lattice vectors and periodic directions, and for results the same starting state and the same state at every step. "
 "This holds for results as recorded by any runner and for results whose steps were recorded directly. "
 "Saving leaves the saved object unchanged, and the dictionary form of a structure shares nothing with it.",
 ["inputs", "histories"],
 "every state whose attributes are JSON values, every structure whose sites lie away from rounding ties and the upper cell boundary, every lattice, every simulation, and every result with updates of either layout",
 "The tests round-trip one small example each, with single-digit ids and hand-written updates; results of real runs, general updates, partially periodic lattices and more than ten sites are not covered.",
 ["core/simulation_state.py", "core/simulation_result.py", "core/simulation.py", "core/periodic_structure.py", "core/lattice.py"],
 [("as_dict / from_dict pairs", "core/simulation_result.py:SimulationResult.from_dict"), ("files", "core/simulation.py:Simulation.to_file")],
 (), ["as_dict", "from_dict", "to_file", "from_file"])

prop("C18", "Generated starting states contain exactly the requested phases where requested",
 "A solid start holds the given phase at every site; an interface holds the first phase exactly where the first coordinate is below half the side length (rounded down) and the second elsewhere; a particle holds its phase exactly at the sites closer to its center than the radius and leaves the rest; given coordinates hold their phases and all other sites the background; noise holds only the given phases. "
 "Randomly placed sites number exactly the rounded request, all others hold the background, each phase gets fewer than one more than its proportional share, and no placed site lies within the buffer (in cells, diagonals and wrapping included) of another. "
 "If too many placement attempts are needed an error is raised instead of returning another state.",
 ["inputs", "configurations", "histories"],
 "every grid size and dimension two or three, every set of phases (background not among them) and ratios, every radius, center, coordinate list, buffer (including none) and every sequence of random choices",
 "The tests build one example of each start with one random seed; the exact counts and spacing for every random outcome, odd sizes, three dimensions and uneven ratios are not covered.",
 ["structures/square_grid/grid_setup.py", "core/distance_map.py"],
 [("setups", "structures/square_grid/grid_setup.py:DiscreteGridSetup"), ("random placement with buffer", "structures/square_grid/grid_setup.py:DiscreteGridSetup.setup_random_sites")],
 (), ["state of the returned simulation"])

prop("C19", "A rendered square grid shows every cell in the color of its state",
 "In the picture of a two-dimensional square grid, every pixel of a cell's block (outside the optional step label) has the color assigned to that cell's state, with the first coordinate running to the right and the second upward, for every cell size; states without an assigned color are black. "
 "The legend lists every label that occurs in the state with the color its cells are drawn in, unless a legend was given, and the i-th phase of a phase list is assigned the i-th color of the palette, starting over at its end. "
 "An animation has one picture per selected step, in order, each showing that step.",
 ["inputs", "configurations"],
 "every square grid, every state, every color assignment and phase list of any length, every cell size and drawing frequency",
 "The tests only check that pictures are produced; orientation, colors, legend entries and step order are not looked at.",
 ["visualization/square_grid_artist_2D.py", "visualization/cell_artist.py", "visualization/helpers.py", "visualization/result_artist.py", "visualization/structure_artist.py"],
 [("pixel blocks", "visualization/square_grid_artist_2D.py:SquareGridArtist2D._draw_image"), ("colors and legend", "visualization/cell_artist.py"), ("frames", "visualization/result_artist.py:ResultArtist._get_images")],
 (), ["pixels of the image", "get_legend", "get_color_from_cell_state"])

prop("C20", "Conversion to and from pymatgen keeps cell, sites, species and occupancy",
 "A lattice converted in either direction keeps its vectors and its periodic directions. "
 "A pymatgen structure converted to a structure builder carries exactly its species at its fractional positions, and converted to a structure with state it has one site for each original site, at the same place in the cell, whose class and occupancy are the species there. "
 "A structure converted to pymatgen has the same cell and exactly one atom per site, in site order, of the site's class at the site's position.",
 ["inputs", "configurations"],
 "every three-dimensional lattice (skewed and partially periodic ones included) and every set of distinct sites whose classes are chemical species",
 "The tests convert one silicon-like and one zirconium cell; skewed cells with several species in mixed order and partial periodicity are not covered.",
 ["atomic/pymatgen_struct_converter.py", "core/structure_builder.py", "core/periodic_structure.py"],
 [("lattice conversion", "atomic/pymatgen_struct_converter.py:PymatgenStructureConverter.to_pylattica_lattice"), ("structure conversion", "atomic/pymatgen_struct_converter.py:PymatgenStructureConverter.to_pylattica_structure_and_state")],
 (), ["converted objects"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
