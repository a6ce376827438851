"""Writes properties.jsonl and MANIFEST.json.  Run by hand: python3 tools/gen.py"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pylattica/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, level_note):
    PROPS.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=[S + f for f in files],
                            mechanism=[dict(name=n, where=S + w) for n, w in mech])),
        note=level_note))


P("C01", "Periodic wrapping and coordinate conversion",
  "Wrapping a coordinate into a lattice moves it by whole lattice vectors along periodic directions only, leaves it "
  "inside the unit cell (a coordinate on a cell boundary up to floating point noise counts as on it), and wrapping "
  "again changes nothing. Fractional to Cartesian conversion and back is the identity, and scaling a lattice "
  "multiplies each vector and keeps which directions are periodic.",
  ["inputs", "configurations"],
  "every coordinate (grid fractions and float noise around them) in every lattice shape and mix of periodic directions",
  "The tests wrap a handful of points in square and cubic cells; the boundary and float-noise cases are single points "
  "of a continuum and depend on cell shape and on which directions are periodic.",
  ["core/lattice.py"],
  [("wrapping", "core/lattice.py:periodize"), ("conversion matrices", "core/lattice.py:Lattice"),
   ("scaling", "core/lattice.py:Lattice.get_scaled_lattice")],
  "Coordinates are integer solver variables over a grid plus a noise term; lattice shapes are a fixed list. Float "
  "arithmetic is modelled as exact rationals whose near-integer coefficients are snapped; every path is replayed on "
  "the real floats.")
P("C02", "A site is found at every periodic image of its location, and nowhere else",
  "A site added to a structure is found when looking up its own location or any of its images along periodic "
  "directions, including ones differing by floating point noise, and looking up any other place finds nothing or the "
  "site that is there. Adding a second site at an image of an occupied place is refused and leaves the structure as "
  "it was; identifiers are consecutive, and site lookups by class return exactly the sites of that class.",
  ["inputs", "configurations", "histories"],
  "every pair of site locations and every query point on a grid up to two cells away, every lattice shape and mix of "
  "periodic directions, every float perturbation below rounding",
  "The tests look up a few exact points; a lookup failure depends on the relation between the site, the image and "
  "the rounding of both.",
  ["core/periodic_structure.py", "core/lattice.py"],
  [("lookup key", "core/periodic_structure.py:PeriodicStructure._transformed_coords"),
   ("adding", "core/periodic_structure.py:PeriodicStructure.add_site"),
   ("lookup", "core/periodic_structure.py:PeriodicStructure.site_at")],
  "Locations are solver variables on a 1/8 (hexagonal: 1/4) grid; coordinates exactly on a rounding tie of the third "
  "decimal are outside the bounds.")
P("C03", "Built structures are the motif repeated once per cell",
  "A structure built from a lattice, a motif and a number of repetitions has exactly one site per cell and motif "
  "entry, at that entry's place in that cell and of its class, whether the motif is given in Cartesian or fractional "
  "coordinates. Its lattice is the original one scaled by the repetitions, and a size of the wrong dimension is "
  "refused.",
  ["inputs", "configurations"],
  "every placement of motif entries, every lattice shape and periodicity, every size within the bounds",
  "The tests build orthogonal grids, for which wrong cell offsets are invisible; skewed cells with several motif "
  "entries are not tested.",
  ["core/structure_builder.py", "core/periodic_structure.py", "structures/square_grid/structure_builders.py",
   "structures/honeycomb/structure_builders.py"],
  [("tiling", "core/periodic_structure.py:PeriodicStructure.build_from"),
   ("size handling", "core/structure_builder.py:StructureBuilder.build")],
  "Motif placement symbolic on a grid; sizes up to 3 per direction quick (5 thorough).")
P("C04", "Periodic distance is the shortest image distance",
  "The distance between two points in a lattice is the smallest Euclidean distance between any of their images along "
  "the periodic directions (to the documented rounding), in skewed and partly periodic cells too. It is symmetric and "
  "unchanged when either point moves by whole lattice vectors.",
  ["inputs", "configurations"],
  "every pair of points on a grid spanning several cells, every lattice shape and mix of periodic directions",
  "The tests compare single pairs in square and hexagonal cells; the minimum image depends on where in a skewed cell "
  "the difference vector falls.",
  ["core/lattice.py"],
  [("minimum image", "core/lattice.py:pbc_diff_cart"), ("images", "core/lattice.py:Lattice.periodic_images")],
  "Compared with the minimum over a box of images large enough for each listed lattice; points symbolic on a grid.")
P("C05", "Distance neighborhoods are exactly the sites within range",
  "A distance (or ring) neighborhood makes two different sites neighbors exactly when their periodic distance is "
  "below the cutoff (or strictly between the radii), with that distance as weight; it is symmetric, and no site is its "
  "own neighbor. The honeycomb neighborhood is the six adjacent cells.",
  ["inputs", "configurations"],
  "every cutoff and radius pair, every placement of sites within the bounds, several lattice shapes",
  "The tests count neighbors for two cutoffs on a square grid; which sites are in range is a property of every "
  "cutoff and every placement.",
  ["core/neighborhood_builders.py", "core/neighborhoods.py", "structures/honeycomb/neighborhoods.py"],
  [("distance", "core/neighborhood_builders.py:DistanceNeighborhoodBuilder"),
   ("ring", "core/neighborhood_builders.py:AnnularNeighborhoodBuilder"),
   ("graph", "core/neighborhoods.py:Neighborhood")],
  "Sites and radii symbolic on a grid; at most 4 free sites.")
P("C06", "Offset neighborhoods are exactly the sites at the offsets",
  "A motif neighborhood gives a site exactly the other sites found at its location plus one of the offsets, wrapped "
  "along periodic directions and left out where there is no site, each once and weighted by the offset's length. Von "
  "Neumann and Moore neighborhoods of a given size are those for all integer offsets within that Manhattan or "
  "Chebyshev distance, in 2 and 3 dimensions.",
  ["inputs", "configurations"],
  "every set of offsets within the bounds, every grid size down to those where offsets wrap onto one another, open "
  "and periodic edges, every site",
  "The tests use single offset sets on large periodic grids; small grids, open edges and offsets that coincide after "
  "wrapping are not exercised.",
  ["core/neighborhood_builders.py", "core/distance_map.py", "structures/square_grid/neighborhoods.py"],
  [("offsets", "core/neighborhood_builders.py:MotifNeighborhoodBuilder"),
   ("ready-made", "structures/square_grid/neighborhoods.py")],
  "Offsets symbolic integers; grid sizes up to 4 per direction quick.")
P("C07", "Class-dependent and stochastic neighborhoods select correctly",
  "A class-dependent neighborhood gives each site the neighbors its own class's builder gives it, and none for a "
  "class without builder. A stochastic neighborhood gives, at every request and whatever the random draw, the neighbors "
  "of one of its builders, every builder can be drawn, and the ready-made pseudo-hexagonal and pseudo-pentagonal ones "
  "draw from the documented patterns.",
  ["inputs", "configurations", "schedules"],
  "every random draw, every assignment of classes to sites, every site",
  "The tests sample draws and one class layout; the draw is universally quantified.",
  ["core/neighborhood_builders.py", "core/neighborhoods.py", "structures/square_grid/neighborhoods.py"],
  [("class choice", "core/neighborhoods.py:SiteClassNeighborhood"),
   ("random choice", "core/neighborhoods.py:StochasticNeighborhood")],
  "Random draws are solver variables.")
P("C08", "State updates change exactly what they name",
  "Any sequence of site, general and batch updates leaves a state in which each named key holds the last value "
  "written to it and everything else is as before; unknown sites come into being with their identifier. Copies are "
  "independent of the original, the dictionaries a caller passes in are not modified or aliased, and equality means "
  "equal contents.",
  ["inputs", "histories"],
  "every sequence of up to five operations over symbolic sites, keys and values, in each of the update formats",
  "The tests check a few fixed operations; aliasing and overwriting depend on which sites and keys coincide and in "
  "which order operations come.",
  ["core/simulation_state.py"],
  [("merging", "core/simulation_state.py:SimulationState.set_site_state"),
   ("batch", "core/simulation_state.py:SimulationState.batch_update"),
   ("copy", "core/simulation_state.py:SimulationState.copy")],
  "Site ids and values symbolic; histories up to 5 operations.")
P("C09", "Every update format a rule may return means the same thing",
  "What a rule returns for a site - nothing, values for that site, values per site, or a full update with any of its "
  "parts - is applied with the meaning of that format, accumulates over the sites of a step without losing what other "
  "sites returned, and leaves the rule's own objects unmodified. A single-site update with no site to apply it to is "
  "refused.",
  ["inputs", "programs"],
  "every combination of formats returned for up to three sites, with symbolic targets and values",
  "The tests check a handful of single merges; losing updates needs a combination of formats across sites.",
  ["core/runner/common.py", "core/runner/synchronous_runner.py"],
  [("merging", "core/runner/common.py:merge_updates"), ("batch", "core/runner/synchronous_runner.py:_step_batch")],
  "Formats, targets and values symbolic; different sites do not write the same target (last writer wins whole, a "
  "documented limitation).")
P("C10", "Synchronous steps see only the previous step",
  "In a synchronous run every site's rule is applied once per step and sees exactly the state at the end of the "
  "previous step, whatever other sites do in the same step and in whichever order. The run has the asked number of "
  "steps, its output is its last step, its first step is the state it was given, and neither that state nor anything "
  "reachable from the result changes while it runs or when the same controller runs again.",
  ["inputs", "programs", "histories"],
  "every initial state and every rule within a family of rules with symbolic tables, formats and neighbors, up to "
  "three steps",
  "The tests run one counting rule; a leak of a same-step update is only visible for rules that read neighbors and "
  "states where that matters.",
  ["core/runner/synchronous_runner.py", "core/runner/base_runner.py", "core/basic_controller.py"],
  [("step", "core/runner/synchronous_runner.py:SynchronousRunner._take_step"),
   ("run", "core/runner/base_runner.py:Runner.run")],
  "Up to 4 sites and 3 steps; the rule is a symbolic function of what it reads.")
P("C11", "Parallel runs equal serial runs for every schedule",
  "A parallel synchronous run gives the same steps, output and history as the serial run of the same rule and state, "
  "for every number of workers, every number of sites, every distribution of work over the workers and every order in "
  "which they work.",
  ["schedules", "inputs", "configurations"],
  "every worker count and assignment of batches to workers, every initial state and rule in a family with symbolic "
  "parameters",
  "The tests run one rule with the machine's own worker count and whatever schedule the machine happens to take.",
  ["core/runner/synchronous_runner.py"],
  [("distribution", "core/runner/synchronous_runner.py:SynchronousRunner._take_step_parallel"),
   ("worker", "core/runner/synchronous_runner.py:_step_batch_parallel")],
  "The process pool is replaced by a model: workers are copies of the modules' state taken when the pool starts, task "
  "arguments are copied, and which worker takes which batch is a solver variable. Counterexamples are replayed with "
  "real forked processes.")
P("C12", "Asynchronous runs process sites in queue order, one update per step",
  "In an asynchronous run each step applies the rule to the site at the front of the queue, in the state left by all "
  "earlier steps; sites the rule asks for next are visited first come first served, and a random site is drawn only "
  "when the queue is empty. The run ends early only when there is nothing to visit, refuses to start without a site, "
  "and its history replays to its output.",
  ["inputs", "programs", "schedules", "histories"],
  "every draw of random sites, every pattern of follow-up sites and update formats, every initial state, up to four "
  "steps",
  "The tests run single scripted controllers; the order matters only for combinations of follow-ups and draws.",
  ["core/runner/asynchronous_runner.py", "core/basic_controller.py", "core/runner/common.py"],
  [("queue", "core/runner/asynchronous_runner.py:AsynchronousRunner._run"),
   ("random site", "core/basic_controller.py:BasicController.get_random_site")],
  "Draws, follow-ups and values symbolic; up to 4 steps and 3 sites.")
P("C13", "A result's steps are the initial state with the updates replayed",
  "Step n of a result is its initial state with the first n updates applied in order, however it is obtained: by "
  "number, by iterating over the steps, as first or last step, and before or after steps were cached at any interval. "
  "There is one more step than updates, and obtaining steps changes neither the initial state nor any other step.",
  ["inputs", "histories"],
  "every sequence of up to four updates in each format with symbolic sites and values, every cache interval and step "
  "number",
  "The tests read single steps of one result; the last step and cached steps at other intervals are not compared.",
  ["core/simulation_result.py"],
  [("replay", "core/simulation_result.py:SimulationResult.get_step"),
   ("iteration", "core/simulation_result.py:SimulationResult.steps"),
   ("cache", "core/simulation_result.py:SimulationResult.load_steps")],
  "Updates symbolic; up to 4 steps.")
P("C14", "Saved results load as the same history",
  "A result written to a file, or converted to a dictionary and through JSON, loads as a result with the same initial "
  "state, the same number of steps and the same state at every step, whichever formats its updates were in. Saving "
  "does not change the result.",
  ["inputs", "histories"],
  "every result with up to three updates in any of the formats, with symbolic sites, keys and values",
  "The tests round-trip one result in one update format; keys turn to strings in JSON and must be restored in every "
  "format.",
  ["core/simulation_result.py", "core/simulation_state.py"],
  [("saving", "core/simulation_result.py:SimulationResult.as_dict"),
   ("loading", "core/simulation_result.py:SimulationResult.from_dict")],
  "JSON text is modelled structurally (string keys, lists for tuples); the replay uses the real one and real files.")
P("C15", "Saved states, lattices, structures and simulations load as the same",
  "A state, lattice, structure or whole simulation converted to a dictionary, through JSON or a file, loads as one "
  "with the same contents: site identifiers, classes, values and locations, the lattice vectors and which directions "
  "are periodic. The loaded structure answers lookups like the original, and saving changes nothing.",
  ["inputs", "configurations"],
  "every state with symbolic sites and values and every structure with symbolic site locations, all lattices listed",
  "The tests round-trip one small simulation.",
  ["core/simulation.py", "core/simulation_state.py", "core/periodic_structure.py", "core/lattice.py"],
  [("structure", "core/periodic_structure.py:PeriodicStructure.from_dict"),
   ("state", "core/simulation_state.py:SimulationState.from_dict"),
   ("simulation", "core/simulation.py:Simulation")],
  "JSON modelled structurally; replay uses real files in a scratch directory.")
P("C16", "Game of Life variants follow their rule string",
  "For any birth/survival rule string, a cell is alive after a step exactly when it was dead and its number of living "
  "neighbors is among the birth digits, or alive and the number is among the survival digits, counting the eight "
  "surrounding cells with wrap-around. The named variants have the rules their names stand for.",
  ["inputs", "programs"],
  "every rule string of a shape, every pattern of living and dead cells around every cell",
  "The tests run a few patterns under standard Life; there are 2^9 neighborhoods for each of 2^18 rules.",
  ["models/game_of_life/controller.py", "structures/square_grid/neighborhoods.py"],
  [("rule", "models/game_of_life/controller.py:GameOfLifeController.get_state_update"),
   ("rule string", "models/game_of_life/controller.py:process_variant_string")],
  "Digits of the rule string and all cells symbolic; grids from 3x3 to 4x5.")
P("C17", "Growth fills empty cells with a most common neighboring phase",
  "In a growth step an occupied cell keeps its phase, an empty cell with occupied neighbors takes a phase no other "
  "phase outnumbers among them, and one without stays empty. Growing from seeds therefore only ever spreads the seeds' "
  "phases, and ends with the structure filled when the neighborhood reaches every cell within the steps taken. "
  "The growth model can be imported and used on its own.",
  ["inputs", "programs"],
  "every arrangement of phases around a cell and every neighborhood listed, every placement of seeds",
  "The tests grow from a couple of random seeds and check that something grew.",
  ["models/growth/growth_controller.py", "structures/square_grid/growth_setup.py"],
  [("rule", "models/growth/growth_controller.py:GrowthController.get_state_update"),
   ("setup", "structures/square_grid/growth_setup.py:GrowthSetup.grow")],
  "Phases symbolic over three names and empty.")
P("C18", "Starting states have the asked geometry",
  "The grid setups produce a state with one occupancy per site: all of one phase, split into two halves, a particle "
  "of exactly the sites closer to the center than the radius, given phases at given coordinates, or random phases "
  "from the list, for every random draw. Sites outside what was asked keep the background phase.",
  ["inputs", "configurations", "schedules"],
  "every size within the bounds, every radius, center, coordinate and random draw",
  "The tests count cells for one size and radius; random setups are sampled once.",
  ["structures/square_grid/grid_setup.py"],
  [("setups", "structures/square_grid/grid_setup.py:DiscreteGridSetup")],
  "Sizes up to 5, radii and centers symbolic, draws symbolic.")
P("C19", "Random seeds respect number, ratio and spacing",
  "Random site setup places exactly the asked number of non-background sites (the nearest whole number when a fraction is asked for), in numbers of each phase that differ "
  "from the asked ratio by less than one, with no two within the buffer of one another, or gives up with an error; "
  "this holds for every sequence of random draws. Without a buffer, only distinct sites are needed.",
  ["schedules", "inputs", "configurations"],
  "every sequence of random draws within the bounds, every ratio of two or three phases, sizes and buffers listed",
  "The tests sample a few seeds; a violation needs a particular sequence of draws.",
  ["structures/square_grid/grid_setup.py"],
  [("placement", "structures/square_grid/grid_setup.py:DiscreteGridSetup.setup_random_sites")],
  "Draw sequences up to a bounded number of rejected draws.")
P("C20", "Analyses count what is there",
  "Site filters return exactly the sites of the asked class satisfying every criterion, counts equal the number of "
  "those, phase fractions are counts over the number of sites and sum to one over the phases present. Over a result, "
  "all phases of all steps are listed, and fractions are those of the asked step.",
  ["inputs", "histories"],
  "every assignment of phases, values and classes to up to four sites, results up to three steps",
  "The tests count on one fixed state.",
  ["core/analyzer.py", "discrete/discrete_step_analyzer.py", "discrete/discrete_state_result_analyzer.py"],
  [("filter", "core/analyzer.py:StateAnalyzer.get_sites"),
   ("phases", "discrete/discrete_step_analyzer.py:DiscreteStepAnalyzer"),
   ("results", "discrete/discrete_state_result_analyzer.py:DiscreteResultAnalyzer")],
  "Phases and values symbolic.")
P("C21", "Pictures show each cell's color at its place",
  "A rendered state shows every site's color, and no other color, in the block of pixels (or voxel) at the site's "
  "coordinates, with the legend naming exactly the labels present with their colors; different phases get different "
  "colors as long as the palette suffices. A rendered result has one picture per drawn step, in order, for every "
  "distribution of the drawing over workers.",
  ["inputs", "schedules", "configurations"],
  "every assignment of phases to sites, cell sizes and grid sizes within the bounds, every schedule of the drawing "
  "workers",
  "The tests check that an image is produced.",
  ["visualization/square_grid_artist_2D.py", "visualization/square_grid_artist_3D.py",
   "visualization/cell_artist.py", "visualization/result_artist.py", "visualization/colors.py"],
  [("2-d", "visualization/square_grid_artist_2D.py:SquareGridArtist2D"),
   ("3-d", "visualization/square_grid_artist_3D.py:SquareGridArtist3D"),
   ("colors", "visualization/cell_artist.py:DiscreteCellArtist"),
   ("results", "visualization/result_artist.py:ResultArtist")],
  "The image, plotting and process pool libraries are replaced by recording models while solving; replays use the "
  "real ones.")
P("C22", "Conversion to and from pymatgen keeps sites, species and cell",
  "Converting a crystal structure gives a structure with one site per atom, of the atom's species, found at the atom's "
  "position, and a state whose occupancies are those species; repeating it repeats every atom. Converting back gives "
  "the same cell, species and fractional coordinates.",
  ["inputs", "configurations"],
  "every placement of two or three atoms on a grid in the cell, several cells",
  "The tests convert one stored crystal.",
  ["atomic/pymatgen_struct_converter.py"],
  [("to", "atomic/pymatgen_struct_converter.py:PymatgenStructureConverter.to_pylattica_structure_and_state"),
   ("from", "atomic/pymatgen_struct_converter.py:PymatgenStructureConverter.to_pymatgen_structure")],
  "pymatgen objects are replaced by plain records with the attributes used.")
P("C23", "Distance tables and boxes of points are exact",
  "A table of offset distances gives every listed offset its Euclidean length to two decimals, or its Manhattan "
  "length, and nothing for others. A box of points is exactly the integer points from the lower bounds up to but not "
  "including the upper ones, each once, in order.",
  ["inputs"],
  "every offset and every pair of bounds within a range, in one to three dimensions",
  "The tests check a few offsets and boxes.",
  ["core/distance_map.py", "core/coordinate_utils.py"],
  [("distances", "core/distance_map.py:DistanceMap"), ("boxes", "core/coordinate_utils.py:get_points_in_box")],
  "Offsets symbolic integers or grid fractions.")

NOT_APPLICABLE = {}

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in PROPS:
        f.write(json.dumps(x["p"]) + "\n")
checks, na = [], []
for x in PROPS:
    i = x["p"]["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"python3 check.py {i} --tier quick",
            thorough_cmd=f"python3 check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the Python source with Z3 (SMT), counterexamples replayed on the real code",
            level="model_checking",
            level_note=x["note"] + " Holds within the bounds the evidence lists; trusts Z3, the engine's models of "
                       "Python and library operations (cross-checked by replaying each explored path's model on the "
                       "untouched code)."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "No check built yet.")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="One engine (symx/), one harness module per property (props/). See DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
