"""writes properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["pyDeltaRCM/" + f for f in files],
                               state=[dict(name=a, meaning=b, where="pyDeltaRCM/" + w) for a, b, w in state],
                               mechanism=[dict(name=a, where="pyDeltaRCM/" + w) for a, w in mech],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Water routing probabilities are a valid, physically weighted choice",
  "For every non-land cell the nine routing probabilities of water are non-negative, sum to one, are zero for staying in place, "
  "for land neighbours and for neighbours that would lie upstream of the grid, and are zero for dry neighbours (depth below the dry "
  "threshold) whenever a wet allowed neighbour exists. Where some allowed neighbour has positive weight, they are proportional to (depth x "
  "water-weight modifier)^theta times (gamma x normalised downhill water-surface slope + (1-gamma) x normalised alignment with the local "
  "discharge vector), each normalised over wet non-land neighbours (in the first row including the edge-padded upstream copies); otherwise they are uniform over the wet allowed neighbours, or over all "
  "allowed neighbours if none is wet.",
  ["inputs", "configurations"], "every depth, stage, discharge, cell-type and weight-modifier field, every cell, every theta, gamma in [0,1] and dry threshold",
  "Unit tests evaluate a few hand-made 3x3 neighbourhoods and compare stored numbers; the guarantee is over all fields and cells.",
  ["water_tools.py", "shared_tools.py"],
  [("_get_weight_at_cell_water", "water_tools.py"), ("_get_water_weight_array", "water_tools.py"), ("get_weight_sfc_int", "shared_tools.py"), ("custom_pad", "shared_tools.py")],
  [("water_weights", "(L, W, 9) probabilities", "water_tools.py")], ["model.water_weights after get_water_weight_array"])

p("C02", "Sediment routing probabilities are a valid, physically weighted choice",
  "For every cell from which a sediment parcel is routed, the nine routing probabilities are non-negative, sum to one and are zero for "
  "staying in place, for land and for neighbours upstream of the grid. If some wet allowed neighbour is aligned with the local discharge they are "
  "proportional to (depth x sediment-weight modifier)^theta times that alignment and zero for dry cells (depth at or below the dry threshold); otherwise they are proportional to the "
  "inverse of the neighbour distance over all allowed neighbours, dry ones included.",
  ["inputs", "configurations"], "every depth, stage, discharge, cell-type and modifier field, every cell with an allowed neighbour, sand and mud exponents",
  "Tests compare stored numbers for a handful of neighbourhoods.",
  ["sed_tools.py", "shared_tools.py"],
  [("_get_weight_at_cell_sediment", "sed_tools.py"), ("BaseRouter._choose_next_location", "sed_tools.py")],
  (), ["weights handed to the random choice for each sediment step"])

p("C03", "Parcels walk cell by cell inside the domain and never enter land",
  "Every water or sediment parcel starts in an inlet cell, and each step moves it to one of the eight adjacent on-grid cells to which its routing "
  "probabilities give positive probability, so it never enters land or leaves the grid. A parcel stops when it reaches a domain-edge cell or the "
  "maximum number of steps. The only exception is a water parcel that revisits a cell beyond the inlet section of its own path: it is moved about five cells directly away from the inlet "
  "mouth (from row 1 of the domain-centre column), clipped to stay beyond the inlet length and off the outermost cells of the domain.",
  ["inputs", "histories"], "every field configuration, every sequence of random draws in the open interval, every step of every parcel",
  "Tests follow single steps with mocked random numbers; the guarantee is for every step of every walk.",
  ["water_tools.py", "sed_tools.py", "shared_tools.py"],
  [("run_water_iteration", "water_tools.py"), ("_choose_next_directions", "water_tools.py"), ("_calculate_new_inds", "water_tools.py"),
   ("_check_for_loops", "water_tools.py"), ("random_pick", "shared_tools.py"), ("get_start_indices", "shared_tools.py"), ("_route_one_parcel", "sed_tools.py")],
  [("free_surf_walk_inds", "recorded parcel paths", "water_tools.py")], ["recorded parcel paths", "cells touched by sediment routing"])

p("C04", "Sediment volume is conserved by every parcel",
  "When a sand or mud parcel is routed, the volume it carries plus the volume of the bed (elevation summed over cells times cell area) never changes: each step "
  "adds to the bed exactly what the parcel loses and takes from the bed exactly what it gains, in the cell the parcel occupies and nowhere else. Each parcel starts with the "
  "same fixed volume, and the whole parts of (number of sediment parcels x bedload fraction) sand and (number x (1 - bedload fraction)) mud parcels are released per timestep.",
  ["inputs", "histories"], "every bed, stage and velocity field, every parcel path and every number of parcels",
  "Tests check single updates on tiny arrays; conservation must hold over whole runs for all inputs.",
  ["sed_tools.py"],
  [("BaseRouter._update_fields", "sed_tools.py"), ("SandRouter._deposit_or_erode", "sed_tools.py"), ("MudRouter._deposit_or_erode", "sed_tools.py"),
   ("sed_tools.route_all_sand_parcels", "sed_tools.py"), ("sed_tools.route_all_mud_parcels", "sed_tools.py")],
  [("Vp_res", "volume left in the parcel", "sed_tools.py"), ("eta", "bed elevation", "sed_tools.py")], ["bed elevation after sediment routing"])

p("C05", "Deposition and erosion follow the transport rules and limits",
  "Sand deposits only where the transported flux exceeds the local capacity (inlet flux x bedload fraction x (velocity/reference velocity)^beta) and erodes only where it is below capacity and velocity exceeds the sand "
  "erosion threshold; mud deposits the configured lag fraction, scaled by the velocity deficit, only below its deposition threshold, and erodes only above its erosion threshold, eroded volumes scaling with the excess velocity to the power beta and the local erosion modifier. One step never changes "
  "a cell by more than a quarter of its water volume (nothing deposits above the water surface), a parcel never deposits more than it carries, and deposited volumes are booked per cell for sand and mud. The transported sand flux counts half of the volume a sand parcel then carries, per timestep and cell width, in the cell it is released in and, on every step, in both the cell it leaves and the cell it enters. After the change the cell's depth, speed (capped) and velocity direction agree with the new bed.",
  ["inputs", "configurations"], "every local velocity, depth, stage, bed and flux value and every threshold/exponent configuration",
  "Tests pin a few numeric cases; the rules must hold for all values including at thresholds.",
  ["sed_tools.py"],
  [("_deposit_or_erode", "sed_tools.py"), ("_compute_Vp_ero", "sed_tools.py"), ("_limit_Vp_change", "sed_tools.py"), ("_update_fields", "sed_tools.py"), ("_partition_sediment", "sed_tools.py")],
  (), ["bed, depth, velocity and deposited-volume fields after one parcel step"])

p("C06", "Velocity follows discharge and depth, capped and zero where dry",
  "After the velocity update every cell with depth above the dry threshold and positive discharge has speed equal to discharge divided by depth, capped at twice the reference velocity, "
  "and velocity components parallel to the discharge vector. Every other cell has zero speed and zero components.",
  ["inputs"], "every depth and discharge field, every cell", "Tests compare a few cells of a few fields.",
  ["water_tools.py"], [("update_velocity_field", "water_tools.py")], [("uw, ux, uy", "speed and components", "water_tools.py")], ["velocity fields"])

p("C07", "Water depth always equals stage minus bed, never negative",
  "At the end of every water iteration and of every completed timestep the water surface is nowhere below sea level before bed changes are applied, and the depth of every cell is exactly stage minus bed "
  "clipped at zero. At the end of every timestep the inlet cells of the first row again have their bed one channel depth below the water surface, and their depth equal to the channel depth.",
  ["inputs", "histories"], "every bed, stage and sea level, every timestep",
  "Tests check stored numbers of short runs.",
  ["water_tools.py", "iteration_tools.py"], [("finalize_water_iteration", "water_tools.py"), ("finalize_timestep", "iteration_tools.py"), ("apply_subsidence", "iteration_tools.py"), ("finalize_sediment", "sed_tools.py")],
  (), ["stage, depth, eta after each timestep"])

p("C08", "Discharge fields accumulate parcels and relax with the set weights",
  "During a water iteration every step of a parcel adds its unit step vector to the flow-direction field and half of the parcel discharge per cell width to the discharge-magnitude field, in the cell it leaves and in the cell it enters; a parcel that stops at the domain edge adds, at its last step, once more to the edge cell it stops in. At the end of the "
  "iteration the new discharge vector has that magnitude along the accumulated direction; it replaces the old field in the first timestep and afterwards is blended with it using the "
  "configured relaxation weight in the first iteration of a timestep and 2/(number of iterations) in later ones. The magnitude field equals the vector length, and inlet cells are reset to the prescribed inflow.",
  ["inputs", "configurations"], "every accumulated field, previous field, iteration index, timestep index and relaxation weight",
  "Tests check a few cells with default weights only.",
  ["water_tools.py"], [("update_Q", "water_tools.py"), ("_update_dirQfield", "water_tools.py"), ("_update_absQfield", "water_tools.py"), ("update_flow_field", "water_tools.py"), ("init_water_iteration", "water_tools.py")],
  (), ["qx, qy, qw after each water iteration"])

p("C09", "The water surface is rebuilt only from complete, valid parcel walks",
  "Each water parcel that reached the domain edge without being flagged as looping contributes, for every cell along its path before the edge cell, one visit and one surface elevation obtained by integrating the reference slope upstream from sea level at the edge; in the ocean the surface stays "
  "flat and the slope starts one step after the path, followed upstream, first meets channelised flow (fast or shallow). All other parcels contribute nothing. The new surface is the mean over visits, the previous water surface where unvisited, raised to at least sea level "
  "and the bed, then smoothed with the configured weights over non-land neighbours (edge cells untouched) and under-relaxed with the configured weight after the first timestep; in the very first timestep the stage is not replaced by it.",
  ["inputs", "configurations"], "every set of walks, every field and every smoothing/relaxation setting",
  "Tests cover single synthetic walks.",
  ["water_tools.py"], [("_accumulate_free_surface_walks", "water_tools.py"), ("compute_free_surface", "water_tools.py"), ("_smooth_free_surface", "water_tools.py"), ("finalize_free_surface", "water_tools.py")],
  (), ["stage after compute_free_surface"])

p("C10", "Flooding correction raises dry cells only to a wet neighbour's stage",
  "A dry cell is flooded exactly when some wet neighbouring cell has a water surface above the dry cell's bed, and its stage is then the highest stage among its wet neighbours. All other cells keep their stage, whatever the sign of sea level and wherever the cell lies in the domain.",
  ["inputs"], "every depth, stage and bed field, every cell including domain borders", "Tests check hand-made patches with non-negative stage.",
  ["water_tools.py"], [("flooding_correction", "water_tools.py"), ("get_wet_mask_nh", "water_tools.py"), ("build_weight_array", "water_tools.py")],
  (), ["stage after the flooding correction"])

p("C11", "Topographic diffusion moves bed downslope, conservatively, off walls",
  "Each diffusion sweep changes the bed of a cell by the diffusion multiplier (timestep / number of sweeps x diffusion coefficient / 2 / cell area) times the sum, over its eight neighbours, of bed difference times the summed sediment flux of the pair (neighbours outside the grid count as zero bed and flux), so that what one interior cell gains its neighbour loses. Land cells and the first row "
  "are never changed, and exactly the configured number of sweeps is applied.",
  ["inputs", "configurations"], "every bed, sediment flux and cell-type field and every number of sweeps", "Tests compare one small field.",
  ["sed_tools.py"], [("topo_diffusion", "sed_tools.py")], (), ["eta after topographic diffusion"])

p("C12", "Sand fraction and active layer stay valid fractions tied to deposits",
  "After a timestep every cell in which sand (or a non-negligible volume of mud, above 1e-6) was deposited has surface sand fraction and active-layer sand fraction equal to deposited sand over total deposited volume. Of the other cells, those eroded "
  "below the bottom of the active layer expose the configured background sand fraction, those eroded less expose the active-layer fraction, and all others keep theirs; their active layer is unchanged. Both fractions always lie between 0 and 1.",
  ["inputs"], "every deposited-volume and bed-change field", "Tests check a few cells.",
  ["iteration_tools.py"], [("compute_sand_frac", "iteration_tools.py")],
  [("active_layer, sand_frac", "fractions", "iteration_tools.py")], ["sand_frac, active_layer"])

p("C13", "The clock advances by one timestep per update and saving follows it",
  "Every update advances model time by exactly the timestep and the step counter by one, runs the sub-models in the fixed order with subsidence, sediment finalisation and output in between, and refuses to run after finalisation. Output and checkpoints are written at initialisation, and then exactly when "
  "the time accumulated since the last write reaches the configured interval, after which the accumulated time restarts; loading a checkpoint counts as writing it.",
  ["histories", "configurations"], "every number of updates, timestep length, save interval and checkpoint interval", "Tests run two or three updates with particular intervals.",
  ["model.py", "iteration_tools.py"], [("update", "model.py"), ("finalize_timestep", "iteration_tools.py"), ("output_data", "iteration_tools.py"), ("output_checkpoint", "iteration_tools.py")],
  [("_time, _time_iter, _save_time_since_data", "clock", "model.py")], ["time, time_iter, number of saved records"])

p("C14", "A checkpoint restores exactly the saved model state",
  "Loading a checkpoint restores model time, step and save counters, time since the last save, sea level, every bed, water, flow and sediment-fraction field, and the state of the random generator, each equal to what was saved, so that a resumed run continues as the uninterrupted one. "
  "An existing output file is carried over with all its records, metadata and variable attributes and continued, not restarted.",
  ["histories", "inputs"], "every model state at a save, every later resume", "Tests resume a few short runs.",
  ["iteration_tools.py", "init_tools.py"], [("save_the_checkpoint", "iteration_tools.py"), ("load_checkpoint", "init_tools.py"), ("get_random_state / set_random_state", "shared_tools.py")],
  (), ["checkpoint.npz", "model state after resume", "pyDeltaRCM_output.nc after resume"])

p("C15", "The output file holds the model state at each save, at the right index",
  "Every save appends exactly one record and has written it to the file when it returns: the record's time equals model time and each requested variable's record equals the corresponding field at that moment, with earlier records unchanged. Each requested figure is saved once per save, of that field at that time, under its own name and number (or as the latest when overwriting was configured). Requested variables and only those are stored, coordinates and constant metadata equal the "
  "model's, and time-varying metadata records equal the values in effect at the save. (The start of subsidence is stored in whole seconds; a blank record in a newly created file is overwritten by the first save.)",
  ["histories", "configurations"], "every selection of output variables and every number of saves", "Tests open files from a few configurations.",
  ["iteration_tools.py", "init_tools.py", "model.py"], [("save_grids_and_figs", "iteration_tools.py"), ("init_output_file", "init_tools.py"), ("save_* setters", "model.py")],
  (), ["pyDeltaRCM_output.nc"])

p("C16", "Existing output is never destroyed unless explicitly requested",
  "Starting a model whose target output file already exists raises an error and leaves that file untouched unless overwriting was configured or the run resumes from a checkpoint. A multi-job setup refuses job output folders that already exist unless resuming was configured, and never touches what is in them.",
  ["configurations", "histories"], "every combination of existing files, overwrite and resume settings", "Tests cover the single default combination.",
  ["init_tools.py", "preprocessor.py"], [("init_output_file", "init_tools.py"), ("write_input_file / prepare job folders", "preprocessor.py")],
  (), ["files in the output directory"])

p("C17", "Multi-job expansion yields exactly the specified jobs",
  "A matrix configuration produces one job for every element of the Cartesian product of its lists, an ensemble multiplies the jobs by the requested number with an independently drawn, recorded seed for each member, and a set produces one job per given combination; combined, every job appears exactly once. Each job gets its own output folder and configuration, in which the expanded keys "
  "have that job's values, and all other keys the base values; the table of job parameters agrees with the jobs; contradictory or malformed specifications are rejected.",
  ["configurations"], "every matrix, ensemble and set specification", "Tests cover a handful of matrices.",
  ["preprocessor.py"], [("expand_yaml_matrix/ensemble/set", "preprocessor.py"), ("write_yaml_config", "preprocessor.py")],
  (), ["job configuration files"])

p("C18", "A job runs for its configured duration and ends cleanly",
  "A job advances the model while model time is before its end time: the start time plus the configured number of timesteps times the timestep length, or the configured duration in seconds or years scaled by the intermittency factor; a duration given as an argument or on the command line overrides the input file's. It therefore takes exactly the configured number of timesteps, always finalises the model, and reports failure of a model error (a RuntimeError or ValueError) without "
  "losing other jobs; scaling between model and real time divides by intermittency and unit length, rejecting invalid factors and units.",
  ["configurations", "histories"], "every duration specification, timestep length, starting time and intermittency", "Tests check small integer cases where rounding is harmless.",
  ["preprocessor.py", "shared_tools.py", "model.py"], [("_BaseJob.__init__", "preprocessor.py"), ("_SerialJob.run", "preprocessor.py"), ("scale_model_time", "shared_tools.py"), ("finalize", "model.py")],
  (), ["number of updates performed", "model time at the end"])

p("C19", "Configuration: keyword over file over default, and invalid values rejected",
  "Every parameter takes the keyword value if given, else the value of the input file, else the documented default. A value of a type the parameter does not accept, or outside the range the parameter documents, is rejected with an error before the model is set up. (Parameters documented to accept null accept an explicit null; resume_checkpoint also accepts the folder to resume from; a boolean is not accepted for a number.)",
  ["configurations", "inputs"], "every parameter, every value of every type", "Tests try single bad values for some parameters.",
  ["init_tools.py", "model.py", "default.yml"], [("import_files", "init_tools.py"), ("property setters", "model.py")],
  (), ["model attributes after construction"])

p("C20", "Sea level and subsidence act at exactly the configured rate",
  "Each timestep sea level changes by exactly the sea-level-rise rate times the timestep length. When subsidence is enabled and model time has reached its start, each timestep lowers the bed by rate times the timestep then in effect in exactly the configured region (by default every cell beyond the inlet length) and nowhere else; otherwise the bed is not changed by subsidence.",
  ["inputs", "configurations"], "every rate, start time, region and bed", "Tests check one rate.",
  ["iteration_tools.py", "init_tools.py"], [("finalize_timestep", "iteration_tools.py"), ("apply_subsidence", "iteration_tools.py"), ("init_subsidence", "init_tools.py")],
  (), ["H_SL, eta"])

p("C21", "Derived boundary conditions always agree with the parameters",
  "All derived quantities (inlet size, discharges, parcel volumes, timestep, sediment flux, thresholds, diffusion multiplier) equal their defining formulas of the parameters after setup, and again after any supported change of channel velocity, width, depth, sediment concentration or bedload fraction. The sediment routers then use the current values. The velocity thresholds of deposition and erosion are fixed at setup from the reference velocity.",
  ["inputs", "histories", "configurations"], "every parameter value and every sequence of changes", "Tests set one value.",
  ["init_tools.py", "model.py"], [("create_boundary_conditions", "init_tools.py"), ("channel setters", "model.py"), ("init_sediment_routers", "init_tools.py")],
  (), ["derived attributes"])

p("C22", "The initial domain has the documented geometry",
  "For every domain at least three cells wide the initial domain consists of land in the inlet rows except a channel of the inlet width about the centre column, domain-edge cells along the three other sides and beyond the largest centred half circle, and ocean elsewhere; the inlet is exactly the channel columns. Initial depth is channel depth in the channel, basin depth in the ocean and zero on land, the "
  "water surface follows the reference slope over the inlet rows and is zero in the ocean, and the bed equals stage minus depth.",
  ["configurations"], "every domain size, cell size and inlet geometry", "Tests check one or two domains.",
  ["init_tools.py"], [("create_domain", "init_tools.py"), ("create_other_variables", "init_tools.py")],
  (), ["cell_type, stage, depth, eta, inlet at initialisation"])

p("C23", "Index, padding and direction helpers are exact for every grid",
  "Flat and two-dimensional indices convert into each other exactly as in the row-major layout, and out-of-range indices are rejected. Edge padding repeats the border cells on all four sides and corners and preserves the interior, and the nine step directions move a parcel by exactly the tabulated row, column and distance.",
  ["inputs"], "every shape, index and field", "Tests try single indices.",
  ["shared_tools.py", "init_tools.py"], [("custom_ravel, custom_unravel, custom_pad, get_steps", "shared_tools.py"), ("set_constants", "init_tools.py")],
  (), ["return values"])

p("C24", "Runs are reproducible: all randomness comes from the seeded generator",
  "Two models with the same configuration and seed evolve through identical states; every random draw comes from the generator seeded at initialisation, which nothing else reseeds or reads from another source. When no seed is given one is drawn and recorded, and re-using the recorded seed reproduces the run; the seed recorded is the seed used.",
  ["histories", "configurations"], "every configuration, seed and number of timesteps", "Tests compare one short run.",
  ["shared_tools.py", "init_tools.py", "sed_tools.py", "water_tools.py"], [("set_random_seed", "shared_tools.py"), ("determine_random_seed", "init_tools.py"), ("get_random_uniform", "shared_tools.py")],
  (), ["model fields"])

p("C25", "Every hook runs exactly once, at its documented place",
  "Each hook documented for customising the model (init output, load checkpoint, solve water and sediment, apply subsidence, finalize timestep, output data, and so on) is called exactly once for every execution of the step it is named after: "
  "a hook that precedes a step immediately before it, a hook that follows a step immediately after it, with the model in the state left by everything before it, in set-up, in the model update, in every water iteration (the finalising hook receiving the iteration number), "
  "in the sediment phase, at the end of the timestep, and around a job run in parallel. Hooks that are not overridden do nothing. A subclass defining a hook that no longer exists is rejected before set-up, and deprecated methods do what the method they name as their replacement does.",
  ["configurations", "histories"], "every subset of overridden hooks, every number of timesteps and water iterations", "Tests check each hook's call count once with mocks and not the order or state in which it runs.",
  ["hook_tools.py", "model.py", "iteration_tools.py", "init_tools.py", "water_tools.py", "sed_tools.py", "preprocessor.py"],
  [("hook_*", "hook_tools.py"), ("_check_deprecated_hooks", "hook_tools.py"), ("update", "model.py"), ("solve_water_and_sediment_timestep", "iteration_tools.py"), ("route_water", "water_tools.py"), ("route_sediment", "sed_tools.py")],
  (), ["sequence of calls made by update and set-up"])

if __name__ == "__main__":
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
