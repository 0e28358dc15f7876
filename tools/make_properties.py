"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [dict(name=m, where=", ".join(files)) for m in mech]}
    if state:
        a["state"] = state
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))


p("C01", "A titration of known alkalinity is solved back to that alkalinity",
  "For any physically consistent, noise-free titration (any salinity, temperature, nutrients, DIC, weak acids, user-set constants, electrode offset, titrant strength and protons per mole of titrant, with or without salts carried by the titrant), solving with the true titrant molinity returns the true total alkalinity, and in the EMF modes the true EMF0 and pH, within solver tolerance. "
  "This holds at every level at which a user can solve: arrays, a titration file, a metadata table, and a single-titration object. "
  "When the measurements are pH the same holds for the unadjusted mode, and in the adjustable mode a constant electrode error is found and removed.",
  ["inputs", "configurations"],
  "every analyte composition, titrant, electrode, temperature course, amount unit and option set for which the acid-base model has a solution inside the pH window",
  "The tests solve a handful of fixed files/simulations with default settings and compare to loosely rounded values; almost every option (normality, titrant salts, alpha/beta acids, K overrides, varying temperature, g/kg units, pH_adjust with offset) is never combined with a known truth.",
  ["calkulate/core.py", "calkulate/files.py", "calkulate/dataset.py", "calkulate/simulate.py", "calkulate/convert.py"],
  ["core.solve_emf / solve_pH complete-calculation residual and least-squares", "core.totals_ks", "core.add_titrant_totals", "files.solve pipeline", "dataset.solve_row"])

p("C02", "Calibration inverts solving: the certified value comes back",
  "The titrant molinity found by calibrating a titration against a certified alkalinity, used to solve that same titration with the same settings, returns the certified alkalinity, in every solving mode, at the array, file and table level and also for noisy measurements. "
  "For noise-free data it is the true molinity, whatever the first guess with pH data and for first guesses within about a factor of 1.5 of the truth with EMF data (where the first guess also sets the Gran estimate of EMF0). "
  "A table calibration followed by its solve leaves references whose batch contains only themselves with an offset of zero.",
  ["inputs", "configurations"],
  "every titration, solving mode, certified value, first guess, normality, titrant salt and other option given equally to calibration and solving",
  "Tests calibrate a few files in default mode; no test couples calibrate and solve under options (this is where gran_logic used to be dropped on one side).",
  ["calkulate/core.py", "calkulate/files.py", "calkulate/dataset.py"],
  ["core.calibrate_emf / calibrate_pH / calibrate_pH_gran", "files.calibrate", "dataset.calibrate_row"])

p("C03", "Speciation obeys mass action, mass balance and the alkalinity definition",
  "For every pH, set of total contents and set of equilibrium constants, the reported contents of each species satisfy their equilibrium relations and add up (with their partners) to the total, on each of the three supported pH scales. "
  "The alkalinity is the signed sum of proton acceptors minus donors with the Dickson zero level of protons (for user-defined acids decided by pK 4.5), each present once with its own weight; components whose total is absent contribute nothing. "
  "The same physical solution gives the same alkalinity whichever of the three scales it is expressed on.",
  ["inputs"],
  "every pH, totals and constants (scalars or arrays), every subset of components, every pH scale",
  "Tests compare one seawater composition with PyCO2SYS; absent components, extreme pH, non-default scales and pK at either side of 4.5 are not exercised.",
  ["calkulate/simulate.py", "calkulate/default.py"],
  ["simulate.alkalinity_components", "simulate.component_multipliers", "simulate.alkalinity"])

p("C04", "EMF, hydrogen ion and pH conversions are exact Nernst inverses",
  "Converting EMF to hydrogen ion content or pH and back returns the starting value for every EMF0 and temperature, and the forward value equals the Nernst equation with the documented constants (slope RT/F, 0 degC = 273.15 K). "
  "One pH unit is exactly one Nernst slope at that temperature, elementwise for arrays of any shape. "
  "The conversion of an f factor into a change of EMF0 is the shift that multiplies hydrogen ion content by that factor.",
  ["inputs"], "every EMF, EMF0, temperature, pH and f factor, scalar or array",
  "No test checks these conversions against the Nernst equation or their inverses away from one temperature.",
  ["calkulate/convert.py", "calkulate/constants.py"],
  ["convert.emf_to_h, emf_to_pH, h_to_emf, pH_to_emf, f_to_demf0"])

p("C05", "Amounts are converted to mass consistently",
  "A titration whose titrant is given in ml, g or kg (any letter case), and whose analyte is given as volume or mass, gives the same result once amounts are converted by the documented densities: given titrant density first, else the HCl-NaCl or H2SO4 solution density for the stated molinities; seawater density at the first temperature for the analyte. "
  "A given analyte mass always wins over a volume, also when only some rows of a table have it. "
  "A temperature override replaces every temperature (also for the density), and the solved titration reports the amounts it used.",
  ["inputs", "configurations"],
  "every amount, unit, density option, titrant type, molinity, salinity, temperature and override",
  "Tests use ml with default density and mostly analyte volume; equivalence between unit choices is never compared.",
  ["calkulate/convert.py", "calkulate/density.py", "calkulate/dataset.py"],
  ["convert.amount_units", "density.seawater_1atm_MP81, HCl_NaCl_25C_DSC07, H2SO4_25C_EAIM", "dataset.prepare"])

p("C06", "Totals and constants follow dilution, temperature and user overrides",
  "Through a titration every total content equals its value in the analyte (given by the user, else from salinity with the chosen borate:chlorinity option) times the fraction of analyte in the mixture, plus what the titrant carries; nothing is created or lost. "
  "Equilibrium constants equal those of PyCO2SYS for the chosen options at each point's temperature on the free pH scale, with undiluted or (on request) diluted salts, and every constant or total given by the user is used exactly as given. "
  "The table's own salt columns hold the same values as the file-level calculation uses.",
  ["inputs", "configurations"],
  "every salinity, temperature course, nutrient set, option set, override subset and titrant salt set",
  "Tests touch one or two option values; overrides of individual constants, titrant salts and diluted-salt constants are not compared with any reference.",
  ["calkulate/core.py", "calkulate/interface.py", "calkulate/convert.py", "calkulate/dataset.py"],
  ["core.totals_ks", "core.add_titrant_totals", "interface.get_totals / get_k_constants", "convert.dilute_totals*", "dataset.get_total_salts"])

p("C07", "Exactly the points inside the pH window decide the result, optimally",
  "The points used are exactly those whose pH lies between the two limits inclusive (with the first-guess EMF0 in a single pass, the first-pass EMF0 in the default double pass), and data outside the window do not influence the final fit. "
  "The alkalinity (and EMF0) reported is the least-squares optimum over those points, for pH data their mean; the reported spread and point count are those of the used points. "
  "The per-point alkalinities are the values implied by each point's own pH and titrant amount. A window that contains no point gives no alkalinity.",
  ["inputs", "configurations"],
  "every titration (also noisy, unsorted, duplicated points), window, starting guess and single/double pass",
  "Tests never perturb data outside the window, check optimality, or check window edges.",
  ["calkulate/core.py", "calkulate/dataset.py"],
  ["core.solve_emf used mask and double pass", "core.solve_pH / solve_pH_gran", "dataset.add_solve_results"])

p("C08", "Gran estimates follow the published Gran-plot equations",
  "The Gran function, the points used for it (from the first point above a tenth of the maximum, or between 10% and 90% in legacy mode), the regression, alkalinity, EMF0 and first-guess pH follow the Gran-plot equations for any titration and any normality. "
  "For a strong-acid-only analyte they are exact, and the Gran solver for pH data returns the intercept over the pH window. "
  "The option choosing the points is honoured equally when solving once, twice and when calibrating.",
  ["inputs", "configurations"],
  "every titration, titrant molinity, normality, pH window and point-selection option",
  "Only default-option Gran values for two files are looked at by the tests.",
  ["calkulate/core.py", "calkulate/files.py"],
  ["core.gran_function, gran_alkalinity, gran_emf0s, gran_guesses", "core.solve_pH_gran", "core.calibrate_pH_gran"])

p("C09", "Results respect the physical symmetries of a titration",
  "Adding a constant to every EMF changes EMF0 by that constant and leaves alkalinity, pH, molinity and used points unchanged (with a drifting temperature: as long as the first guess selects the same points); multiplying titrant and analyte amounts by a common factor changes nothing but the amounts. "
  "Scaling the titrant molinity while dividing the titrant's protons per mole (and salts per mole) by the same factor changes nothing. "
  "Repeating every data point, or reordering the points for which order carries no meaning, leaves the solution unchanged.",
  ["inputs", "configurations"],
  "every titration incl. noisy ones, shift, scale and option set, for solving and calibrating",
  "Relations between several runs of the solver are never tested.",
  ["calkulate/core.py", "calkulate/files.py"],
  ["core.solve_emf, core.calibrate_emf, core.solve_pH, core.gran_guesses"])

p("C10", "Rows of a table do not influence each other",
  "In a metadata table every row's results equal those of processing that titration alone with that row's settings, whatever the order, number and content of other rows, the index labels (also non-unique or non-integer), extra columns, and whether the table is a plain or package-specific one. "
  "Results are stored in the same table under the same row, input columns are left as given, and the alkalinity offset is measured minus certified. "
  "Repeating a solve with the same settings overwrites with identical values.",
  ["inputs", "histories"],
  "every table composition, row order, index, mix of solving modes and per-row options",
  "Tests run two fixed tables with default integer index in file order.",
  ["calkulate/dataset.py", "calkulate/classes.py", "calkulate/meta.py"],
  ["dataset.solve / solve_row", "dataset.calibrate / calibrate_row", "meta._get_kwargs_for"])

p("C11", "A bad titration file spoils only its own row",
  "Whatever is wrong with one titration (missing, empty, truncated, garbled or unreadable file, missing metadata, unusable option value), processing the table never stops: that row ends with missing results and zero points used and a message naming the file, and every other row's results are the same as if the bad row were absent. "
  "A row flagged as not good, or lacking the molinity or certified value it needs, is never opened and gets missing results, also if it had results before.",
  ["fault_sequences", "inputs", "histories"],
  "every fault kind, in any number of rows at any position, during calibrating and solving",
  "Tests contain no failing files in the asserted set beyond one missing-file case; combinations and stale results are not tested.",
  ["calkulate/dataset.py"],
  ["try/except and blank outputs in dataset.calibrate_row / solve_row", "file_good handling in dataset.prepare"])

p("C12", "Batch titrant molinity is the mean of that batch's good references",
  "Every row of a batch gets exactly the mean of the individually calibrated molinities of that batch's references that are flagged good and have a value, and nothing from other batches; without flags or batches all successful references form them. "
  "A batch with no usable reference, or a row without a batch, gets a missing molinity and is not solved. "
  "Reported batch statistics (mean, sample spread, count) are those of the same set.",
  ["inputs", "configurations"],
  "every assignment of rows to batches (any label type), flags, failures and missing values",
  "Tests check two batches of one dataset.",
  ["calkulate/dataset.py"],
  ["dataset.get_batches / get_group_calibration", "reindex in dataset.calibrate"])

p("C13", "Options: row value beats argument beats default, for every option",
  "For every documented option, a value in a table's row is used for that row; otherwise the value given as an argument; otherwise the documented default; a missing row value falls back to the argument. "
  "This holds identically for calibrating, solving, their combination, for functions and methods, and old-style option names act as their replacements. "
  "For a single-titration object, arguments override the row.",
  ["configurations", "inputs"],
  "every option and every combination of being given per row, missing per row, as argument or not at all",
  "Tests pass two or three options one way only; the unit and salt options used to be overridden silently.",
  ["calkulate/meta.py", "calkulate/dataset.py", "calkulate/files.py", "calkulate/classes.py"],
  ["meta._get_kwargs_for", "dataset._backcompat", "key sets in files.py and core.py", "Titration.__init__"])

p("C14", "Processing is pure: no hidden state, inputs and files untouched",
  "A result depends only on the data and options passed in: the same call gives bit-identical results whatever was processed before or failed before, in any order, repeated or run concurrently from several threads. "
  "Arrays, dictionaries, option dictionaries, rows and tables passed in (except the table a table-level function documents as updated in place) and files on disk are not modified. "
  "Module-wide defaults are never changed by a call.",
  ["histories", "schedules", "inputs"],
  "every history of calls (with failures interleaved) and every interleaving of concurrent calls",
  "Tests run each call once in one fixed order in one thread.",
  ["calkulate/core.py", "calkulate/dataset.py", "calkulate/files.py", "calkulate/classes.py", "calkulate/loss.py", "calkulate/simulate.py"],
  ["pure functions; copies in Titration.__init__, loss.get_dic_loss_hires, add_titrant_totals add/revert in the calibrators"])

p("C15", "Titration files are read and written faithfully",
  "Titration data written to a file are read back as the same values in the same order, to the written precision, and an existing file is not overwritten unless asked for. "
  "Each supported instrument format yields exactly the titrant amounts, measurements and temperatures in the file's data block (negative numbers included; the starting volume added where the format stores it apart), with column, delimiter and header options obeyed, and nothing from headers or footers.",
  ["inputs"],
  "every data series, number format, header/footer text and column layout of each supported format",
  "One example file per format is read by the tests and no written file is read back.",
  ["calkulate/read/titrations.py"],
  ["read_dat and its format table", "read_dat_genfromtxt / read_dat_pclims / read_tiamo_de", "write_dat"])

p("C16", "Metadata tables are imported without loss",
  "A metadata table imported from CSV, Excel, fixed-width or delimited text contains the same rows, columns and values as the general-purpose reader gives, as a package table with the package's methods. "
  "For a VINDTA database file every row gets the file name the instrument would have used (bottle or reference material pattern, or the user's pattern, with the depth in whole metres, decimals dropped), certified alkalinity for reference materials only, the analysis date and time, the analyte volume or mass, and rows of other types are flagged not good.",
  ["inputs"],
  "every table content and every mix of run types, bottle names, dates and options",
  "One database file is read by the tests and its contents are hardly asserted.",
  ["calkulate/read/metadata.py", "calkulate/classes.py"],
  ["read_csv / read_excel / read_fwf / read_table wrappers", "read_dbs, dbs_datetime, get_VINDTA_filenames"])

p("C17", "A single-titration object agrees with the table and with itself",
  "A single-titration object made from a table row reports the same alkalinity, EMF0, pH, point count and Gran estimates as solving the table gives for that row. "
  "In its through-titration table every column is consistent with the others: species and alkalinity follow from pH, totals and constants; alkalinity from acid added follows from the solved alkalinity; the per-point estimates average to the result over the used points. "
  "It can be copied, pickled and printed, attribute and item access return row values, and creating it leaves the table unchanged.",
  ["inputs", "configurations"],
  "every row and option set, including missing values, volumes instead of masses, other normalities and pH modes",
  "Tests only create objects from one dataset and do not check their contents.",
  ["calkulate/classes.py"],
  ["Titration.__init__, get_alkalinity_from_acid, do_CO2SYS, __getattr__"])

p("C18", "Simulated titrations conserve alkalinity and matter",
  "A simulated titration starts at the given alkalinity and at each step has lost exactly the acid added: mixing, dilution, EMF and pH satisfy the acid-base model with the simulated totals and constants. "
  "The grid of titrant amounts follows start, step and stop; the given EMF0, temperature course, nutrients and constant options are used; total inorganic carbon only dilutes, unless a loss rate is given, in which case it also relaxes towards the given atmosphere. "
  "Solving the simulated data returns the alkalinity and EMF0 it was made from.",
  ["inputs", "configurations"],
  "every alkalinity, DIC, salinity, temperature course, titrant and option set",
  "Tests simulate two or three default seawaters.",
  ["calkulate/simulate.py"],
  ["simulate._titration"])

p("C19", "The DIC-loss model conserves carbon and recovers the loss rate",
  "In the DIC-loss model each step dilutes the inorganic carbon by the titrant and removes (or adds) carbon in proportion to the fCO2 difference from air; with zero loss only dilution remains. "
  "For data generated by the same law and complete above the split the fitted loss rate is the generating one, and the forecast continues from the fitted part without a jump. "
  "Values returned at the titration points follow the fine-step model, and fitted points are those at or above the split pH; inputs, including missing values in them, are left as given.",
  ["inputs"],
  "every titration curve, loss rate (also negative and zero), air fCO2, split pH and pattern of missing values",
  "The DIC-loss module is hardly reached by the tests.",
  ["calkulate/loss.py"],
  ["loss.dic_loss_model_fitted / dic_loss_model_future / get_dic_loss_hires / get_dic_loss"])

p("C20", "Plots show exactly the results and change nothing",
  "Every plot draws the very numbers in the table or titration it is given, each point once, in the units on its axes, with used and unused (or good and bad) points told apart correctly and the summary values in its titles and lines equal to the results. "
  "It draws on the axes it is given, does not alter the data, and saves the figure where asked.",
  ["inputs", "configurations"],
  "every solved table/titration (any index, batches, missing values, solving mode) and plotting option",
  "Tests only check that plotting functions do not raise for one dataset.",
  ["calkulate/plot/__init__.py", "calkulate/plot/titration.py"],
  ["plot.titrant_molinity, plot.alkalinity_offset", "plot.titration.*"])

p("C21", "Misuse is reported, never silently turned into wrong numbers",
  "In calibrating a file and in every table-level call, each option name that is not recognised is named in a warning, recognised ones are not, and an unrecognised name never changes any result. "
  "An invalid solving mode, Gran option, amount unit, titrant (where its density is needed), pH window, missing analyte amount, missing required table column or, in simulation, pH scale is refused: an error, or in a table no value for that row only. "
  "An unknown file type is named in a warning and read as the default format. "
  "The seawater and H2SO4 density equations warn exactly when outside their stated ranges (0-40 degC, salinity 0.5-43; 0.05-3 mol/kg), and the Gran regression exactly when it has fewer than 3 points or r below 0.95; valid input raises none of these warnings.",
  ["inputs", "configurations"],
  "every option name and value, valid or not, at array, file and table level",
  "No test checks warnings or refusals.",
  ["calkulate/files.py", "calkulate/dataset.py", "calkulate/core.py", "calkulate/convert.py", "calkulate/density.py", "calkulate/simulate.py", "calkulate/read/titrations.py"],
  ["kwargs_ignored warnings", "assertions and exceptions on modes, units, windows", "range warnings in density.py and gran_alkalinity"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
