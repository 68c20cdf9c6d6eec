import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
B="src/pycba/"
p("C01","Support reactions are the exact elastic solution and balance the loads",
"For every stable prismatic continuous beam (any mix of rigid, spring and settling supports and moment releases) under any list of loads, the reported rigid reactions, spring forces and nodal displacements are those of linear-elastic beam theory, listed left to right. In particular vertical and moment equilibrium of the whole beam close, springs carry minus stiffness times displacement, and settled supports sit exactly where prescribed.",
["inputs","configurations","histories"],"every beam topology, support/release/settlement arrangement and every sequence of loads",
"tests pin a few textbook beams; the claim couples every element type, restraint kind and load type in combination",
[B+"analysis.py",B+"beam.py",B+"load.py"],[("assembly and elimination",B+"analysis.py:_assemble/_apply_bc/_reactions"),("element stiffness and fixed-end forces",B+"beam.py:get_span_k/get_ref")],["BeamAnalysis.beam_results.R","BeamAnalysis.beam_results.Rs","BeamAnalysis.beam_results.D"])
p("C02","Moment and shear diagrams are the exact internal forces of every member",
"At every station of every member the reported bending moment (sagging positive) and shear force are the exact internal forces of the loaded prismatic beam, jumping only where a point load, couple or support acts, with the moment zero at every released end. Away from such points the moment's slope is the shear and the shear's slope is minus the load intensity.",
["inputs","configurations"],"every prismatic beam, every load list and every evaluation density",
"tests look at maxima or a few stations of a few load types; errors local to one load/release combination or one stretch of span escape them",
[B+"results.py",B+"load.py",B+"beam.py"],[("member recovery",B+"results.py:BeamResults._member_values"),("per-load simply supported diagrams",B+"load.py:get_mbr_results")],["BeamAnalysis.beam_results.vRes[*].M/V","beam_results.results"])
p("C03","Rotations and deflections obey the moment-curvature law and the supports",
"At every station of every member the reported rotation and deflection satisfy elastic theory for the true moments (up to the integration grid's resolution): deflection is continuous along the beam, equals the support settlement at every settled support, and rotation is continuous except across a hinge. Imposed curvatures deform the beam in exactly the same compatible way.",
["inputs","configurations"],"every prismatic beam, support, release, settlement, load and imposed-curvature combination",
"deflection is tested on a handful of single-span cases; release ends, settlements and mixed loads interact",
[B+"results.py",B+"load.py"],[("moment-area integration with release correction",B+"results.py:_member_values")],["beam_results.vRes[*].R/D","beam_results.D"])
p("C04","Loads superpose: every analysis is linear in its loads",
"The effect of any load list is the sum of the effects of its loads taken alone, independent of their order and of how a load is split into equivalent parts, and scales with any factor applied to the list; the load-matrix helpers that scale, merge and repeat loads produce exactly those lists without altering their arguments. Load that overhangs its span has no effect beyond the span's end.",
["inputs","histories"],"every load list, permutation, split and factor on every stable beam",
"superposition quantifies over all load lists and splits; tests use one or two fixed lists",
[B+"load.py",B+"beam.py",B+"analysis.py"],[("load parsing",B+"load.py:parse_LM/factor_LM/add_LM"),("loads setter",B+"beam.py")],["beam_results of factored/merged/permuted lists","return values of factor_LM, add_LM"])
p("C05","Non-prismatic members are analysed with their true rigidity variation",
"A member whose flexural rigidity varies along its length (stepped, linear, piecewise linear, polynomial or mixed) gives the reactions, internal forces and deflections of elastic theory for that variation, with any releases, springs, settlements, loads and imposed curvatures. A variable-rigidity description that happens to be constant gives the same results as the constant itself.",
["inputs","configurations"],"every rigidity profile, beam topology and load list",
"the flexibility integrals couple profile, load and release; tests cover a few profiles with UDLs",
[B+"beam.py",B+"section.py",B+"results.py"],[("flexibility integration",B+"beam.py:_ref_nonprismatic, stiffness from EI(x)"),("profile evaluation",B+"section.py:SectionEI")],["beam_results"])
p("C06","Shear-flexible members are analysed by Timoshenko theory",
"Members given a shear rigidity (constant or varying, alone or with varying flexural rigidity, in any mix with ordinary members) give the reactions, internal forces, cross-section rotations and deflections of Timoshenko beam theory for all loads, releases, springs and settlements. As shear rigidity grows the results tend to those without shear flexibility.",
["inputs","configurations"],"every mix of shear-flexible and ordinary members and every load list",
"shear flexibility interacts with each load type and release; tests cover UDL and point loads on a few beams",
[B+"beam.py",B+"results.py"],[("Timoshenko stiffness and fixed-end forces",B+"beam.py:_ref_timoshenko")],["beam_results"])
p("C07","Members on an elastic foundation obey the Winkler equation",
"Members resting on a Winkler foundation (in any mix with ordinary members and supports) give the displacements, reactions, moments, shears and rotations of the foundation-beam equation to the accuracy of the internal mesh, with internal forces in balance with loads, supports and foundation pressure. Unsupported configurations (releases, varying rigidity, unsupported load types) are refused, not silently mis-analysed.",
["inputs","configurations"],"every arrangement of foundation/ordinary members and supports, and every load list",
"tests compare displacements of two classical cases; internal forces of loaded, mixed beams are unobserved",
[B+"foundation.py",B+"beam.py"],[("condensed super-element and recovery",B+"foundation.py:FoundationElement")],["beam_results"])
p("C08","Mechanisms are always refused and stable beams never are",
"A beam is reported stable exactly when its supports and releases leave no mechanism, and a mechanism is refused by the analysis with an error and leaves earlier results untouched, whatever sequence of stability queries, analyses and structural edits came before. Changing the supports or loads after a successful check never lets a mechanism through.",
["configurations","histories"],"every support/release arrangement and every history of edits, checks and analyses",
"needs the whole lattice of support/release arrangements and cached-check histories; tests try a few",
[B+"analysis.py",B+"beam.py"],[("stability check with version cache",B+"analysis.py:_check_stability/is_stable")],["BeamAnalysis.is_stable()","BeamAnalysis.analyze()"])
p("C09","Results always belong to the loads and structure last analysed",
"Whatever sequence of load edits, replacements, analyses, queries and failed calls is made on an analysis object, an analysis reflects exactly the current loads and structure, results stay unchanged until the next successful analysis, and repeating an analysis gives the same answer. A rejected call leaves the model as it was, and the caller's own lists are never modified.",
["histories"],"every history of public calls on one analysis object, including rejected ones",
"tests build a fresh object per case; stale caches, aliasing and partial updates need call histories",
[B+"analysis.py",B+"beam.py"],[("load setters",B+"beam.py:loads/add_load/_set_loads"),("results replacement",B+"analysis.py:analyze")],["beam_results after each call","Beam.loads"])
p("C10","Result queries agree with the result arrays and the exact solution",
"Point queries return the stored value at a station (the left-hand one at a step) and the straight-line value between stations, at any coordinate of the beam; tabular and CSV exports list every station of every member with the same values, the deflection curve contains the inner stations only, and the station grid spans each member with the requested density, including any extra shear sections. Requested densities too small to be meaningful leave the previous one in force.",
["inputs","histories"],"every beam, load list, query coordinate, density and extra-section request",
"queries are tested at isolated interior points; ends, supports and extra sections are where they go wrong",
[B+"results.py",B+"analysis.py"],[("queries",B+"results.py:at/to_dataframe/deflection_curve/_member_values")],["BeamAnalysis.at","to_dataframe","to_csv","deflection_curve"])
p("C11","Envelopes bound exactly the results they were built from",
"An envelope's maximum and minimum at each station are the extremes over the given results (never on the wrong side of zero where it is documented to include the unloaded state), with the coincident companion value of the same result, and its reaction extremes likewise. Augmenting, summing and combining envelopes follow the same algebra in any order and grouping and leave other operands unchanged.",
["histories","inputs"],"every collection of results and every sequence of augment, sum and combine operations",
"an algebraic law over all sequences; tests check a few pairs of envelopes",
[B+"results.py"],[("envelope construction and algebra",B+"results.py:Envelopes")],["Envelopes attributes","Envelopes.at"])
p("C12","A moving vehicle loads the beam at every position with exactly its axles",
"At each vehicle position the analysed loads are precisely the axles then on the beam, each on the right span at the right place with its own weight, together with the bridge's static loads; the traverse covers first axle on to last axle off at the requested step, in either direction. Results at a position do not depend on which positions were analysed before.",
["histories","inputs","schedules"],"every vehicle, bridge, position, step and order of positions",
"tests run one or two vehicles with one step and look at extremes; position arithmetic errs at joints, ends and after other runs",
[B+"bridge.py",B+"vehicle.py"],[("axle placement",B+"bridge.py"),("traverse",B+"bridge.py:run_vehicle")],["BridgeAnalysis.beam_analysis loads and results per position"])
p("C13","Load-model envelopes cover vehicle, lane and static loads as specified",
"Running a load model yields, at each station, the extremes over all vehicles, positions and lane-load arrangements it defines, plus the static loads exactly once; critical values report those extremes with their true position, location and coincident effects. Comparing two envelopes gives their ratios station by station.",
["histories","inputs"],"every vehicle set, lane load, static load, clearance and step on every bridge",
"extremes over position×arrangement spaces; tests pin a single run",
[B+"bridge.py"],[("load model run and critical values",B+"bridge.py:run_load_model/critical_values/envelopes_ratios")],["Envelopes and critical-value records"])
p("C14","Influence lines give the effect of a unit load at every position",
"Each ordinate of an influence line for a reaction, moment or shear equals the effect, at the chosen place, of a unit load at that position, for every beam and every order of requests. Superposing ordinates reproduces the direct analysis of any set of point loads.",
["inputs","histories"],"every beam, load position, target location and order of creation and queries",
"tests compare a few ordinates of one beam",
[B+"inf_lines.py"],[("unit-load sweep",B+"inf_lines.py:create_ils/get_il")],["InfluenceLines.get_il"])
p("C15","A load-case collection keeps exactly the cases and factors it was given",
"Through any sequence of adding, replacing, extending, factoring and combining, a load-case collection contains exactly the named cases in insertion order with their own loads, rejects duplicates and unknown names without changing, and never shares mutable loads with its callers. The response matrix has one row per case equal to that case's own analysis.",
["histories"],"every history of collection operations, including rejected ones",
"aliasing and partial updates need operation histories",
[B+"load_cases.py"],[("collection operations",B+"load_cases.py:LoadCases")],["LoadCases names, loads, factors, response_matrix"])
p("C16","Load combinations and their envelopes are exact over the permitted selections",
"A factored combination gives the factored sum of its cases' effects; a target combination picks exactly the cases that worsen the chosen effect at the chosen place; additive and sign-selective envelopes equal the extremes over every permitted subset of cases at each station.",
["inputs","configurations"],"every set of cases, factors, target and sense",
"quantifies over all subsets of cases at all stations; tests have one example",
[B+"load_cases.py"],[("combination and envelope",B+"load_cases.py:combine/target_combination/envelope")],["combination loads, envelopes"])
p("C17","Pattern loading produces exactly the critical dead/live arrangements",
"Pattern loading builds the arrangements its scheme defines (adjacent-span pairs for each support, odd spans, even spans, all spans) with maximum load on the selected spans and minimum load on the others, and its envelope is the extremes over those arrangements. Inputs and factors are not modified by the analysis.",
["inputs","configurations"],"every span count, load list and factor set",
"tests use one span count; arrangements are indexed by span parity and count",
[B+"pattern.py"],[("arrangement generation",B+"pattern.py:LoadPattern")],["LoadPattern.analyze envelopes"])
p("C18","Plastic collapse analysis finds the true collapse load and hinge order",
"For a prismatic elastic-plastic beam on rigid supports (pinned, clamped or free ends) under UDLs and point loads, increased in proportion: up to first yield the response is the linear one and first yield is reported where and when it happens; at every recorded load factor the moments are in equilibrium with the load and, without strain hardening, nowhere above their plastic capacity (over a support that of the weaker span); collapse is reported exactly at the limit load factor, the largest for which any such moments exist. Loads act on the mesh nodes by the lever rule. Supports, loads, sections and capacities the model does not cover are refused.",
["inputs","configurations"],"every beam, capacity arrangement and proportional load pattern",
"the event order depends on geometry and capacities; tests pin a few textbook cases",
[B+"nonlinear.py"],[("incremental hinge analysis",B+"nonlinear.py:NonlinearBeamAnalysis.analyze")],["NonlinearBeamAnalysis results"])
p("C19","Natural frequencies and mode shapes satisfy the free-vibration equations",
"The reported natural frequencies are the lowest requested, in ascending order and consistent with their circular frequencies and periods; they are those of the supported beam including its spring supports, elastic foundation and prescribed (held) degrees of freedom, never below the exact value and within mesh accuracy above it; the mode shapes satisfy the supports and are mutually orthogonal. Models the mass formulation does not cover (member releases, varying section, shear flexibility) are refused instead of approximated.",
["inputs","configurations"],"every stable beam, mass distribution, mode count and mesh",
"tests check simply-supported and fixed single spans",
[B+"modal.py"],[("mesh and eigenproblem",B+"modal.py:solve_modal")],["modal results"])
p("C20","Prestress equivalent loads reproduce the tendon's primary moments",
"The loads generated for a tendon profile, together with anchorage forces and couples wherever the tendon starts, stops or changes force or level, reproduce exactly the primary moment of prestress force times eccentricity: the moment of an analysis is primary plus a secondary moment that is linear between supports, and nothing but primary on a statically determinate beam. Profiles that do not fit their span, or a wrong number of profiles or forces, are refused, and the beam is never altered.",
["inputs"],"every tendon profile, force, loss pattern and beam",
"equivalence is a for-all-profiles claim; tests check standard parabolas",
[B+"prestress.py"],[("equivalent loads",B+"prestress.py")],["load lists from prestress, analysed moments"])
p("C21","Vehicles keep their geometry and weight through every operation",
"Axle positions, total weight and length of a vehicle are consistent through construction, reversal, copying and train making, reversal twice is the identity, and library vehicles match their published definitions. Invalid axle definitions are refused.",
["histories","inputs"],"every axle layout and sequence of vehicle operations",
"operation sequences and variable axle groups; tests check single operations",
[B+"vehicle.py"],[("vehicle and library",B+"vehicle.py:Vehicle/VehicleLibrary/make_train")],["Vehicle.axw, axs, axle_coords, L, W"])
p("C22","Section profiles evaluate exactly as defined and reject bad definitions",
"A variable-section profile returns, at any coordinate, the value of the segment that covers it (constant, linear, piecewise-linear or polynomial through its points), the integration breakpoints cover every kink, and overlapping, gapped or ill-ordered definitions are refused without altering the profile.",
["inputs","histories"],"every sequence of segment definitions and every coordinate",
"builder histories and boundary coordinates",
[B+"section.py"],[("profile builder",B+"section.py:SectionEI")],["SectionEI(x)"])
p("C23","Support names and beam strings describe exactly the structure built",
"Support shorthand and the beam-string notation translate to precisely the spans, restraints and releases they denote, however mixed with numeric restraints, and an invalid description is refused with an error instead of building another structure.",
["inputs"],"every support list and beam string",
"a grammar; tests try a few sentences",
[B+"utils.py",B+"beam.py"],[("parsers",B+"utils.py, "+B+"beam.py")],["Beam.restraints, lengths, releases"])
p("C24","Display settings and plots show the stored numbers and never change them",
"Setting the default display units (by preset name - case, spaces, underscores and hyphens do not matter - or an own UnitSystem), setting the plotting backend, overriding either for one plot, and drawing any plot change no result, envelope, load, beam or vehicle, and a per-plot override leaves the default alone; unknown units raise KeyError and unknown backends ValueError, with the default as it was; a plot of an analysis not yet run draws nothing. Every plot (results, single diagrams, reactions, envelopes and their coincidents, ratios, bridge positions and envelopes, influence lines, modes, plastic analyses, tendons, load cases and their responses, vehicles, beams; matplotlib and, where offered, plotly) shows exactly the stored numbers, moments on the tension side, only deflections multiplied by the factor of the units in force, with axes, captions and values in the symbols of those units; reactions point the way they act, where they act; reaction histories are drawn only when they reach the stored extremes.",
["histories","configurations"],"every history of settings, analyses and plots, every model",
"plots are tested for not crashing, settings one at a time",
[B+"units.py",B+"plotting.py"],[("unit state",B+"units.py"),("plot methods",B+"analysis.py:plot_results"),("envelope plots",B+"bridge.py:plot_envelopes")],["plotted data, labels, active units, stored arrays"])
p("C25","Drawn schematics show every support and load of the model once",
"The drawing of a beam shows every span, every support with the symbol of its kind (wall, pin or roller, vertical or rotational spring, guide, elastic foundation), every internal release and every force, couple and distributed load of the loads asked for (the beam's own, a list, a load case, a factored combination, or none) exactly once, at its true place, extent and direction; magnitudes, extents, span lengths and support names are written as and when asked, in the display units asked for; matplotlib and TikZ output show the same; and drawing never alters the model, the loads or the unit setting. Imposed curvatures have no symbol; loads are clipped to their span as in the analysis.",
["inputs","configurations"],"every beam and load list",
"rendering is tested for not crashing",
[B+"render.py"],[("schematic inference",B+"render.py")],["Rendered primitives / TikZ source"])
p("C26","Moving-load plastic analysis follows elastic-plastic history exactly",
"Driving a vehicle over an elastic-plastic beam in steps of the front axle, from the first support until its rear axle has passed: as long as nothing has yielded each position gives the linear moments; at every position, whatever the history, moments are in equilibrium with the axles on the beam and (without hardening) nowhere above capacity; collapse is reported at the first position whose limit load factor is below one, and never otherwise, however the steps are subdivided.",
["histories","inputs"],"every vehicle, beam, capacity and traverse",
"path dependence over a traverse",
[B+"nonlinear.py"],[("moving analysis",B+"nonlinear.py:analyze_moving")],["per-position results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"])); f.write(json.dumps(x)+"\n")
print(len(P))
