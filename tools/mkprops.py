import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
G="simcats/ideal_csd/geometric/"
p("C01","2D occupations follow the configured total charge transitions pointwise",
"In every two-dimensional ideal charge stability diagram, the total electron number of a pixel equals the number of successive total-charge-transition curves that lie at or below the pixel's voltage point in the rotated transition frame (pixels marked as transition carry the number of their transition), and a dot's share of that total equals the configured cumulative distribution of the point's signed distance to the interdot lines of its region, within the accuracy of the lookup table where one is configured. The two occupations of every pixel sum to that integer. A window that reaches past the last defined transition raises an error instead of returning invented occupations.",
["inputs","configurations"],"all valid transition sets (any number, anchors, gradients, rotation, CDF type and factor), all windows in any sweep direction and all non-square resolutions",
"The tests compare one configuration and one window with stored arrays; the quantifier over transition shapes, windows, CDF settings and resolutions is untouched.",
[G+"_ideal_csd_geometric.py",G+"_get_electron_occupation.py",G+"_tct_bezier.py",G+"_initialize_tct_functions.py","simcats/support_functions/_cumulative_distribution_functions.py"],
[("region labelling and per-region occupation",G+"_ideal_csd_geometric.py ideal_csd_geometric"),("share between the dots",G+"_get_electron_occupation.py get_electron_occupation")],
observe=["IdealCSDGeometric.get_csd_data","Simulation.measure occupations"])
p("C02","Lead-transition mask marks exactly the charge transitions of the window",
"In a two-dimensional diagram every marked pixel carries the number of a total charge transition whose curve passes through that pixel or its direct neighbourhood, every place where such a curve crosses the window is marked, and all other pixels are zero. The marks are gap-free: two edge-adjacent unmarked pixels never differ in their total electron number, whatever the aspect ratio of window and resolution (as long as a configured lookup table is finer than the pixels).",
["inputs","configurations"],"all valid transition sets, windows (any extent, aspect ratio and direction) and resolutions",
"The tests pin one stored mask at one square-ish window; gaps only appear for other aspect ratios, shapes and resolutions.",
[G+"_generate_lead_transition_mask.py",G+"_ideal_csd_geometric.py"],
[("dense sampling of each curve onto the pixel grid",G+"_generate_lead_transition_mask.py")],observe=["IdealCSDGeometric.get_csd_data lead transitions"])
p("C03","One-dimensional scans agree with the pointwise charge model",
"A one-dimensional scan along any straight line through the gate-voltage plane (one gate swept, or both swept together in any direction) yields, at each point, the total electron number and dot shares of the pointwise charge model at exactly that point. Its transition marks are nonzero exactly at points where the total electron number has changed relative to the neighbouring point, carrying the number of the transition crossed. A scan reaching past the last defined transition raises an error, as in two dimensions.",
["inputs","configurations"],"all valid transition sets, scan lines, directions and resolutions",
"Existing tests run a handful of stored 1D sweeps; the agreement with the pointwise model for arbitrary lines and directions is not compared at all.",
[G+"_ideal_csd_geometric.py",G+"_get_electron_occupation.py",G+"_generate_lead_transition_mask.py"],
[("1D branch",G+"_ideal_csd_geometric.py ideal_csd_geometric")],observe=["Simulation.measure with 1D resolution"])
p("C04","Reversing a sweep direction only mirrors the noise-free result",
"Without randomness, sweeping a gate from high to low instead of low to high mirrors every returned array (signal, occupations, transition and sensor masks) along that gate's axis and changes nothing else. This holds for each gate separately and both together, for two-dimensional diagrams, sensor scans and one-dimensional scans, except for charge-stability measurements with a barrier-coupled sensor that has a final rise. Rows always correspond to the second gate and columns to the first, in the order in which the gates are swept.",
["inputs","configurations"],"all configurations without noise, all windows and non-square resolutions, all four direction combinations",
"Tests use ascending sweeps almost exclusively and compare to stored arrays; descending and mixed directions with non-square resolutions are not compared to their mirror image.",
["simcats/_simulation.py",G+"_ideal_csd_geometric.py","simcats/sensor/_sensor_generic.py","simcats/sensor/_sensor_scan_sensor_generic.py"],
[("direction handling","simcats/_simulation.py measure, measure_sensor_scan")],observe=["Simulation.measure","Simulation.measure_sensor_scan"])
p("C05","Transition curves are the configured periodic piecewise-Bezier staircase",
"A total charge transition evaluated at any position equals the piecewise curve built from straight segments of the two configured gradients and quadratic Bezier bends at alternating maxima and minima, with the configured number of bends and linear continuation outside (or periodic continuation when unlimited). The curve is continuous and single valued, and the lookup-table variant deviates from the exact one by no more than the spacing of its table entries allows. The list of all bend anchors of a transition contains exactly these bends, rotated into voltage space.",
["inputs","configurations"],"all valid anchor/gradient combinations, numbers of bends, evaluation points far and near, explicit and lookup solution, all rotations",
"Tests compare one stored transition per variant; continuity, periodicity and agreement across parameters and points are unquantified.",
[G+"_tct_bezier.py",G+"_calculate_all_bezier_anchors.py",G+"_initialize_tct_functions.py"],
[("segment selection and Bezier solve",G+"_tct_bezier.py tct_bezier"),("anchor enumeration",G+"_calculate_all_bezier_anchors.py")])
p("C06","Electrons are added one at a time as gate voltages rise",
"In every noise-free diagram occupations are non-negative, the total is a non-negative integer at each pixel, and (for transitions that fall in the plane of the gate voltages, away from pixels marked as transition) the total never decreases when either plunger voltage increases. Along a sweep the total cannot change without a transition mark. Occupations of both dots stay within the total.",
["inputs","configurations"],"all windows and directions over valid configurations, including the shipped default configuration and sampled configurations",
"A global ordering invariant over all pixel pairs of all diagrams cannot be established by comparing stored diagrams.",
[G+"_ideal_csd_geometric.py",G+"_get_electron_occupation.py","simcats/_simulation.py"],
[("total from consecutive transitions",G+"_ideal_csd_geometric.py")])
p("C07","The sensor signal is the configured function of occupations and gates",
"The sensor potential equals the offset plus the lever-arm weighted sum of dot occupations and gate voltages, element by element with rows as second gate and columns as first gate. The response of a plain charge sensor is the sum of its configured peaks evaluated at the potential: each peak has value offset plus height at its centre, falls symmetrically and monotonically to the offset, and has the configured Lorentzian or Gaussian width. Reading the potential or response does not alter the sensor or its inputs.",
["inputs","configurations"],"all lever arms, offsets, peak lists, occupations arrays and sweep windows (1D and 2D, any direction)",
"Tests evaluate one or two stored sensor settings; the algebraic identity for all lever arms, occupations and peak sets is not covered.",
["simcats/sensor/_sensor_generic.py","simcats/sensor/_sensor_peak_lorentzian.py","simcats/sensor/_sensor_peak_gaussian.py"],
[("sensor potential and response","simcats/sensor/_sensor_generic.py SensorGeneric")])
p("C08","Barrier-coupled sensor: affine potentials and series conductance",
"For the sensor with barriers, each of the three potentials (sensor dot and both barriers) is its own offset plus its own lever-arm weighted sum of dot occupations, plunger voltages and sensor gate voltages, in sensor-scan mode and in charge-stability mode. The response is the series conductance of the three elements, zero wherever either barrier does not conduct, never exceeding the conductance of any single element. In sensor scans without deformed peaks, the configured final rise, placed such that it is fully conductive where both barriers are, bounds the sensor element from below.",
["inputs","configurations"],"all lever arms, offsets, barrier functions, peak lists, fixed voltages and sweep windows in both operating modes",
"Only two stored scans are compared; wrong mixing of lever arms or barriers that cancels in those scans is invisible.",
["simcats/sensor/_sensor_scan_sensor_generic.py","simcats/sensor/_sensor_rise_glf.py"],
[("three potentials and series conductance","simcats/sensor/_sensor_scan_sensor_generic.py SensorScanSensorGeneric")])
p("C09","Sensor-scan labels identify conductive area and Coulomb peaks consistently",
"The conductive-area label is nonzero exactly where both barrier potentials exceed their pinch-off, and takes its fully-conductive value exactly where additionally the sensor potential exceeds the fully conductive level. Inside the partly conductive area, and only there, each configured peak whose (possibly deformed) centre potential is crossed by a scan line is marked at the pixel where the sensor potential is closest to the centre, with the peak's position in the configured list (starting at 1). Labels do not depend on the order in which peaks are listed, apart from this numbering.",
["inputs","configurations"],"all sensors with barriers, peak lists in any order, fixed gate voltages of any numeric type, windows and directions",
"Tests compare labels of one stored configuration with one peak order and one pair of fixed voltages.",
["simcats/sensor/_sensor_scan_sensor_generic.py"],
[("label generation","simcats/sensor/_sensor_scan_sensor_generic.py get_sensor_scan_labels")])
p("C10","Peak deformations bend Coulomb peaks by their stated geometry",
"A linear deformation shifts a peak's centre proportionally to the signed distance from the line through the pinch-off corner along the sensor lever arm (positive to the right of its ascending direction), with a slope given by the configured angle; a circular deformation shifts it so that the peak follows a circle of the configured radius, converted from potential to gate voltage. In both cases the shift is zero for points on the undeformed axis, linear or symmetric in the distance as configured, and returned for arrays elementwise in the shape of the input. Deformation objects and peaks handed in by the caller are not modified.",
["inputs","configurations"],"all angles, radii, peak centres, distances and sensor lever arms",
"Two stored scans with one deformation each are compared; the geometric law over angle, radius and distance is untested.",
["simcats/sensor/deformation/_sensor_peak_deformation_linear.py","simcats/sensor/deformation/_sensor_peak_deformation_circle.py"],
[("deformation formulas","simcats/sensor/deformation")])
p("C11","A measurement is the composition of ideal data, distortions and sensor",
"A charge-stability measurement equals: ideal occupations, passed once through every occupation distortion in configured order, turned into sensor potential, passed through every potential distortion in order, turned into sensor response, passed through every response distortion in order. Each distortion receives the output of its predecessor together with the measurement's own gate limits and resolution. Returned occupations and transition mask are those seen by the sensor.",
["inputs","configurations","histories"],"all lists and orders of distortions in the three stages, all measurement arguments, repeated measurements",
"Tests use the default stack once with a stored result; order, arguments and number of invocations for arbitrary stacks are not observable there.",
["simcats/_simulation.py"],[("pipeline","simcats/_simulation.py Simulation.measure")])
p("C12","A sensor scan is the composition of potentials, distortions and response",
"A sensor scan uses the occupations of the fixed plunger voltages, computes the potentials over the swept sensor gates, applies all potential distortions to each potential, computes the response, applies all response distortions in order with the swept sensor-gate limits of both axes, and returns it with the labels of the undistorted scan. It works for two-dimensional and one-dimensional resolutions in every accepted notation, with and without an ideal charge model. Without plunger voltages or model the occupations are taken as zero.",
["inputs","configurations"],"all sensors with barriers, distortion stacks, plunger voltages present or absent, sweep windows, resolution notations",
"Tests cover 2D scans with square sweeps and no position-dependent response distortion.",
["simcats/_simulation.py","simcats/sensor/_sensor_scan_sensor_generic.py"],[("pipeline","simcats/_simulation.py Simulation.measure_sensor_scan")])
p("C13","Invalid requests are rejected and valid ones inside the limits are accepted",
"Every measurement whose sweep ranges or fixed sensor voltages leave the configured limits, whose ranges, resolution or fixed voltages are malformed or incomplete, or whose simulation lacks what it needs, raises an error and leaves the simulation unchanged; every well-formed request inside the closed limits and below the last defined transition succeeds. Assigning a value of the wrong type or malformed limits is rejected and keeps the old value; any two-element array or list of ordered voltages is accepted as limits. Malformed requests for ideal data are rejected with an error as well.",
["inputs","configurations"],"all requests around the boundaries of the limits, all argument shapes, all assignments to simulation attributes",
"Tests check a few hand-picked invalid calls, not both sides of each boundary nor that state survives.",
["simcats/_simulation.py","simcats/distortions/_distortion_interfaces.py"],[("checks","simcats/_simulation.py")])
p("C14","Measurements are isolated from each other and from caller objects",
"With all randomness seeded, a measurement's result depends only on the current configuration, the arguments and the random state, never on which measurements, label queries or reconfigurations happened earlier or on other simulation objects. Neither objects passed in by the caller nor the shipped default configurations are ever modified, and modifying them after they were handed over does not change the simulation.",
["histories","configurations","inputs"],"all interleavings of measurements (1D, 2D, sensor scans), setter calls and mutations of caller objects on several simulations",
"Tests run single measurements on fresh objects; leaks of state between calls only appear in histories.",
["simcats/_simulation.py","simcats/_default_configs.py","simcats/sensor"],[("deep copies at the boundary","simcats/_simulation.py setters")])
p("C15","Seeded randomness is reproducible and independent of global random state",
"Two simulations built from the same configuration with equally seeded random generators give bit-identical sequences of measurements; differently seeded ones differ. The global random state of the interpreter and of the numerical library neither influences a seeded simulation nor is changed by it.",
["histories","inputs","configurations"],"all stacks of seeded distortions and samplers, all sequences of measurements",
"Tests compare with one stored seed; independence of global state and equality over histories is not tested.",
["simcats/distortions","simcats/support_functions/_parameter_sampling.py"],[("explicit generators","simcats/distortions, parameter sampling")])
p("C16","Metadata is a faithful, detached snapshot sufficient to repeat the measurement",
"The metadata returned with a measurement contains exactly the arguments, limits, ideal model, sensor and distortion state used, and a noise-free measurement repeated from it gives identical data. Later changes to the simulation or to returned objects never change metadata already returned, and changing metadata never changes the simulation.",
["histories","inputs","configurations"],"all measurements and later mutations",
"No test looks at metadata after further use of the simulation.",
["simcats/_simulation.py"],[("metadata construction","simcats/_simulation.py measure, measure_sensor_scan")])
p("C17","White and pink noise are additive, unbiased and of the configured strength",
"White and pink noise add to the signal an array of the same shape that does not depend on the signal, scales with the configured strength, and for zero strength vanishes. White noise samples are independent normal with the configured standard deviation; pink noise has unit-variance power-law statistics scaled by the strength, running through the scan in row-major time order (scans of at least two pixels). The input array is not modified.",
["inputs","configurations"],"all signals, shapes, strengths and seeds, for potential and response variants",
"Stored seeds pin one realisation; the additive structure and distribution over all signals is not tested.",
["simcats/distortions/_white_noise.py","simcats/distortions/_pink_noise.py"],[("noise functions","simcats/distortions")])
p("C18","Random telegraph noise is a two-level burst process along the scan",
"Random telegraph noise adds to the signal, in row-major time order, alternating stretches of zero and of constant burst height, starting with a quiet stretch; all heights come from the configured height distribution and the mean stretch lengths in volts (on the finer grid of a two-dimensional scan, over the wider range of a joint sweep) follow the configured duration. The process never depends on the signal, never modifies its input, and works for every resolution however coarse.",
["inputs","configurations"],"all signals, shapes, resolutions relative to window size, durations, heights and seeds",
"Stored seeds pin one realisation at one resolution.",
["simcats/distortions/_random_telegraph_noise.py"],[("burst generation","simcats/distortions/_random_telegraph_noise.py")])
p("C19","Distortion activation follows its ratio and is reported truthfully",
"A distortion with activation ratio 0 never changes the data, with ratio 1 always acts, and in between acts on that fraction of measurements; after each measurement its activated flag says whether it acted and, where it records the strength used last, that strength is the one that was applied. An inactive distortion returns the data unchanged. Ratios outside 0 to 1 are rejected at the latest when the distortion is used.",
["inputs","histories","configurations"],"all distortion classes, ratios, samplers and sequences of measurements",
"Tests never check the activation flag against the data over sequences.",
["simcats/distortions"],[("activation draw","simcats/distortions/*")],state=[("activated","whether the distortion acted in the last measurement","distortion objects"),("latest strength","strength used last","distortion objects")])
p("C20","Dot jumps only displace the ideal diagram along the swept gate",
"With dot jumps active, each line of a two-dimensional result along the chosen gate is the ideal diagram displaced towards later voltages by a non-negative whole number of pixels that is constant over stretches, with occupations and transition mask displaced together; a one-dimensional scan shows one such stretch pattern along its sweep if it sweeps the chosen gate and is unchanged otherwise. Data from outside the scan comes from the ideal model where available, else a two-dimensional scan repeats its edge. Jumps always act in the direction of rising voltage whatever the sweep direction of either gate, and freezing repeats the displacement of the previous measurement exactly.",
["inputs","histories","configurations"],"all windows, directions, resolutions, jump parameters, seeds and frozen re-applications",
"Tests pin one seed, ascending direction and square resolution.",
["simcats/distortions/_dot_jumps.py"],[("block-wise displacement","simcats/distortions/_dot_jumps.py")])
p("C21","Transition blurring smooths occupations along the measurement axis only",
"Blurring replaces each dot's occupation by its convolution along the measurement (first-gate) axis with a normalised symmetric kernel of the configured width, edges reflected, lines independent of each other: constants are preserved, monotone lines stay monotone within their range, the total charge of a line is conserved, and a zero width changes nothing. The transition mask is left untouched. Gaussian and Fermi-Dirac variants have the configured width in voltage; freezing repeats the previous width.",
["inputs","configurations","histories"],"all occupations, kernels widths, windows, resolutions (non-square), 1D and 2D",
"Tests pin one seed and one square resolution.",
["simcats/distortions/_transition_blurring.py","simcats/support_functions/_fermi_filter1d.py"],[("filters","simcats/distortions/_transition_blurring.py")])
p("C22","Voltage-domain distortion scales are independent of the pixel grid",
"Parameters of distortions specified in the voltage domain (blur width, dot-jump and telegraph-noise lengths) act on the same voltage scale whatever the resolution: doubling the resolution of the swept gate doubles the effect in pixels, and for blurring and dot jumps changing range or resolution of the other gate has no effect. Telegraph noise counts in pixels of the finer of the two grids of a two-dimensional scan, and along the wider range of a one-dimensional sweep of both gates. This holds for both gates, non-square windows, and one- and two-dimensional scans.",
["inputs","configurations"],"all windows, non-square resolutions and parameter values",
"Square windows and resolutions in the tests cannot distinguish the two gates' scales.",
["simcats/distortions/_transition_blurring.py","simcats/distortions/_dot_jumps.py","simcats/distortions/_random_telegraph_noise.py"],[("pixel/volt scaling","simcats/distortions")])
p("C23","Parameter samplers draw from their stated distribution and range",
"Every value returned by a parameter sampler lies in its configured range (and in the narrowed sampling range when given), follows the configured distribution restricted to that range, and is remembered as the last sample. A narrowed range has the given width, lies within the total range at a random position, and stays fixed for the life of the sampler; if wider than the total range, the latter is used with a warning. Samplers with equal seeds give equal sequences.",
["inputs","histories"],"all ranges, parameters, seeds and sequences of draws and range changes",
"The distribution and range claims are over all parameters and all draws; the existing sampler tests are flaky and few.",
["simcats/support_functions/_parameter_sampling.py"],[("samplers","simcats/support_functions/_parameter_sampling.py")])
p("C24","Generalised logistic, barrier and rise functions invert and saturate correctly",
"The generalised logistic function rises (or falls) monotonically between its asymptotes, its inverse undoes it on the open interval between them, and multi-step barriers equal the sum of their steps. A barrier's reported pinch-off and fully-conductive potentials are where its function reaches the configured fractions between its asymptotes, and the final rise of a sensor starts at its stated offset and reaches its stated conductance at the fully-conductive potential.",
["inputs","configurations"],"all valid parameter combinations and potentials",
"Tests sample a few hand-chosen parameter sets.",
["simcats/support_functions/_generalized_logistic_function.py","simcats/sensor/barrier_function","simcats/sensor/_sensor_rise_glf.py"],[("GLF","simcats/support_functions/_generalized_logistic_function.py")])
p("C25","Geometric helper functions obey their algebraic laws",
"Rotating points preserves distances and is undone by the opposite rotation; the signed distance to a line is antisymmetric in the line's direction, zero on the line and equal to the Euclidean distance in magnitude; line intersections, point-below-line tests and intersections of lines and circles agree with exact rational arithmetic including vertical, horizontal, parallel and tangent lines. Pixel positions map linearly onto the voltage range, and the smooth steps (sigmoid and Cauchy) match their formulas, rise from 0 to 1 and are symmetric about their centre.",
["inputs"],"all points, lines (incl. vertical, horizontal, degenerate), angles and arrays",
"Tests use a few fixed points.",
["simcats/support_functions/_linear_algebra.py","simcats/support_functions/_rotate_points.py","simcats/support_functions/_signed_dist_points_line.py","simcats/support_functions/_pixel_volt_transformation.py","simcats/support_functions/_cumulative_distribution_functions.py"],[("helpers","simcats/support_functions")])
p("C26","Sampled random configurations are always valid and respect their options",
"Every configuration produced by the random configuration sampler builds a simulation that measures inside its stated limits without error (at a pixel pitch of at most a ninth of the limits), has transition curves in strictly increasing order that do not cross, distortion strengths and peak parameters inside their documented ranges, and honours the sensor type, compensation and quality options. Sampled configurations share no state with each other. The shipped configurations measure at every window inside their limits that stays below their last transition.",
["inputs","configurations"],"all option combinations and random draws",
"The tests draw one configuration; validity is a claim about all draws.",
["simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"],[("sampler","simcats/config_samplers")])
p("C27","Resetting the sensor offset pins the potential at the chosen point",
"After resetting a plain charge sensor's potential offset to a target at given gate voltages, the sensor potential at these voltages (including the dots' occupation there) equals the target, whatever the offset was before, and applying the reset again changes nothing. Only the offset changes.",
["inputs","configurations"],"all configurations, gate voltages, targets and previous offsets",
"Existing coverage is one implicit use.",
["simcats/support_functions/_reset_offset_mu_sens.py"],[("offset computation","simcats/support_functions/_reset_offset_mu_sens.py")])
p("C28","Plots show the data at the right voltages without changing it",
"Plotting a diagram of any supported dimension draws every pixel's value at its gate voltages with the first gate on the horizontal axis and two-dimensional diagrams with the same voltage scale on both axes, for ascending and descending ranges, and modifies neither the data nor the ranges.",
["inputs"],"all data arrays (1D, 2D), ranges and directions",
"Tests do not look into the drawn artists.",
["simcats/support_functions/_plotting.py"],[("plotting","simcats/support_functions/_plotting.py")])
p("C29","Representations and updates of configuration objects are faithful",
"The printed representation of every sensor, peak, barrier, final rise, deformation and geometric diagram model evaluates to an object with the same parameters and the same behaviour; those of distortions, samplers and simulations state their class and every parameter in force. Updating a parameter is reflected in behaviour and representation, exactly as if the object had been created with it.",
["inputs","configurations"],"all configuration objects and parameter values",
"Tests check single instances at most.",
["simcats/sensor","simcats/distortions","simcats/support_functions/_parameter_sampling.py","simcats/ideal_csd/geometric/_ideal_csd_geometric_class.py"],[("representations","all configuration classes")])
p("C30","Copies and pickles of any object carry on exactly like the original",
"A deep copy or a pickled and restored copy of a simulation, sensor, diagram model, distortion or sampler delivers from then on exactly what the original would have delivered for the same requests, random values included, also when it was copied in the middle of a history. Afterwards the two are independent: using or changing one never changes what the other delivers. The copies of the configuration delivered with a measurement have both qualities, and so have objects created without naming optional parameters.",
["histories","configurations"],"all objects, histories before the copy and interleavings of uses and changes afterwards",
"Independence and equality of continuation are claims about all histories; tests never copy in the middle of one.",
["simcats/_simulation.py","simcats/sensor","simcats/distortions","simcats/support_functions/_parameter_sampling.py"],[("state of the objects","simcats")])
p("C31","Own implementations of the interfaces take part like the built-in ones",
"A sampler, sensor peak, barrier function, final rise, peak deformation or sensor written by the user against the documented interface can be combined freely with built-in parts, and the result follows from the same formulas. A distortion draws each of its sampled parameters exactly once whenever it takes effect anew, never when it is inactive or repeated, and uses the value drawn. A sensor with its own number of potentials gets every potential distorted, and its own labels are delivered unchanged.",
["configurations","histories"],"all combinations of own and built-in parts, requests and sequences of applications",
"The tests use the built-in implementations only, so code relying on details of these passes them.",
["simcats/_simulation.py","simcats/sensor/_sensor_interface.py","simcats/sensor/_sensor_scan_sensor_generic.py","simcats/distortions","simcats/support_functions/_parameter_sampling.py"],[("interfaces","simcats/sensor/_sensor_interface.py")])
p("C32","Stand-alone functions deliver what the objects built on them deliver",
"The exported functions for white, pink and telegraph noise, block-wise dot jumps, peak shapes, transition masks, occupations and whole ideal diagrams give exactly the results of the objects that offer the same feature, for equal parameters and random numbers, and never modify their inputs. Dot jumps move every pixel by the reported noise along the chosen axis, can be reapplied to a second image, and leave place holders alone. The order in which transitions are listed for the occupations carries no information, and a line scan is marked exactly at the pixels whose total is above that of a neighbour.",
["inputs"],"all images, shapes, parameters, random states and transition sets",
"Tests reach these functions through a few objects only; agreement is a claim over all inputs.",
["simcats/distortions","simcats/ideal_csd/geometric","simcats/sensor/_sensor_peak_gaussian.py","simcats/sensor/_sensor_peak_lorentzian.py"],[("exported functions","simcats/distortions"),("geometric functions","simcats/ideal_csd/geometric")])
p("C33","Whole numbers mean the same as the equal real numbers",
"Voltages, parameters, positions, images and electron numbers may be given as integers or integer arrays wherever numbers are expected: simulations, ideal diagrams, sensors, distortions and helper functions then deliver the same values as for the equal real numbers, without truncation or rejection.",
["inputs","configurations"],"all entry points and all subsets of values given as integers",
"Truncation depends on which of many values happens to be an integer; tests use real values nearly everywhere.",
["simcats/ideal_csd/geometric/_tct_bezier.py","simcats/distortions/_transition_blurring.py","simcats/support_functions","simcats/sensor","simcats/_simulation.py"],[("numeric code","simcats")])
p("C34","Results do not depend on the physical units",
"Stating a configuration and the requests in another unit of voltage, of sensor potential or of sensor response leaves the results the same up to that unit: with all voltages and voltage lengths multiplied by a factor and all lever arms divided by it, or with the potentials or conductances and the noise added to them multiplied, a seeded simulation delivers the same occupations, transition masks and scan labels, and the signal in the new unit. No fixed magnitude is built into ideal data, sensors or distortions (widths of transitions below 1e-8 count as steps, and peaks with a circular deformation are excepted).",
["inputs","configurations"],"all configurations, requests, seeds and combinations of units",
"Thresholds and offsets with a fixed magnitude only show in configurations of another order of magnitude than the few in the tests.",
["simcats/_simulation.py","simcats/ideal_csd/geometric","simcats/sensor","simcats/distortions"],[("numeric code","simcats")])
p("C35","Leaving out an optional parameter means its documented default",
"Creating an object, calling a function, measuring or requesting ideal data with any subset of the optional parameters left out gives exactly the result of naming their documented defaults, whatever the other parameters are. What is done to an object created that way never changes the defaults of the next one.",
["inputs","configurations"],"all classes and functions, subsets of optional parameters and values of the others",
"Tests call with a few fixed subsets and compare stored results, never the omitted against the named default under random other parameters.",
["simcats/_simulation.py","simcats/sensor","simcats/ideal_csd/geometric","simcats/distortions","simcats/support_functions"],[("signatures","simcats")])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write("".join(json.dumps(x)+"\n" for x in P))
