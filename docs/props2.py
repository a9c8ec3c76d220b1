from props1 import prop

prop("P17", "PID controller computes its control law, bounded and repeatable",
 "At every step of any history, the controller's output equals its control law: weighted proportional action on the reference and process value, integral action by the chosen integration rule with back-calculation against the limits, filtered derivative action by the chosen differentiation rule, the optional dead band, manual mode (the output integrates the manual input) and the optional model-reference adaptive term. The output never leaves the configured limits and never becomes not-a-number for finite inputs. Reverse action equals direct action with negated gains, and after a reset the controller behaves as a fresh one with the same settings.",
 ["inputs", "histories", "configurations"], "all gains (any sign), time steps, limits, weights, filters, modes, histories and mid-run changes",
 "Wind-up, mode changes and limit changes interact with the integrator over many steps; a sampled run exercises one such path.",
 ["src/pid.cpp", "src/include/pid.hpp", "src/numa.cpp", "src/include/numa.hpp"],
 [("pidController::control, error and reset", "src/pid.cpp"), ("nState integration and differentiation", "src/numa.cpp")],
 state="integrator, derivative filter and model-reference states", observe="value returned by control",
 tech="stateful model-based testing against a double-precision model, metamorphic direction and reset relations")

prop("P18", "PID settings are validated and auto-tuning converges to its rules",
 "A controller accepts exactly the settings its interface allows (positive time step, ordered limits, filter constants in [0,1), positive model-reference and tuning parameters) and a refused setting leaves the running controller's behaviour unchanged. A controller that was never set up refuses everything and passes its reference through. Gains given as standard or series parameters act as their parallel equivalents, and auto-tuning of a first-order plant ends after the requested number of steps with the gains its tuning rules give for that plant, leaving the gains alone until then; on changing or noisy plants its estimates are those of recursive least squares with the given forgetting factor, averaged with the given momentum, whatever the tuner was used for before.",
 ["inputs", "histories", "configurations"], "all settings valid and invalid, at any moment of a run; all first-order plants with sampling compatible with them",
 "Refusals that partly apply and tuners that end a step late only show in specific sequences.",
 ["src/pid.cpp", "src/include/pid.hpp"],
 [("pidController::setup and setters", "src/pid.cpp"), ("pidAutoTuning::step, computeParameters, getEstimates", "src/pid.cpp")],
 state="controller settings and recursive least-squares estimates", observe="return values of the setters, getGains and control output",
 tech="twin-system differential testing of refusals, round trips, closed-loop tuning against plant parameters")

prop("P19", "Mamdani inference equals its fuzzy-logic definition",
 "For every Mamdani system, the firing strength of each rule is its premises combined left to right by the chosen AND/OR operators (negated premises complemented) times its rule weight; each output's aggregated region is the aggregation over the fired rules of the implied, possibly negated, output set at 100 evenly spaced interval midpoints; and the crisp output is the chosen centroid, bisector, smallest, middle or largest of maximum of that region. Strengths and grades stay in [0,1], outputs stay in their ranges, and storing the region does not change the result.",
 ["inputs", "configurations"], "all systems: shapes, heights, rule tables, operators, weights, methods and input values",
 "Rule tables, operators and shapes multiply; a single tipping example agrees with many wrong engines.",
 ["src/fis.cpp", "src/fisCore.cpp", "src/include/fis.hpp"],
 [("instance::inference / inferenceAntecedent / inferenceReachEnd", "src/fis.cpp"), ("instance::deFuzzify / fuzzyAggregate / inferenceConsequent", "src/fis.cpp"), ("core::deFuzzCentroid, deFuzzBisector, deFuzzMOM, deFuzzLOM, deFuzzSOM", "src/fisCore.cpp")],
 state="rule strengths and output accumulators", observe="rule strength array, stored aggregated region, getOutput",
 tech="model-based testing of randomly generated inference systems against a double-precision definition")

prop("P20", "Sugeno and Tsukamoto outputs are weighted rule outputs",
 "For every Sugeno system each output is the firing-strength weighted average (or, if chosen, weighted sum) of its fired rules' outputs, a rule's output being its constant or its linear combination of the range-limited inputs plus offset. For every Tsukamoto system it is the weighted average of the values at which each rule's monotonic output set reaches the rule's firing strength. The result is limited to the output range, rules that do not mention an output or do not fire contribute nothing to it, and set heights do not apply to these outputs.",
 ["inputs", "configurations"], "all systems: inputs, outputs, rule tables, weights, rule outputs, operators and methods",
 "The weighting, the coefficient layout and the set inverses only differ visibly for particular strengths and rule combinations.",
 ["src/fis.cpp", "src/fisCore.cpp", "src/include/fis.hpp"],
 [("instance::inferenceConsequent", "src/fis.cpp"), ("core::LinearMF, TLinSMF, TLinZMF, TConcaveMF, TSigMF, TSMF, TZMF, TRampMF", "src/fisCore.cpp"), ("core::deFuzzWtAverage, deFuzzWtSum", "src/fisCore.cpp")],
 state="weighted sums per output", observe="getOutput and rule strengths",
 tech="model-based testing of randomly generated systems, inverse-function round trips")

prop("P21", "Membership functions have their documented shapes",
 "For every conventional membership shape, point set, height and input value, the membership grade equals the shape's defining formula times its height brought into [0,1]: exactly zero outside a bounded support and at full height on a plateau, including shapes with vertical or flat edges, and rising or falling monotonically on each flank. A negated premise gives one minus the grade, an input beyond its range is graded at the limit, a user-defined function receives its own points, and defining one set never disturbs another.",
 ["inputs"], "all shapes, point sets including coincident points, heights and input values",
 "Each shape has corner cases at its breakpoints (coincident points, ends of the support) that sampled tests skip.",
 ["src/fisCore.cpp", "src/fis.cpp", "src/include/fis.hpp"],
 [("core::TriMF ... CosineMF", "src/fisCore.cpp"), ("instance::fuzzify, setMF, parseFuzzValue", "src/fis.cpp")],
 observe="firing strength of a single-premise rule",
 tech="differential testing against double-precision shape definitions, exactness and monotonicity invariants")

prop("P22", "Fuzzy systems refuse invalid configuration without side effects",
 "A fuzzy system refuses set-up with any part missing, tags that name no input, output or set (negative or too large), operators and defuzzification methods its kind does not support, and region buffers that are missing or shorter than the number of points; a refusal changes no result and touches no memory. Evaluation fails before set-up, without room for firing strengths, and on rule tables lacking the begin mark, holding a different number of rules than announced, a misplaced connector or a nonexistent input. Inputs beyond their range, infinite or not-a-number never produce a strength outside [0,1] or an output outside its range, and setting up again restores the default operators.",
 ["inputs", "histories", "configurations"], "all tags, operators, methods, rule tables and inputs, at any moment of a system's life",
 "Out-of-range tags silently write to neighbouring objects, which only a sanitizer or a twin run reveals.",
 ["src/fis.cpp", "src/include/fis.hpp"],
 [("instance::setup, setupInput, setupOutput, setMF, setInput, getOutput, setParameter, setDeFuzzMethod", "src/fis.cpp"), ("output::storeAggregatedRegion", "src/fis.cpp"), ("instance::inference error handling", "src/fis.cpp")],
 state="the instance's configuration", observe="return values and subsequent outputs",
 tech="twin-system differential testing under AddressSanitizer, structured mutation of rule tables")

prop("P23", "Each interpolation method evaluates its definition",
 "For every ascending table and query, each interpolation method returns its definition's value: next, previous and nearest neighbour, linear, sine-eased, cubic, Hermite (polynomial through the points), natural/constrained splines, inside the table, and the documented extrapolation or end value outside it. The table is only read within its length, a table of the minimum size for the method works, and a query outside the table is handled at both ends.",
 ["inputs"], "all ascending tables of at least the method's minimum size, all queries including table points and beyond both ends",
 "Interval search and end handling differ only for queries at or beyond particular points and for irregular spacing.",
 ["src/interp1.cpp", "src/include/interp1.hpp"],
 [("interp1 method functions", "src/interp1.cpp")],
 observe="value returned by get", tech="differential testing against double-precision definitions, ASan on exactly sized tables")

prop("P24", "Interpolants pass through their points and keep their shape",
 "For every ascending table: each interpolating method returns the table value at every table point, straight lines are reproduced by the methods of linear order and above, the neighbour, linear, sine and constrained-spline methods never leave the range of the two neighbouring values, and mirroring, shifting or scaling the table mirrors, shifts or scales the result. Local methods ignore points outside their neighbourhood. An invalid method or table is refused and leaves the interpolator unchanged, and not-a-number or infinite queries never read outside the table.",
 ["inputs", "histories"], "all ascending tables, queries, transformations of them and refused reconfigurations",
 "Overshoot and asymmetry appear only for particular neighbouring slopes and spacings.",
 ["src/interp1.cpp", "src/include/interp1.hpp"],
 [("interp1 method functions", "src/interp1.cpp"), ("interp1::setMethod, setData", "src/interp1.cpp")],
 observe="value returned by get", tech="metamorphic and invariant testing (interpolation, boundedness, linearity, symmetry)")
