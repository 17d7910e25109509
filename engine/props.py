"""The properties: what is stated, where it is anchored, and which analyses decide it."""

SMOKE = "The only test of the repository is a smoke program that calls each module once with fixed numbers and compares nothing; "


def U(h, *entries, **kw):
    return dict(harness=[h], entries=list(entries), **kw)


PROPS = {}


def P(pid, title, statement, over, qtext, why, files, mech, units, explain="", state=(), observe=(), min_obligations=1, rules=(),
      assume=(), iv=()):
    assert len(title) <= 80, title
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=SMOKE + why, files=files, mech=mech, state=list(state),
                      observe=list(observe), units=units, explain=explain, min_obligations=min_obligations, rules=list(rules),
                      assume=list(assume), iv=list(iv))


# ------------------------------------------------------------------------------------------------- delay line
P("P01", "A tapped delay line always returns the i-th most recent sample",
  "After any sequence of insertions, a delay line of n taps returns, for index i (0 <= i < n), exactly the value inserted i samples ago, or the "
  "initial/flush value when fewer samples were inserted; the oldest and most recent accessors agree with indices n-1 and 0. Any index outside the "
  "line reads as NaN (index -1 reads the oldest) and no access leaves the caller's storage. Flushing refills the whole line with the given value.",
  ["histories", "inputs", "configurations"], "every line length, insertion history, flush point and index",
  "the wrap-around positions for every length and index are not sampled.",
  ["src/tdl.cpp", "src/include/tdl.hpp"], [("ring insertion", "tdl::insertSample"), ("index folding", "tdl::getAtIndex"), ("initialisation", "tdl::setup, tdl::flush")],
  [U("tdl.cpp", "H_tdl_*", "HT_tdl_*")], "Line lengths 1..5 with 2n+2 insertions each, all sample values symbolic.",
  state=[("itRecent, itOldest", "cursors into the caller's storage", "tdl.hpp")], observe=["tdl::operator[]", "tdl::getOldest", "tdl::getRecent"], min_obligations=200)

# ------------------------------------------------------------------------------------------------- smoothers
P("P02", "Every smoothing filter follows its published difference equation",
  "For every input sequence and every accepted configuration, each smoothing filter (1st/2nd order low-pass, both moving-window means, both "
  "outlier removers, Gaussian window, exponential weighting, scalar Kalman, double exponential, adaptive linear) produces exactly the output of its "
  "documented recursion, up to floating-point rounding. After a reset the filter repeats the behaviour of a freshly configured filter.",
  ["histories", "inputs", "configurations"], "every sample history, window size and parameter value in the accepted range",
  "no output value is ever compared with the filter's definition.",
  ["src/smoother.cpp", "src/include/smoother.hpp", "src/ltisys.cpp", "src/tdl.cpp"],
  [("filter update", "smoother*::smooth"), ("start-up from the first sample", "smoother*::init state"), ("restart", "smoother::reset")],
  [U("smoother.cpp", "H_law_*")], "Windows of 1..4 samples, histories longer than the window, all samples and parameters symbolic; compared with reference recursions.",
  observe=["smoother::smooth return value", "weights array of the adaptive filter"], min_obligations=125)
P("P03", "Smoothing filters pass a constant signal through unchanged",
  "Feeding any constant value to any correctly configured smoothing filter (all kinds except double exponential smoothing) yields exactly that constant from "
  "the very first sample on, and again from the first sample after a reset.",
  ["inputs", "histories", "configurations"], "every constant and every accepted parameter",
  "unit steady-state gain and start-up transients are not examined.",
  ["src/smoother.cpp", "src/include/smoother.hpp"], [("initialisation with the first sample", "smoother*::smooth"), ("unit gain of the coefficients", "smoother*::setup")],
  [U("smoother.cpp", "H_dc_*")], "Four samples, reset, four samples, for eleven configurations.", observe=["smoother::smooth return value"], min_obligations=40)
P("P04", "Filter setup accepts exactly the valid parameters and never half-applies",
  "Configuring a smoothing filter or the RMS estimator succeeds exactly when every parameter lies in its documented range and the required storage is "
  "supplied, for every float including NaN and infinities. A rejected configuration reports failure and leaves the object, and thus its later outputs, unchanged.",
  ["inputs", "configurations", "histories"], "all 2^32 values of each numeric parameter, null and empty storage, before and during operation",
  "boundary, NaN and infinite parameters are never passed.",
  ["src/smoother.cpp", "src/rms.cpp"], [("range validation", "smoother*::setup, rms::setup, rms::setParams")],
  [U("smoother.cpp", "H_cfg_*"), U("control.cpp", "H_rms_params")], "Numeric parameters are bit-level unknowns where no elementary function is applied to them.",
  observe=["return value of setup", "object contents after a rejected call"], min_obligations=25)
P("P05", "The RMS estimator computes the filtered root of the weighted mean square",
  "For every sample history and accepted tuning, each output of the RMS estimator is the low-pass filtered moving average of the square root of the "
  "exponentially weighted mean of squared samples, with the documented start-up from the first sample.",
  ["histories", "inputs", "configurations"], "every sample history, window size and tuning", "no output value is compared.",
  ["src/rms.cpp", "src/include/rms.hpp", "src/smoother.cpp"], [("composition of three smoothers", "rms::update")],
  [U("control.cpp", "H_rms_law*")], "Windows of 1..3, three samples, symbolic tuning.", observe=["rms::update return value"], min_obligations=6)

# ------------------------------------------------------------------------------------------------- numa, lti
P("P06", "Numerical integration and differentiation follow the selected rule",
  "For every signal history and step size, the integrator state advances by the selected quadrature rule (rectangular, trapezoidal, Simpson, quadratic) and the "
  "derivative equals the selected finite difference, using the last stored samples; a call made without update leaves the stored samples as they were. "
  "Arithmetic on a state object equals arithmetic on its value.",
  ["histories", "inputs", "configurations"], "every signal, step size, method and update flag", "the numerical rules are not compared with anything.",
  ["src/numa.cpp", "src/include/numa.hpp"], [("quadrature rules", "nState::integrate"), ("finite differences", "nState::derive")],
  [U("control.cpp", "H_numa_*")], "", observe=["nState::integrate", "nState::derive", "nState operators"], min_obligations=50)
P("P07", "A discrete transfer function obeys its difference equation",
  "For every numerator and denominator (leading coefficient not zero), initial condition and input history, a discrete system outputs the exact solution of its "
  "difference equation, whatever the relative lengths of the two polynomials, and never reads or writes outside the caller's coefficient and state arrays. "
  "The FIR form outputs the coefficient-weighted window.",
  ["histories", "inputs", "configurations"], "every polynomial pair, order, initial state and input", "one fixed system is simulated and its output is only printed.",
  ["src/ltisys.cpp", "src/include/ltisys.hpp"], [("direct form II recursion", "discreteSystem::update"), ("coefficient normalisation", "ltisys::normalizeTransferFunction"), ("FIR window", "discreteSystem::updateFIR")],
  [U("control.cpp", "H_disc_*")], "Ten order pairs up to (3,3) and (2,4); coefficients, states and inputs symbolic.", observe=["discreteSystem::excite return value"], min_obligations=75)
P("P08", "A continuous transfer function obeys its state equations",
  "For every coefficient set, time step, initial state and input history, a continuous system outputs the response of its controllable canonical state equations, "
  "including the direct feed-through, integrated with the selected rule; with zero state and zero input it stays at zero.",
  ["histories", "inputs", "configurations"], "every coefficient set, step, method, state and input", "one fixed system is simulated and its output is only printed.",
  ["src/ltisys.cpp", "src/numa.cpp"], [("state derivative and output equations", "continuousSystem::update"), ("initial states", "continuousSystem::setInitStates")],
  [U("control.cpp", "H_cont_*")], "Orders 1..3, three quadrature rules.", observe=["continuousSystem::excite return value"], min_obligations=30)
P("P09", "System output limits, input delay and setup checks always apply",
  "Once limits are accepted (exactly when max > min) every output of a simulated system lies within them and equals the clipped response, from any internal state. An "
  "n-element delay window shifts the input by n-1 samples and a transport delay by its number of samples, starting from the given initial value; a delay time gives its nearest number of samples. Setups with missing storage are "
  "rejected without changing the system, and an uninitialised system outputs zero.",
  ["histories", "inputs", "configurations"], "every state, limit pair, delay length and input history", "limits and delays are not exercised.",
  ["src/ltisys.cpp", "src/include/ltisys.hpp", "src/tdl.cpp"], [("saturation", "ltisys::saturate"), ("input delay", "ltisys::excite, ltisys::setDelay"), ("transport delay", "transportDelay")],
  [U("control.cpp", "H_lti_*")], "", observe=["ltisys::excite return value", "transportDelay::operator()"], min_obligations=50)

# ------------------------------------------------------------------------------------------------- pid
P("P10", "The PID controller computes the documented control law",
  "For every gain set, time step, weighting, dead band, direction, mode and signal history, each controller output is the sum of the weighted proportional action, the "
  "trapezoidal integral with anti-windup feedback and the filtered derivative (plus the model-reference term when enabled), or the tracked manual value in manual mode, clipped to the limits. "
  "Reset restores the initial behaviour.",
  ["histories", "inputs", "configurations"], "every configuration and signal history", "the control output is printed, never compared.",
  ["src/pid.cpp", "src/include/pid.hpp", "src/numa.cpp"], [("control law", "pidController::control"), ("dead band", "pidController::error"), ("adaptive term", "pidController::updateMRAC-like code in control")],
  [U("pid.cpp", "H_pid_law_*")], "One to three consecutive samples per configuration with all gains, weights, limits and signals symbolic.",
  state=[("integral, derivative, anti-windup and manual states", "history of the controller", "pid.hpp")], observe=["pidController::control return value"], min_obligations=15)
P("P11", "The PID output never leaves its limits, whatever the controller state",
  "From any internal state (any history, gains, mode, direction, adaptive term or tuner), once limits are accepted every finite control output lies between the minimum and the maximum; limits are accepted exactly when "
  "the maximum exceeds the minimum.",
  ["histories", "inputs", "configurations"], "every internal state, mode and limit pair", "limits are exercised with one configuration at most.",
  ["src/pid.cpp"], [("output clipping", "pidController::control, pidController::setSaturation")],
  [U("pid.cpp", "H_pid_limits_*")], "All numeric fields of the controller are replaced by arbitrary values before the step.", observe=["pidController::control return value"], min_obligations=6)
P("P12", "PID settings are accepted exactly when valid and mean what is documented",
  "An uninitialised controller rejects every setting and passes the set-point through; setup succeeds exactly for a positive time step and each setter exactly for values in its documented range, "
  "rejected values changing nothing. Gains given directly, as time constants or in series form, the derivative-filter time constant and the reference weights translate into the documented effective values.",
  ["inputs", "configurations"], "every float of each setting, before and after setup", "only one accepted configuration is used.",
  ["src/pid.cpp"], [("validation", "pidController::setup and setters"), ("gain conversion", "setParams, setSeries, setDerivativeFilterTimeConstant, setReferenceWeighting")],
  [U("pid.cpp", "H_pid_uninitialised", "H_pid_setup_accept", "H_pid_setters_accept", "H_pid_gain_forms")], "", observe=["setter return values", "getGains", "control"], min_obligations=30)
P("P13", "PID auto-tuning estimates and applies gains by the documented procedure",
  "While enabled for n steps the tuner updates its model by recursive least squares with forgetting and its smoothed gain and time constant, leaves the controller's gains untouched, and after exactly n valid steps the controller takes the "
  "tuned gains of the selected controller type and reports completion. A tuner enabled without limit, or with zero steps, never completes nor changes the gains; tuner parameters are accepted exactly in (0,1].",
  ["histories", "inputs", "configurations"], "every signal history, step budget, controller type and tuner parameter", "tuning is started but neither estimates nor completion are checked.",
  ["src/pid.cpp"], [("recursive least squares", "pidAutoTuning::step"), ("tuning rules", "pidAutoTuning::getEstimates"), ("completion", "pidController::adaptGains / isAutoTuningComplete")],
  [U("pid.cpp", "H_pid_tune_*")], "Up to three estimation steps with symbolic signals; budgets 1..3; endless tuner from any numeric state.", observe=["getGains", "getEstimates", "isAutoTuningComplete"], min_obligations=40)

# ------------------------------------------------------------------------------------------------- interp1
P("P14", "Each interpolation method evaluates its defining formula everywhere",
  "For every strictly increasing table and every argument, each method returns the value of its definition on the interval that contains the argument: previous, next and nearest node (the later one on a tie), the linear chord, the raised-cosine "
  "blend, the cubic, Catmull-Rom and constrained-spline polynomials, and the polynomial through all nodes; outside the table the outer piece is extended (nodes are held by previous/next/nearest).",
  ["inputs", "configurations"], "every table and argument, inside, at and outside the table", "one table and few arguments are evaluated and only printed.",
  ["src/interp1.cpp"], [("interval search and formulas", "interp1::linear, sine, cubic, hermite, spline, cSpline, next, previous, nearest")],
  [U("interp1.cpp", "H_i1_previous", "H_i1_next", "H_i1_nearest", "H_i1_linear", "H_i1_sine", "H_i1_cubic", "H_i1_hermite", "H_i1_spline", "H_i1_cspline_*", "H_i1_large*")],
  "Tables of 2..5 nodes with symbolic abscissae and ordinates (constrained spline: one of the two fixed).", observe=["interp1::get"], min_obligations=30)
P("P15", "Interpolants reproduce the table at its nodes",
  "For every strictly increasing table, evaluating any interpolation method except 'next' at an abscissa of the table returns the tabulated ordinate (the constrained spline for tables without level parts).",
  ["inputs", "configurations"], "every table, node and method", "node values are not compared.", ["src/interp1.cpp"], [("interval selection at the nodes", "interp1::get")],
  [U("interp1.cpp", "H_i1_nodes")], "", observe=["interp1::get"], min_obligations=20)
P("P16", "Interpolation never leaves its table and reports unusable data as NaN",
  "For any argument, NaN and infinities included, and any table size and contents, interpolation reads only inside the two tables and terminates; a missing or too short table yields NaN. Setting data or a method is rejected exactly for null or "
  "too short tables and unknown methods, and a rejected change leaves the interpolator unchanged.",
  ["inputs", "configurations"], "every argument, table length and method", "short tables, NaN and out-of-range arguments are not passed.",
  ["src/interp1.cpp", "src/include/interp1.hpp"], [("length guards", "interp1 methods"), ("validation", "interp1::setData, setMethod")],
  [U("interp1.cpp", "H_i1_safe", "H_i1_config")], "Every memory access of nine methods on tables of 0..5 entries.", observe=["interp1::get", "setData", "setMethod"], min_obligations=30)

# ------------------------------------------------------------------------------------------------- bits
P("P17", "Bit-field reads and writes touch exactly the addressed bits",
  "For every field size, index, width 1..32 and content, a read returns exactly the addressed bits in order and a write changes exactly those bits and no other; single-bit set, clear, toggle and write, float storage, whole-field set/clear and dump "
  "agree with this. Accesses that start outside the field, wider than 32 bits, or to an uninitialised field are refused, read as zero and change nothing, and no access leaves the storage.",
  ["inputs", "histories", "configurations"], "every index, width, value and content of the field", "a handful of indices is written and read back.",
  ["src/bitfield.cpp", "src/include/bitfield.hpp"], [("slot arithmetic and masks", "bitfield::read_uint32, write_uint32"), ("bounds", "bitfield index checks")],
  [U("bits.cpp", "H_bf_*")], "Fields of 1..3 words, every index and width (word contents and values are bit-level unknowns).", observe=["bitfield accessors", "storage contents"], min_obligations=7500)
P("P18", "A generic CRC equals the polynomial remainder of the message",
  "For every message, initial value and final XOR, with and without input/output reflection, the 8, 16 and 32-bit checksum equals bitwise polynomial division by the given generator, ignoring generator bits above the width; a message can be any length. "
  "Missing or empty data or an unknown width gives zero, and only the message is read.",
  ["inputs", "configurations"], "every message, initial value, final XOR, reflection combination and generator", "one message per variant is computed and only printed.",
  ["src/crc.cpp", "src/include/crc.hpp"], [("bitwise division", "crc::generic"), ("bit reflection", "crc::reflect")],
  [U("bits.cpp", "H_crc_generic*", "H_crc_any*", "H_crc_long*", "H_crc_reject", "HT_crc_long*")], "Messages of 1, 2, 3 and 8 symbolic bytes; symbolic generator on one byte; 600-byte continuation (66000 in the thorough tier).",
  observe=["crc::generic return value"], min_obligations=20)
P("P19", "Each named CRC variant follows its published parameters",
  "For every message, each named CRC function returns the remainder defined by its published width, generator, initial value, reflections and final XOR.",
  ["inputs"], "every message of each of the 42 variants", "results are printed, not compared with check values.",
  ["src/include/crc.hpp", "src/crc.cpp"], [("parameter table", "crc::crc8_*, crc16_*, crc32_*")],
  [U("bits.cpp", "H_crc_named*")], "Messages of 1..3 symbolic bytes.", observe=["named CRC functions"], min_obligations=60)

# ------------------------------------------------------------------------------------------------- fixed point
P("P20", "Fixed-point sums, differences and comparisons are exact or flag overflow",
  "For every pair of Q16.16 values, addition, subtraction, negation, increment and decrement return the exact result when it is representable and the overflow marker otherwise, in plain and compound form, without changing the operands; "
  "the six comparisons order values exactly as the numbers they represent, and the overflow test recognises exactly the marker.",
  ["inputs"], "all 2^64 operand pairs", "a few sums are printed.", ["src/fp16.cpp", "src/include/fp16.hpp"], [("overflow detection", "fp16::add, fp16::sub"), ("operators", "fp16.hpp")],
  [U("fp16.cpp", "H_fx_add", "H_fx_sub", "H_fx_unary", "H_fx_order")], "Bit-exact over both 32-bit operands.", observe=["fp16 operators"], min_obligations=12)
P("P21", "Fixed-point products, quotients and roots are correctly rounded or flagged",
  "A Q16.16 product or quotient is the exact result rounded to the nearest representable value (halves away from zero), or the overflow marker when that is not representable; dividing by zero gives the lowest value. "
  "The square root is the nearest value (within one unit of the last place for arguments of 16384 and more), and the overflow marker for negative arguments.",
  ["inputs"], "all operand pairs", "a few products are printed.", ["src/fp16.cpp"], [("double-width multiplication and rounding", "fp16::mul"), ("shift-subtract division", "fp16::div"), ("digit recurrence root", "fp16::sqrt")],
  [U("fp16.cpp", "H_fx_mul_*", "H_fx_div_*", "H_fx_sqrt_*", "HT_fx_*")],
  "Multiplication by 0, 1/2, 1 and 2 and the domains over all operands; otherwise windows in which about 10 operand bits are arbitrary and the others fixed (a full 32x32-bit product has no small canonical form).",
  observe=["fp16 operators", "fp16::sqrt"], min_obligations=100)
P("P22", "Fixed-point conversions, integral parts and text are faithful",
  "Integers in range convert exactly and back; conversion to integer rounds to nearest and conversion to float is the exact ratio; conversion from float and double is the nearest value (up to one rounding in that type), so that values survive the round trip through double; floor, ceil, rounding and absolute value are exact for every value or flag overflow; the named constants are the nearest Q16.16 values. "
  "Decimal text shows sign, integer part and the requested digits (0..5) correctly rounded, is terminated, and never exceeds the digits it needs.",
  ["inputs"], "every Q16.16 value (text: representative values, all digit counts)", "few values are printed.", ["src/fp16.cpp", "src/include/fp16.hpp"],
  [("conversions", "fp16::from, toInt, toFloat"), ("integral parts", "fp16::floor, ceil, rounding, absolute"), ("text", "fp16::toASCII")],
  [U("fp16.cpp", "H_fx_parts*", "H_fx_int", "H_fx_toint", "H_fx_tofloat", "H_fx_consts", "H_fx_text_*")], "Conversion from float and double over the whole range by interval analysis.", observe=["fp16 functions"], min_obligations=300, iv=[dict(group="fxc")])
P("P23", "Fixed-point functions honour domain limits, special values and angle wrapping",
  "Logarithms of non-positive values give the overflow marker; exponential and hyperbolic functions saturate outside their range for every argument; the exact special values (exp 0, exp 1, sin 0, sinh 0, tanh 0, cosh 0, asin +-1, acos 1) hold. "
  "Wrapping an angle returns a value in the target half-turn interval that differs from the argument by whole turns, and sine and cosine of a far angle are those of the wrapped angle.",
  ["inputs"], "every argument", "few values are printed.", ["src/fp16.cpp"], [("domain guards", "fp16::exp, log, cosh, sinh, tanh"), ("range reduction", "fp16::wrapToPi, wrapTo180")],
  [U("fp16.cpp", "H_fx_special", "H_fx_lim_*", "H_fx_wrap180", "H_fx_wrappi*")], "All arguments outside the limits symbolically.", observe=["fp16 functions"], min_obligations=12)

# ------------------------------------------------------------------------------------------------- matrices
P("P24", "Matrix construction, access and arithmetic follow linear algebra",
  "For every matrix shape and contents, sums, differences, negation, scalar operations, increments, products, transposes and their compound forms compute exactly the element-wise or row-by-column definition up to rounding, return the updated object or "
  "a new one, and leave their operands untouched, even when an operand is the matrix itself or one of its elements. Constructors define every element row by row, and one-index, two-index and row access address the same elements.",
  ["inputs", "configurations"], "every content and shape", "a handful of matrices are printed.", ["src/include/mat.hpp"],
  [("element-wise operators", "mat::operator+,-,*,/ and compound forms"), ("matrix product", "mat::operator*, operator*="), ("construction", "mat::mat")],
  [U("mat.cpp", "H_mat_elem_*", "H_mat_mul*", "H_mat_build")], "Shapes from 1x1 to 4x1 and 2x3, products up to 3x3 and 2x3x4 with all entries symbolic.",
  observe=["mat operators"], min_obligations=1500)
P("P25", "Matrix inverse is two-sided and the infinity norm is the largest row sum",
  "For every invertible square matrix, multiplying it by its computed inverse on either side gives the identity up to rounding, including when a zero appears on the diagonal during elimination, and the matrix is unchanged. "
  "For every shape the infinity norm is the largest sum of absolute values of a row and only the matrix is read.",
  ["inputs", "configurations"], "every invertible matrix", "one inverse is printed.", ["src/include/mat.hpp"], [("Gauss-Jordan elimination", "mat::inv"), ("row sums", "mat::normInf")],
  [U("mat.cpp", "H_mat_inv_*", "H_mat_norm_*")], "Dense symbolic matrices up to 3x3 with non-zero leading minors, permuted patterns up to 4x4 with zero pivots, LU-generated ones.",
  observe=["mat::inv", "mat::normInf"], min_obligations=150)

# ------------------------------------------------------------------------------------------------- array algorithms
P("P26", "Sorting orders exactly the given range and binary search is exact",
  "Sorting a range (first and last position inclusive) leaves it ordered by operator< or by the given comparison, holding the same elements moved whole, and touches nothing outside the range, for every order and every pattern of ties. "
  "Binary search on an ordered range returns an element of the range equal to the key exactly when one exists, null otherwise, always terminates and changes nothing.",
  ["inputs", "configurations"], "every arrangement of keys, with ties, of every range", "one array is sorted.", ["src/include/algorithm.hpp"],
  [("non-recursive quick sort", "algorithm::sort"), ("bisection", "algorithm::binary_search")],
  [U("algo.cpp", "H_sort_*", "H_bsearch_*", "HT_bsearch_*")], "All weak orders of up to 5 elements (keys are data-independent bit unknowns), sub-ranges, long adversarial sequences.",
  observe=["array contents", "returned pointer"], min_obligations=200)
P("P27", "Array algorithms act on exactly the requested range",
  "Reverse, rotate (any count and direction, whole turns included), fill, replace, replace_if and for_each transform every element of the range (first and last position inclusive) and no other; find and find_if return the first match or null; "
  "any_of, all_of and count_if agree with the predicate on the range; swap exchanges whole objects. Nothing outside the array is read or written and the default range is the whole array.",
  ["inputs", "configurations"], "every content, range and rotation count", "one call of each is printed.", ["src/include/algorithm.hpp"],
  [("range loops", "algorithm::*"), ("three-reversal rotation", "algorithm::rotate")],
  [U("algo.cpp", "H_reverse*", "H_rotate*", "H_scan_*")], "All ranges of arrays up to 4..5 elements with arbitrary bytes, rotation counts across several turns and at the integer limits.",
  observe=["array contents", "returned pointers and counts"], min_obligations=1200)

# ------------------------------------------------------------------------------------------------- fuzzy inference
P("P28", "Every fuzzy set has its documented membership shape and consequent inverse",
  "For every parameter vector and argument, each membership function (triangular, trapezoidal, bell, gaussian and two-sided, sigmoidal and their difference/product, S, Z, pi, concave, spike, linear S/Z, rectangular, singleton, custom) returns its defining "
  "value within [0,1], vertical edges and shared breakpoints included; each Tsukamoto consequent returns the argument at which its set takes the strength of the rule.",
  ["inputs", "configurations"], "every argument and parameter vector, at, between and outside the breakpoints", "a few inferences are printed and never compared.",
  ["src/fisCore.cpp", "src/fis.cpp", "src/include/fis.hpp"], [("membership functions", "fis::core MF bodies"), ("inverse consequents", "fis::core Tsukamoto functions")],
  [U("fis.cpp", "H_mf_*", "H_tsuka_*")], "All parameters and arguments symbolic; exp and pow are uninterpreted functions with their monotonicity and special values.", observe=["membership of a fuzzified input", "inferred output"], min_obligations=60)
P("P29", "Rules combine antecedents by their connectors and weigh their consequents",
  "For every list of rules, the strength of a rule is its antecedents joined from left to right by their AND/OR connectors with the selected operators, negated where IS_NOT is used, times the rule weight; Sugeno and Tsukamoto outputs are the strength-weighted mean of the "
  "consequents of exactly the rules that mention the output (weighted sum if selected), saturated to the range of the output. After setup, also a repeated one, AND is the minimum, OR the maximum and the mean is used.",
  ["inputs", "configurations"], "every rule list, operator choice, weight and input value", "one fixed rule base is evaluated and only printed.",
  ["src/fis.cpp", "src/fisCore.cpp", "src/include/fis.hpp"], [("rule interpreter", "fis::instance::inferenceAntecedent, inferenceReachEnd, inferenceConsequent"), ("weighted defuzzification", "fis::instance::deFuzzify, fisCore weighted mean and sum")],
  [U("fis.cpp", "H_rule_*", "H_sugeno_*", "H_tsuka_multi")], "Rule lists with up to three antecedents, negations, mixed connectors, several rules and outputs; input memberships symbolic.", observe=["fis::instance::inference, deFuzzify, operator[]"], min_obligations=60)
P("P30", "Mamdani outputs aggregate clipped sets and defuzzify by their definition",
  "For every set of rule strengths, the aggregated output set is the selected aggregation of the consequent sets clipped (or scaled) by the strength of their rules over the whole range of the output, and centroid, bisector, largest, smallest and mean of "
  "maximum return the value given by their definition on the points of that set, within the range of the output. After setup, also a repeated one, implication is the minimum, aggregation the maximum and the centroid is used.",
  ["inputs", "configurations"], "every output profile, strength, method and resolution", "one output is printed.",
  ["src/fis.cpp", "src/fisCore.cpp", "src/include/fis.hpp"], [("aggregation sweep", "fis::instance::fuzzyAggregate, deFuzzify"), ("defuzzifiers", "fisCore centroid, bisector, LOM, SOM, MOM")],
  [U("fis.cpp", "H_defuzz_*", "H_region_*")], "Sampled output sets of up to about 8 points with arbitrary memberships.", observe=["defuzzified output"], min_obligations=40)
P("P31", "Fuzzy systems refuse what they cannot use and stay inside their storage",
  "Setup and configuration of a fuzzy system accept exactly usable storage, tags, functions, parameters and methods; anything else reports failure and changes nothing. For any rule list of arbitrary content, and before setup, "
  "inference reads only the list up to its end marker and the given storage, terminates, and reports failure for malformed rules.",
  ["inputs", "configurations", "histories"], "every tag, method code and rule list", "only valid configurations are exercised.",
  ["src/fis.cpp", "src/include/fis.hpp"], [("validation", "fis::instance::setup, setMF, setParameter, setDeFuzzMethod"), ("rule parsing", "fis::instance::inference")],
  [U("fis.cpp", "H_cfg_*", "H_rules_*")], "Arbitrary rule words within bounded list lengths; every memory access checked.", observe=["return values", "memory accesses"], min_obligations=60)

# ------------------------------------------------------------------------------------------------- float math
def IV(group, *fns):
    return dict(group=group, only=["%s/%s." % (group, f) for f in fns]) if fns else dict(group=group)


P("P32", "Float classification, truncation, neighbours and exponents are bit-exact",
  "For every one of the 2^32 float arguments: classification (NaN, infinite, finite, normal, zero, sign), absolute value, copysign, sign, trunc, floor, ceil, rounding, minimum/maximum, the next representable neighbour and "
  "splitting into mantissa in [0.5,1) and exponent return the exact value, NaN, infinities, subnormals and signed zeros included. Scaling by a power of two is exact within rounding for any exponent, overflowing to infinity and underflowing to zero. "
  "Equality helpers compare within their stated tolerance.",
  ["inputs"], "all 2^32 bit patterns of each argument", "no result is compared and no special bit pattern is passed.", ["src/ffmath.cpp", "src/include/ffmath.hpp"],
  [("bit manipulation", "ffmath::trunc, floor, ceil, rounding, nextAfter, rexp, ldexp, classify"), ("ordering", "ffmath::Min, Max, isEqual")],
  [U("ffm.cpp", "H_ffm_class", "H_ffm_sign", "H_ffm_trunc", "H_ffm_floor", "H_ffm_ceil", "H_ffm_round", "H_ffm_next", "H_ffm_rexp", "H_ffm_ldexp", "H_ffm_minmax*", "H_ffm_equal", "H_ffm_const")],
  "Arguments are bit-level unknowns (all 2^32 values at once); ldexp by interval analysis for exponents from INT_MIN to INT_MAX.", observe=["returned floats and exponents"], min_obligations=150,
  iv=[IV("bitw", "rexp", "rexp_e", "ldexp", "frac")])
P("P33", "Interpolation, mapping, region tests and wrapping follow their definition",
  "Midpoint, lerp, normalize and map return the point of the line through their two reference points and hit the end points; coercion limits to the closed interval; inRangeCoerce, inPolygon and inCircle decide membership of the closed region, whatever the orientation, convexity "
  "and vertex order of the polygon. wrapToPi, wrapTo2Pi, wrapTo180 and wrapTo360 return an angle congruent to the argument inside their interval (a positive multiple of the turn maps to the upper end); mod has the sign of the divisor and rem the sign of the dividend.",
  ["inputs"], "every argument, limit, polygon and angle up to 1000 turns", "a few calls are made and nothing is compared.", ["src/ffmath.cpp", "src/include/ffmath.hpp"],
  [("affine maps", "ffmath::lerp, map, normalize, midpoint"), ("crossing test", "ffmath::inPolygon"), ("range reduction", "ffmath::wrap*, mod, rem")],
  [U("ffm.cpp", "H_ffm_midpoint", "H_ffm_map", "H_ffm_coerce*", "H_ffm_circle", "H_ffm_lerp*", "H_ffm_poly_*")],
  "Symbolic coordinates for regions; wrapping for 1000 turns in both directions, exact congruence within float rounding.", observe=["returned values"], min_obligations=80,
  iv=[IV("bitw", "midpoint", "lerp", "normalize", "map"), IV("wrap")])
P("P34", "Math functions give the documented result at special values and domain limits",
  "For every argument outside its real domain each function of the math module returns NaN (roots and logarithms of negative numbers, inverse sine beyond one, Bessel functions of negative arguments, ...), for NaN it returns NaN, and at poles, infinities, zeros and beyond overflow it returns the limit: "
  "log 0 = -inf, exp of large = inf, tanh of large = 1, x^0 = 1, gamma(0) = inf, 0! .. 34! the rounded factorials and infinity beyond.",
  ["inputs"], "NaN of both signs, infinities, signed zeros, poles, and every argument outside the domain", "special arguments are never passed.", ["src/ffmath.cpp", "src/include/ffmath.hpp"],
  [("argument screening", "start of each ffmath function"), ("factorial table", "ffmath::factorial")], [], "Whole half-lines outside the domain are covered by interval pieces, not samples.",
  observe=["returned value and NaN-ness"], min_obligations=3000, iv=[IV("edge")])
P("P35", "Orthogonal polynomials equal their explicit definition",
  "For every argument of the domain and every small degree, the Hermite, Laguerre, associated Laguerre, Legendre and associated Legendre functions return the value of the polynomial of that degree and order, zero when the order exceeds the degree.",
  ["inputs", "configurations"], "every argument in the domain, degrees up to 8", "one value of each is printed.", ["src/ffmath.cpp"],
  [("three-term recurrences", "ffmath::hermite, laguerre, assoc_laguerre, legendre, assoc_legendre")],
  [U("ffm.cpp", "H_ffm_hermite", "H_ffm_laguerre", "H_ffm_assoc_laguerre", "H_ffm_legendre", "H_ffm_assoc_legendre0", "H_ffm_degrees")],
  "Algebraic identity with the explicit polynomial for symbolic arguments, plus rounding error bounds by interval analysis.", observe=["returned value"], min_obligations=40, iv=[IV("orth")])
ROOT = ("recip", "sqrt", "rSqrt", "cbrt", "rCbrt", "hypot")
TRIG = ("sin", "cos", "tan", "asin", "acos", "atan", "atan2")
EXPL = ("exp2", "exp", "exp10", "expm1", "log2", "log", "log10", "log1p", "pow", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh")
SPEC = ("tgamma", "lgamma", "beta", "comp_ellint_1", "comp_ellint_2", "comp_ellint_3", "ellint_1", "ellint_2", "ellint_3", "expint", "riemann_zeta", "sph_legendre", "factorial")
BESS = ("cyl_bessel_i", "cyl_bessel_j", "cyl_bessel_k", "cyl_neumann", "sph_neumann", "sph_bessel")
P("P36", "Roots, reciprocals and hypotenuse are accurate over the whole float range",
  "For every normal float argument: sqrt is within 3e-6, cbrt within 4e-5, rCbrt within 3e-6 relative of the true value; the fast rSqrt is within 2e-3 and the fast recip (for magnitudes 2^-125..2^125) within 3e-3. hypot is within 6e-6 relative for operands of any magnitude, "
  "never overflowing or vanishing while the true result is representable. Negative arguments keep the sign where the function is odd.",
  ["inputs"], "every normal float argument of both signs", "values are printed, not compared.", ["src/ffmath.cpp"], [("bit-level seed and Newton steps", "ffmath::sqrt, rSqrt, cbrt, rCbrt, recip"), ("scaling", "ffmath::hypot")],
  [], "Binades of the whole float range divided in pieces; hypot with one operand on eight magnitudes and the other over the range.", observe=["returned value"], min_obligations=20000,
  iv=[IV("elem", *ROOT), IV("edge", *ROOT)])
P("P37", "Trigonometric and inverse trigonometric functions are accurate",
  "For every argument up to 1000 rad sin and cos are within 1.4e-3 of the true value (1.1e-3 up to 20 rad) and tan within 2e-3 + 1.4 percent on [-1.5,1.5] (3e-3 + 2 percent around the next four zeros); atan is within 7e-3 for every float, asin and acos within 1.3e-2 on [-1,1], and atan2 is within 7.5e-3 of the true angle in every quadrant, on the axes included.",
  ["inputs"], "every float in the stated ranges", "values are printed, not compared.", ["src/ffmath.cpp"], [("range reduction and polynomial", "ffmath::sin, cos, tan, atan, asin, acos"), ("quadrant selection", "ffmath::atan2")],
  [], "atan2 on operand magnitudes 0.05..20 in all four quadrants and along the axes.", observe=["returned value"], min_obligations=20000, iv=[IV("elem", *TRIG), IV("edge", *TRIG)])
P("P38", "Exponential, logarithm, power and hyperbolic functions are accurate",
  "For every argument whose result is a normal float: exp2, exp and exp10 are within 1e-5 relative, expm1 within 5e-7 + 1e-5 relative, log2, log, log10 and log1p within 1.2e-5 absolute, pow of a positive base within 1.5e-4 relative, sinh, cosh within 1e-6 + 1e-5 relative, tanh within 1e-6, and asinh, acosh, atanh within 2e-5 absolute.",
  ["inputs"], "every float in the domain", "values are printed, not compared.", ["src/ffmath.cpp"], [("exponent assembly and polynomial", "ffmath::exp2, log2"), ("identities on top", "ffmath::exp, log, pow, sinh, ...")],
  [], "pow along eleven exponents (bases 1e-8..1e8) and seven bases (exponents -20..20).", observe=["returned value"], min_obligations=60000, iv=[IV("elem", *EXPL), IV("edge", *EXPL)])
P("P39", "Gamma, elliptic, error and related functions are accurate on their main ranges",
  "tgamma is within 2e-4 relative on (0,34], 3 percent between negative integers down to -31; lgamma within 2.5e-4 absolute on (0,30]; beta within 1e-3 relative on (0,20] (5e-3 up to 60); complete elliptic integrals within 1 percent (first two kinds within 2e-4) and incomplete ones within 1.5e-2 (third kind 3e-2) for |k| up to 0.9 and up to "
  "one and a half turns of pi; expint within 2e-4 relative on (0,80] and 1e-5 on [-1,0); zeta within 5e-7 relative for s in [20,60]; sph_legendre within 1.5e-2; erf and erfc within 2e-2; factorials are exact within rounding.",
  ["inputs"], "every float in the stated ranges", "one value of each is printed.", ["src/ffmath.cpp"], [("Lanczos and Stirling forms", "ffmath::tgamma, lgamma"), ("Carlson forms", "ffmath::ellint_rf, ellint_rd, ellint_rj"), ("series", "ffmath::expint, riemann_zeta")],
  [], "Second parameters (moduli, characteristics, orders) on a list of values, the main argument over the whole range.", observe=["returned value"], min_obligations=50000,
  iv=[IV("spec", *SPEC), IV("elem", "erf", "erfc"), IV("edge", "erf", "erfc", *SPEC)])
P("P40", "Bessel functions are accurate in their series and asymptotic ranges",
  "For orders from 0 to 10: cyl_bessel_j and cyl_bessel_i are within 2e-4 for x below sqrt(10(nu+1)), cyl_bessel_j and cyl_neumann within 1e-4 for x in [1000,1100], cyl_bessel_k within 2e-3 relative on [0.05,80] and cyl_neumann within 2e-3 + 5e-3 relative below 2; sph_neumann of order 0..2 within 1 percent below 2.",
  ["inputs", "configurations"], "every float argument in the stated ranges", "one value of each is printed.", ["src/ffmath.cpp"], [("power series and asymptotics", "ffmath::cyl_bessel_ij_series, cyl_bessel_jn_asymp"), ("Temme's method", "ffmath::bessel_jn, bessel_ik, gamma_temme")],
  [], "Orders from a list; iterations followed until the abstract convergence test is decided.", observe=["returned value"], min_obligations=5000, iv=[IV("spec", *BESS), IV("edge", *BESS)])
P("P41", "Fixed-point transcendental functions are accurate to a stated number of units",
  "For every Q16.16 argument in range, in raw units of 2^-16: exp is within 2.5 + 5e-5 relative, log2 and log of arguments from 0.01 up within 8, sinh, cosh within 8 + 7e-5 relative, tanh within 12, sin and cos within 520 (5 on the inner part of their period), tan within 200 + 9 percent, atan, atan2, asin, acos within 700 in every quadrant, "
  "degree conversions within 40; powers with positive integer exponent up to 8 are within 2 + 1e-4 relative (1, -1, 2 and -2 exactly) and other powers within 20 + 5e-4 relative, with the sign rule of even and odd exponents.",
  ["inputs"], "every raw argument in the stated ranges", "few values are printed.", ["src/fp16.cpp"], [("series", "fp16::exp, sin, atan"), ("Newton iteration and digit recurrence", "fp16::log, log2"), ("identities", "fp16::pow, sinh, tanh, asin, atan2")],
  [], "Products, quotients and square roots enter with their proved error bound (P20, P21); atan2 and pow with one operand from a list.", observe=["raw representation of the result"], min_obligations=50000, iv=[IV("fx"), IV("fxe")])

P("P44", "Special functions are accurate in their continued-fraction and series ranges",
  "For middle-range arguments: cyl_bessel_j and cyl_neumann (from their series range up to 100) are within 3e-4 (+ 3e-4 relative for cyl_neumann), cyl_bessel_i within 4e-4 relative, sph_bessel and sph_neumann within 4e-4 + 3e-3 relative, the exponential integral within 1e-4 relative on [-100,-1] "
  "and the zeta function within 1e-3 relative on (1,20) and within 1 percent on (-19,0).",
  ["inputs", "configurations"], "every float argument in those ranges", "results are printed, not compared.", ["src/ffmath.cpp"],
  [("continued fractions", "ffmath::bessel_jn, bessel_ik, expint_En_cont_frac"), ("global series", "ffmath::riemann_zeta_glob"), ("selection of the method", "ffmath::cyl_bessel_i, cyl_bessel_j, cyl_neumann, expint, riemann_zeta")],
  [], "Narrow windows of consecutive floats spread over each range and six orders: the affine error terms grow with every step of the recurrences, so the arguments between the windows stay undecided.", observe=["returned value"], min_obligations=500, iv=[IV("cfrac")])

# ------------------------------------------------------------------------------------------------- effects
P("P42", "The library never allocates, throws, prints, stops or recurses",
  "On every call and every path, no function of the library takes memory from the heap, throws an exception, performs input or output, ends or interrupts the program, or consults clocks, random generators or the environment; "
  "no function calls itself directly or through others and no stack frame has a run-time size, so the stack needed is bounded.",
  ["inputs", "histories"], "every call path of every function, template instances included", "a test sees only the paths it takes, and an allocation or a deep recursion is not visible in its result.",
  ["src"], [("all code", "src/*.cpp, src/include/*.hpp")], [],
  "All call sites of all functions whose definition lies under src, in the library alone and with the template instances of nine harness units; calls through function pointers and virtual functions are resolved for effects (every possible target is itself checked) but not for recursion. "
  "Each rule must also fire on a positive example.", observe=["call sites"], min_obligations=10000, rules=["no-forbidden-effect", "bounded-stack"])
P("P43", "Objects and functions share no hidden mutable state",
  "The result of every operation depends only on its arguments and the objects passed to it: no function of the library modifies an object of static storage duration (global, static member or static local), nor hands out its address for modification. "
  "Hence instances never influence one another, free functions are repeatable, and different objects may be used from different contexts (interrupt and main loop) at the same time.",
  ["schedules", "histories", "inputs"], "every interleaving of calls on different objects", "interference appears only with two instances or contexts in particular orders.",
  ["src"], [("all code", "src/*.cpp, src/include/*.hpp")], [],
  "Every non-constant object of static duration under src, every use of it followed through pointers and calls; one-time initialisation of local constants is allowed. The rule must also fire on positive examples.",
  observe=["uses of static objects"], min_obligations=1000, rules=["no-shared-state"])

# properties stated but not decided by static analysis
NA = {}


def N(pid, title, statement, over, qtext, why, files, mech, reason):
    NA[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=SMOKE + why, files=files, mech=mech, state=[], observe=[], reason=reason)


N("P92", "Closed loops tuned by the library are stable and converge",
  "With the gains produced by auto-tuning, the closed loop with the identified first-order process is stable and the estimates converge to the process parameters under sufficient excitation.",
  ["histories", "inputs"], "every process and excitation", "one simulated loop is printed.", ["src/pid.cpp"], [("recursive least squares and tuning rules", "pidAutoTuning")],
  "Convergence and stability are asymptotic statements about infinite runtime trajectories of a user-supplied process; no static rule over this source bounds them.")
N("P93", "Execution time of every operation is bounded by its configuration",
  "Each operation finishes in a time bounded by the sizes given at configuration, suitable for hard real-time use.",
  ["inputs", "configurations"], "every call", "no timing is measured.", ["src"], [("bounded loops", "all modules")],
  "Worst-case execution time depends on target hardware and on data-dependent iterations (series, elliptic and Bessel evaluations) whose trip counts are runtime floating-point quantities.")
