prop("K01", "One update performs the Kalman filter equations",
 "Whatever the system matrices, the state of the estimator and the inputs, one update leaves state = Ax+Bu + K(z-H(Ax+Bu)), gain = P'H^T(HP'H^T+R)^-1 and covariance = (I-KH)P' with P' = APA^T+Q, and time advanced by dt. This holds for the first update after construction and for every update after any history of updates. For a scalar measurement whose innovation variance is zero the gain is zero and the prediction is kept.",
 ["inputs", "histories"], "all real-valued matrices A, B, H, Q, R, P, x, inputs u, z and step dt; every reachable estimator state; 2 states x {1,2} measurements x {1,2,3,8} inputs, double and float, the instantiations the matrix library's inverse supports",
 "The tests run a handful of fixed numbers through one or two updates and compare printed digits; they cannot cover all matrices or all histories.",
 ["include/dsp/kalman.hpp", "include/num/matrix.hpp"], [("predict/correct step", "include/dsp/kalman.hpp: update()"), ("matrix operators, inverted, transposed", "include/num/matrix.hpp")],
 REAL + "Innovation covariance regular when the measurement is 2-dimensional (with symmetric P, Q, R).",
 state=[("x, P, K, t", "estimate, error covariance, gain, time", "include/dsp/kalman.hpp: private members")], observe=["system_state(), estimation_error_covariance(), kalman_gain(), time()"])
prop("K02", "The error covariance stays symmetric positive semidefinite",
 "If the initial covariance and the process and measurement noise covariances are symmetric positive semidefinite and the innovation covariance is regular, the estimation error covariance is symmetric positive semidefinite after every update. A correction never increases it: predicted minus corrected covariance is positive semidefinite.",
 ["inputs", "histories"], "all symmetric positive semidefinite P, Q, R, all A, H, inputs; by induction over any number of updates; scalar and 2-dimensional measurements",
 "An invariant over all matrices and any number of updates; tests look at single numeric outcomes.",
 ["include/dsp/kalman.hpp", "include/num/matrix.hpp"], [("covariance update", "include/dsp/kalman.hpp: update()")],
 REAL + "Lemmas used are proved in the same run.", observe=["estimation_error_covariance()"])
prop("K03", "Kalman queries are pure and updates touch only the estimate",
 "Constructing an estimator stores exactly the given matrices, time 0 and gain 0; observers return the same values however often they are called and change nothing; an update changes only state, covariance, gain and time. Two estimators never influence each other, and a copy continues exactly like the original.",
 ["inputs", "histories"], "all constructor arguments, all updates, any interleaving of observers",
 "Frame conditions quantify over everything that must not change; the tests only look at what does.",
 ["include/dsp/kalman.hpp"], [("constructor and observers", "include/dsp/kalman.hpp")], REAL, observe=["all observers"])
prop("M01", "Element access addresses exactly one row-major element",
 "Element (r,c), index [i] and iteration all address the same row-major elements: writing one element changes that element as seen through every access path and no other. All accesses stay inside the object.",
 ["inputs"], "all in-range indices, all element values; 23 shapes from 1x1 to 16x16, 33x1 and 65x2; double, float and five integer element types",
 "Tests read back a few elements of 2x2 and 2x3 matrices; they do not check that nothing else changes for every index.",
 ["include/num/matrix.hpp"], [("operator(), operator[], begin/end", "include/num/matrix.hpp")], "Every memory access of the code is bounds-checked.")
prop("M02", "Elementwise matrix operators act on every element and nothing else",
 "A+B, A-B, A+v, v+A, A-v, A*v and v*A (v a scalar or a 1x1 matrix) yield exactly the elementwise result for every element, and leave their operands unchanged. 1x1 matrices mix with scalars like scalars, v-A included.",
 ["inputs"], "all element values; 23 square, rectangular and vector shapes from 1x1 to 16x16, 33x1 and 65x2; double, float and three integer element types", "Tests use a few small integers in one or two shapes.",
 ["include/num/matrix.hpp"], [("elementwise binary operators", "include/num/matrix.hpp")], REAL)
prop("M03", "The matrix product is the algebraic product for all shapes",
 "For every pair of conformable matrices and vectors, element (i,j) of the product is the sum over k of a(i,k) b(k,j), in the N x M result shape. Operands are unchanged.",
 ["inputs"], "all element values; 50 square and non-square matrix-matrix, matrix-vector and vector-matrix shapes, inner dimensions 1 to 65; double, float and three integer element types", "Tests multiply a few square integer matrices.",
 ["include/num/matrix.hpp"], [("operator*", "include/num/matrix.hpp")], REAL)
prop("M04", "Transpose and identity obey their algebraic laws",
 "transposed(A) has A's elements mirrored, transposing twice gives A back and transposed(AB) = transposed(B) transposed(A). eye is the neutral element of the product.",
 ["inputs"], "all element values; square and rectangular shapes and vectors", "Algebraic laws quantify over all matrices.",
 ["include/num/matrix.hpp"], [("transposed, eye", "include/num/matrix.hpp")], REAL)
prop("M05", "inverted() yields the matrix inverse",
 "For every regular 1x1 and 2x2 matrix A, A times inverted(A) is the identity; A is unchanged.",
 ["inputs"], "all regular matrices", "The one test value of the tests is the transposed inverse: they pin the defect recorded as a known finding.",
 ["include/num/matrix.hpp"], [("inverted", "include/num/matrix.hpp")], REAL + "The general 2x2 case is a listed known finding (transposed inverse, required by the existing tests); symmetric and diagonal matrices, scalars, and the recorded deviation itself are proved.")
prop("M06", "Construction gives every element its specified value",
 "A matrix built from a value has that value in every element; one built from an initializer list has the list in row-major order, zeros after a short list; copies, assignments and moves give exactly the source's elements, independent of it. No element is left unspecified where a value is given.",
 ["inputs"], "all values; 23 shapes from 1x1 to 16x16, 33x1 and 65x2; lists of every length up to 6, of 9, 10, 13 and 25; double, float and five integer element types", "Tests build a few matrices.",
 ["include/num/matrix.hpp"], [("constructors", "include/num/matrix.hpp")], "Reads of uninitialised memory are obligations.")
prop("A01", "std subset algorithms match their standard specification",
 "copy, fill, equal (with and without predicate) and swap of the std subset behave as the C++ standard specifies, for every sequence length: each element is dealt with exactly once, in order, comparison stops at the first mismatch, and nothing outside the range is read or written.",
 ["inputs"], "all values and all lengths (by loop invariant)", "Tests use one short array.",
 ["include/std/algorithm.hpp", "include/std/utility.hpp"], [("copy, fill, equal", "include/std/algorithm.hpp"), ("swap", "include/std/utility.hpp")], "Iterators are abstract; a loop invariant at the loop head covers every length.")
prop("T01", "The freestanding std subset agrees with the C++ standard",
 "On targets without a standard library, the library's own numeric_limits, type traits, fixed-width integers, move, swap, initializer_list, ignore and complex give what the C++ standard specifies for their namesakes: limits and signedness of every integer type, the qualifiers each trait removes, the elements and length of every braced list, and complex construction, assignment and arithmetic, compound forms with an aliased operand included.",
 ["inputs"], "all values of all integer types of 8 to 64 bits, all complex numbers, lists of any elements, on the 16-bit freestanding instantiation",
 "The tests run on a hosted target, where these headers forward to the real standard library: this code is never compiled by them.",
 ["include/std/limits.hpp", "include/std/type_traits.hpp", "include/std/utility.hpp", "include/std/complex.hpp", "include/std/tuple.hpp", "include/std/cstdint.hpp"],
 [("numeric_limits", "include/std/limits.hpp"), ("traits", "include/std/type_traits.hpp"), ("initializer_list, move, swap", "include/std/utility.hpp"), ("complex", "include/std/complex.hpp")],
 REAL + "complex abs() and sqrt() are declared but not defined in the library and are outside the property.")
prop("R01", "Ranges visit exactly the specified values",
 "range(first,last,step) visits first, first+step, ... while before last, and nothing else; in floating point the k-th value is first + k*step, rounding errors do not accumulate over the steps; range(first) never ends; indices(c) visits 0..size-1. Iterator equality is end-detection and the opposite of inequality. as<T>(v) is the value converted to T.",
 ["inputs", "histories"], "all first <= last, all steps > 0 that do not overflow, integer and real element types, any point of the traversal",
 "Tests print a few ranges.", ["include/core/range.hpp", "include/core/shims.hpp"], [("range iterators", "include/core/range.hpp"), ("as", "include/core/shims.hpp")], "Steps are positive and values do not overflow the type.")
FX = ["include/num/fixed-point.hpp"]
prop("F01", "A fixed-point number is the nearest representable of the given value",
 "Constructing a fixed_point from a real number in range gives the representable value nearest to it, halves away from zero; constructing or assigning from an integer in range is exact. A value converted to double and back is unchanged.",
 ["inputs"], "all in-range doubles and floats, all in-range integers of 8 to 64 bits signed and unsigned; ten formats with 8, 16 and 32-bit representations, with and without scale bits",
 "Tests convert a handful of values in two or three formats; rounding errors need particular bit patterns.",
 FX, [("converting constructors", "include/num/fixed-point.hpp: fixed_point(), to fixed")], "IEEE double and float semantics, bit-precise.")
prop("F02", "Fixed-point sum, difference, sign and order are exact",
 "Whenever the result is representable, a+b, a-b and -a are exact, in plain and assigning form; the six comparisons agree with the order of the represented values; mixing with numbers converts these first. Operands other than the assigned one are unchanged.",
 ["inputs"], "all representations of ten formats", "Tests add a few values.", FX, [("arithmetic and relational operators", "include/num/fixed-point.hpp")], "Bit-precise; signed overflow of a representable result is an obligation.")
prop("F03", "Fixed-point product and quotient are the rounded exact results",
 "Whenever the result is representable, a*b is the exact product rounded down to the format's resolution and a/b the exact quotient rounded toward zero: intermediate results never overflow. Operands other than the assigned one are unchanged.",
 ["inputs"], "all representations of ten formats", "Overflow of intermediate results and rounding of negative values need particular operands.", FX, [("operator*, operator/", "include/num/fixed-point.hpp")], "Bit-precise.")
prop("F04", "Reading a fixed-point number gives its value",
 "as_double() and as<double>() are exact, as<float>() is the exact value rounded once, as<integer>() truncates toward zero for every target width the value fits; representation access and min/max round-trip unchanged. Reading changes nothing.",
 ["inputs"], "all representations of ten formats, integer targets of 16 to 64 bits", "Tests read a few values back.", FX, [("as, as_double, underlying_value, to_rep, from_rep", "include/num/fixed-point.hpp")], "IEEE double and float semantics, bit-precise.")
BQ = ["include/dsp/biquad.hpp"]
prop("B01", "Every realisation of a bi-quad computes the difference equation",
 "step, step_df2 and step_df2_transposed each yield y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2], from the first sample after construction or reset on and at every later moment. The forms agree with each other and are linear, also for complex signals and coefficients of another type.",
 ["inputs", "histories"], "all coefficients, all input signals, any history (the state is arbitrary)", "Tests feed an impulse to one filter.",
 BQ, [("step functions", "include/dsp/biquad.hpp")], REAL, state=[("v1, v2", "the filter's memory", "include/dsp/biquad.hpp")], observe=["return value of step*()"])
prop("B02", "A bi-quad's coefficients and state are what was given and stepped",
 "Construction stores the given coefficients and zero state; steps change only the state, reset() clears only the state and makes the filter like new; swap exchanges two filters completely, copies are independent and observers change nothing.",
 ["inputs", "histories"], "all coefficients, any history", "Frame conditions quantify over everything that must not change.", BQ, [("constructors, reset, swap", "include/dsp/biquad.hpp")], REAL)
prop("B03", "Poles and zeros are the roots of the transfer function",
 "solve(a,b,c) yields both roots of a z^2 + b z + c; poles() and zeros() are the roots of z^2+a1 z+a2 and b0 z^2+b1 z+b2. A bi-quad made from zeros, poles and gain has the corresponding polynomials, and remaking a bi-quad from its own zeros, poles and gain gives its coefficients back.",
 ["inputs"], "all coefficients with b0 (a) nonzero; real and conjugate root pairs", "Tests look at two polynomials.", BQ, [("solve, poles, zeros", "include/dsp/biquad.hpp")], REAL)
prop("B04", "is_stable() holds exactly if both poles are in the unit circle",
 "is_stable() returns true exactly if both roots of z^2 + a1 z + a2 have magnitude at most 1, real and complex poles alike.",
 ["inputs"], "all coefficients", "Tests try two filters; the boundary runs through all of the coefficient plane.", BQ, [("is_stable", "include/dsp/biquad.hpp")], REAL + "Poles on the circle count as stable, as the code's definition has it.")
prop("B05", "response() is the transfer function on the unit circle",
 "response(q,f) equals (b0+b1/z+b2/z^2)/(1+a1/z+a2/z^2) at z = exp(2 pi j f), for every biquad and frequency at which the denominator is not zero.",
 ["inputs"], "all coefficients and frequencies", "Tests print one response.", BQ, [("response", "include/dsp/biquad.hpp")], REAL)
CC = ["include/dsp/biquad-cascade.hpp"]
prop("C01", "A cascade is an ordered sequence of sections",
 "append, insert, remove, replace and clear change exactly the section concerned and keep the others, with coefficients and state, in order; size, indexing and iteration agree; copies are independent. This holds in every state that any history of these operations reaches.",
 ["inputs", "histories"], "all section contents; capacities 1 to 5 and 8, every size and every position", "Tests append a few sections and remove one.",
 CC, [("append, insert, remove, replace, clear", "include/dsp/biquad-cascade.hpp")], REAL + "Capacity is a template parameter: proved for the instantiations 1 to 5 and 8.")
prop("C02", "A cascade filters like its sections one after the other",
 "Stepping a cascade feeds each section the previous one's output, in each realisation form, stepping every section exactly once; reset resets all; it is stable exactly if all sections are; its response is the product of theirs.",
 ["inputs", "histories"], "all coefficients, states and inputs; cascades of 0 to 5 sections", "Tests compare a few outputs.", CC, [("step, reset, is_stable, response", "include/dsp/biquad-cascade.hpp")], REAL)
DS = ["include/dsp/biquad-design.hpp", "include/dsp/filter.hpp"]
prop("D01", "Designed bi-quads are the bilinear transform of their analog prototype",
 "For low pass, high pass, band pass, band stop, low shelf, high shelf and peak band eq, the designed coefficients are the bilinear transform, prewarped at the requested frequency, of the textbook analog prototype with the requested Q and dB gain. Hence the gains at frequency 0, at half the sampling rate and at the requested frequency are the requested ones.",
 ["inputs"], "all frequencies 0 < f < fs/2, all Q > 0, all gains in dB", "Tests print coefficients for one request per response.", DS, [("biquad_design", "include/dsp/biquad-design.hpp")], REAL + "tan, pow, sqrt and log10 have their mathematical values.")
prop("D02", "Designed bi-quads are stable",
 "Both poles of every designed bi-quad are strictly inside the unit circle.", ["inputs"], "all responses, all frequencies 0 < f < fs/2, all Q > 0, all gains in dB",
 "Stability over a continuum of requests.", DS, [("biquad_design", "include/dsp/biquad-design.hpp")], REAL)
prop("D03", "Decibel and prewarp conversions are their definitions and inverses",
 "dbP and dbV are 10 and 20 times the decimal logarithm of the ratio, dbP_factor and dbV_factor are 10^(|d|/10) and 10^(|d|/20) and undo them; prewarp is tan(pi f/fs). Integral arguments, and arguments of two different types, give the same values as real ones.",
 ["inputs"], "all positive signals, all decibel values, all frequencies", "Tests use two or three values.", ["include/dsp/filter-design.hpp", "include/dsp/biquad-design.hpp"], [("dbP, dbV, dbP_factor, dbV_factor, prewarp", "include/dsp/")], REAL)
OP = ["include/dsp/onepole.hpp"]
prop("O01", "The one-pole filter computes its difference equation, pole and response",
 "step yields y[n] = b0 x[n] - a1 y[n-1] at every moment; the pole is -a1, is_stable() holds exactly if it is in the unit circle, response is b0/(1+a1/z) on it. Construction, reset, swap and copies act on exactly the coefficients and state.",
 ["inputs", "histories"], "all coefficients, signals, histories and frequencies", "Tests step one filter a few times.", OP, [("step, poles, is_stable, response", "include/dsp/onepole.hpp")], REAL)
prop("O02", "One-pole designs have unity pass-band gain and a stable pole",
 "The low pass has gain 1 at frequency 0, the high pass gain 1 at half the sampling rate; the pole lies strictly inside the unit circle on the pass-band side with the decay exp(-pi f/fs) (mirrored for the high pass). Frequencies of mixed or integral type give the design of their common type.",
 ["inputs"], "all 0 < f < fs/2", "Tests print one design.", ["include/dsp/onepole-design.hpp"], [("onepole_design", "include/dsp/onepole-design.hpp")], REAL)
prop("E01", "Chebyshev designs have the least order, the poles and the response asked for",
 "The order is the least that meets the pass- and stop-band request; the sections carry exactly the Chebyshev type 1 or 2 poles and zeros, inside the unit circle; the squared magnitude response is 1/(1+e^2 T_n^2), respectively its inverse form, at every frequency, normalised at the pass band's far end; f3 is where it is one half. The reported design data (edge frequencies, ripples, exact and rounded order, pole parameter) are those of this filter, and mixed or integral request types give the design of their real values.",
 ["inputs"], "all requests (low and high pass, any sampling, pass and stop frequency, ripple and attenuation) that orders 1 to 12 fulfil (order, poles, zeros, stability, design data and the half-power frequency f3), 1 to 10 (normalisation), 1 to 8 (magnitude at every frequency)",
 "Tests compare printed digits of one request.", ["include/dsp/chebyshev-design.hpp"], [("chebyshev1_lp_hp, chebyshev2_lp_hp", "include/dsp/chebyshev-design.hpp")], REAL + "Ripple at least 0.01 dB. Orders above 12 are outside the proof.")
RG = ["include/mcu/register.hpp"]
DEV = "Device registers behave as memory with an event log; the MCU code is compiled for a 16-bit freestanding target. "
prop("G01", "A bit-field access touches only its own bits",
 "Reading a field yields exactly its bits, shifted down. Writing, setting, clearing or toggling a field changes exactly its bits (value masked to the field) and keeps every other bit of the register and every other register; a whole-register write is one plain write.",
 ["inputs"], "all register contents and all values, for fields at every position and width of 8- and 16-bit registers", "Tests of the MCU layer only compile.", RG, [("bitfield_t, r_t, w_t, rw_t", "include/mcu/register.hpp")], DEV + "The mutability predicates are those of the enumeration's documentation. Access policies with their hardware meaning (rc_w1 etc.) are checked for the write they issue.")
prop("G02", "Lazily combined writes equal the separate field writes in one access",
 "(f1.write_lazy(a), f2.write_lazy(b), ...) performs exactly one write, at the end of the full expression, with all fields set to their values masked to the field and the other bits as they were; discarded proxies write nothing.",
 ["inputs"], "all register contents and values, combinations of two to four fields", "Needs the number and order of device accesses, which tests cannot see.", RG, [("write_proxy, operator,", "include/mcu/register.hpp")], DEV)
prop("G03", "Multi-byte accesses through atomic() happen with interrupts off",
 "atomic(v) reads and atomic(d,v) writes a value of more than one byte between cli and sei, returns or stores exactly the value, and leaves interrupts on; single bytes are accessed plainly.",
 ["inputs", "histories"], "all values", "The order of device accesses relative to cli/sei is invisible to tests.", RG, [("atomic, scoped_interrupt_guard", "include/mcu/register.hpp")], DEV + "Interrupts are assumed on before, as the code documents.")
AT = ["include/mcu/atmega328.hpp", "include/mcu/register.hpp"]
prop("G04", "Each peripheral setting is stored in, and read from, its own register bits",
 "For every setting of EEPROM, general purpose registers, external interrupts, timers 0 and 1, prescaler, TWI, comparator and ADC: set() writes the value to exactly the bits the device defines for it, leaving all other bits and registers alone; current() reports those bits, so that it returns what was set; settings of one register are combined in one access. The named values are the device's codes. Every named register and register bit accesses the device's register and bit of that name, in its width.",
 ["inputs"], "all register contents and all setting values", "Tests of the MCU layer only compile.", AT, [("set(), current()", "include/mcu/atmega328.hpp")], DEV + "Oracle: avr-libc's register and bit names of the ATmega328P.")
prop("G05", "Clearing an interrupt flag clears that flag and no other",
 "clear() writes 1 to the flag asked for; in a register of flags only, nothing else is written 1; among settings, these keep their value. current() reports the flag. Force-compare strobes set exactly their bit.",
 ["inputs", "histories"], "all register contents", "A flag that is lost when another is cleared shows only for certain interrupt timings.", AT, [("rcf_w1_t, rc_w1_t, clear(), current()", "include/mcu/")], DEV)
prop("G06", "The TWI write follows the bus protocol for any device answers",
 "twi::sync::write sends start, address, data byte and stop in this order, waits for the device before each status check, proceeds only on the expected status, and otherwise reports an error and sends nothing more. init sets bit rate, prescaler, enables the interface and the pull-ups of SDA and SCL and disturbs no other pin.",
 ["inputs", "schedules"], "all addresses, bytes, device answers and waiting times", "Needs a device that answers in every way after any time.", AT, [("twi::sync", "include/mcu/atmega328.hpp")], DEV + "Waiting loops: every number of polls (states that repeat are cut off soundly); that the device answers at all is not claimed.")
prop("G07", "Pins, LED, PWM and saved status act on exactly their own bits",
 "Pin direction, output and level of each port pin, LED operations, PWM initialisation and output, and the status register access the bits the device defines, and no others; a scoped_sreg restores the status register when its scope ends, nested ones included.",
 ["inputs", "histories"], "all pins of ports B, C and D, all register contents and values", "Tests of the MCU layer only compile.", AT, [("gpio, led, tc1_pwm_on_a_pb1, core", "include/mcu/atmega328.hpp")], DEV)
prop("X01", "Printing an object shows each of its values in its place",
 "Inserting a matrix, vector, fixed-point number, bi-quad (its coefficients, state, solution, stability), cascade, one-pole filter (with its stability) or Chebyshev design data into a stream writes every value of the object exactly once, in order, after its label and in the layout the library uses: matrices row by row, cascades with size, capacity, stability and every section. Printing changes nothing of the object.",
 ["inputs"], "all element, coefficient and state values; matrix shapes 1x1 to 4x3, vectors of 0 to 5 elements, cascades of 0 to 2 sections, four fixed-point formats",
 "Tests look at the text of a few objects; a value shown in another's place needs an object where the two differ.",
 ["include/num/matrix-io.hpp", "include/num/fixed-point-io.hpp", "include/core/vector-io.hpp", "include/dsp/biquad-io.hpp", "include/dsp/biquad-cascade-io.hpp", "include/dsp/onepole-io.hpp", "include/dsp/chebyshev-design-io.hpp"],
 [("operator<< for std::ostream", "include/*/*-io.hpp")], REAL + "Contract assumed on the standard library's stream insertion: the text of a value depends on the value and its kind alone, a complex number reads (re,im). The number of digits shown is the stream's business.")
