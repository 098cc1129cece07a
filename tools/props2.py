# The properties, second part: control processing, audio, colors, small types.
from props1 import P

PBTR = "stateful property-based testing against a reference model"

P("C25", "Hysteresis gates and Schmitt triggers switch only across both limits",
  """The output goes high only when the input rises above the high threshold and low only when it falls below the low one, and keeps its state for every input between them,
  and each change gives exactly one edge event. The gate with feedback moves its thresholds with its own output in the same way, for every sequence of inputs.""",
  ["inputs", "histories"],
  "All sequences of inputs which are not exactly on a threshold, for all thresholds with low below high.",
  "The tests sweep a few values up and down once; the property ranges over every history.",
  ["math.hh", "schmitt_trigger.hh"],
  [("compare with one of two thresholds, depending on the state", "util/math.hh: hysteresis_gate, hysteresis_feedback; util/schmitt_trigger.hh: process, update")],
  PBTR, "Random walks and jumps around the thresholds, compared with a two-state reference.")

P("C26", "Togglers, debouncers and edge detectors: one event for each edge",
  """Every change of the (debounced) state gives exactly one rising or falling event, which is reported once and kept until it is read or cleared; the debouncer sees an edge exactly when the last readings (any number but zero is high) match the pattern of that edge.
  Counters give the number of readings since the last edge, copying and transferring state or events between togglers loses or invents no event,
  and edge and change detectors report each edge or change exactly once.""",
  ["histories"],
  "All sequences of readings, queries, resets and transfers, for several debounce patterns and masks.",
  "The tests feed a few fixed sequences of readings.",
  ["debouncer.hh", "debouncer_compact.hh", "edge_detector.hh", "change_detector.hh"],
  [("shift register of readings compared with patterns", "util/debouncer.hh: Debouncer, DebouncerCounter"),
   ("latched events", "util/debouncer.hh: Toggler; util/debouncer_compact.hh"),
   ("previous value", "util/edge_detector.hh, util/change_detector.hh")],
  PBTR, "Random histories with bouncing, compared with a reference that keeps the readings.")

P("C27", "Filters: moving averages, oversamplers, hysteresis and low-pass",
  """The moving average is the average of the latest readings (zero before the first), the oversamplers give the average of each complete block and hold it until the next one is complete, also when the size changes in the middle of a block.
  The hysteresis filter follows its input at the distance of its dead band and stays while the input is within it, the quadratic low-pass follows its recurrence,
  and filters in series pass each value of the first to the second when read.""",
  ["histories"],
  "All sequences of readings within the declared number of bits, for several sizes, types and coefficients.",
  "The tests feed one or two ramps into some of the filters.",
  ["filter.hh"],
  [("running sum over a ring", "util/filter.hh: MovingAverage"), ("sum of a block", "util/filter.hh: Oversampler, SmoothOversampler, ResizingOversampler"),
   ("recurrences", "util/filter.hh: NonLinearOnePoleLp, TransferQuadratic, TransferHysteresis, CascadingFilter")],
  PBTR, "Random histories, exact for integers and within a few ulp for floats, against references that keep all readings.")

P("C28", "Interpolated parameters reach their target in the given number of steps",
  """After a new target is set the value moves in equal steps and has arrived after the given number of updates (or exactly when it is told to snap to it), starting from wherever it was.
  Interpolated arrays take new readings only when they are marked ready, filter each channel on its own, spread the way to the new value over the number of updates between the last two readings,
  and then stay there.""",
  ["histories"],
  "All sequences of targets, steps and readings, for integer and floating point parameters.",
  "The tests follow one target, or two readings.",
  ["interp_param.hh", "filtered_interp_array.hh"],
  [("step size is the distance divided by the number of updates", "util/interp_param.hh: set_new_value, next"),
   ("updates are counted between readings", "util/filtered_interp_array.hh: add_new_readings, get_interp_values")],
  PBTR, "Random histories; floats within rounding of the sum of the steps.")

P("C29", "Polling helpers act once per period, also when the time overflows",
  """An action is run by a poll exactly when at least the period has passed since it ran last (since time zero at first), for every time type, also when the time wraps around.
  Change polling compares the state only at such polls, or at the next one if that was forced, calls a state function only then, and reports that there was a change once, until the next one.""",
  ["histories"],
  "All sequences of non-decreasing times with wrap-around, states and queries, for signed, unsigned and floating point times.",
  "The tests poll a few times near zero; what matters is the wrap-around.",
  ["poll_event.hh", "poll_change.hh"],
  [("unsigned difference of times", "util/poll_event.hh: elapsed; util/poll_change.hh: poll")],
  PBTR, "Random histories near the limits of the time type.")

P("C30", "Oscillators and timers: exact phase, period and shape",
  """Triangle, ramp and sine oscillators advance by the same phase at each update (as given by the frequency or period and the update rate), wrap around without loss, and their value is the exact function of the phase in all number formats.
  The down counter falls from its maximum to 0 within its period and stays there, and a one-shot pulse is on for its length, from when it is started (again) until it ends or is stopped.""",
  ["histories", "inputs"],
  "All sequences of updates, changes of frequency, period and phase, and resets, for several update rates.",
  "The tests run a few periods at one or two frequencies.",
  ["oscs.hh"],
  [("32-bit phase accumulator", "util/oscs.hh: TriangleOscillator, PhaseAccum, SineOscillator"), ("saturating subtraction", "util/oscs.hh: DownCounter"), ("remaining time", "util/oscs.hh: OneShot")],
  PBTR, "Random histories; exact for integers, floats within rounding.")

P("C31", "Colors: conversions, blends and adjustments stay exact and in range",
  """Conversions between 24-bit, 16-bit, grey, byte-swapped and HSV colors follow their bit layouts and formulas, and converting back gives the color again within the precision of the smaller format; equal colors compare equal and different ones do not.
  Blending gives a color between the two, each component on its own, with the exact colors at the ends; adjusting scales each component and never exceeds its range.""",
  ["inputs"],
  "All colors, phases, brightnesses and adjustments.",
  "The tests convert and blend a handful of colors.",
  ["colors.hh", "colors_rgb565.hh", "hsv.hh"],
  [("component arithmetic", "util/colors.hh: blend, adjust, Rgb565"), ("bit fields", "util/colors_rgb565.hh"), ("sector formula", "util/hsv.hh")],
  "property-based testing: differential against component-wise references, round trips",
  "Random and boundary-biased colors and phases; rounding is left open where a phase is between two steps. Sums of colors that exceed a component's range are not generated.")

P("C32", "Audio frames: samples and floats convert into each other in range",
  """A sample is read as its sign-extended value divided by full scale, for every width of sample, and a float is written as that fraction of full scale, limited to the range of the width, on the given channel only.
  Reading back a written value gives it again within one step, and a value written again after reading is unchanged.
  Saturating a number to a signed or an unsigned width gives the nearest number of that width.""",
  ["inputs"],
  "All samples and levels (also beyond full scale), for signed samples of several types and widths and for unsigned ones, and numbers of channels.",
  "The tests convert a few samples of 16 and 24 bits.",
  ["audio_frame.hh", "cortex_math.hh"],
  [("sign extension by a bit field, scaling by a power of 2, saturation", "util/audio_frame.hh: sign_extend, scaleInput, scaleOutput; util/cortex_math.hh")],
  "property-based testing: differential against exact arithmetic, round trips",
  "Random and boundary-biased samples and levels.")

P("C33", "Calibration: the line through the measurements, and its inverse",
  """A calibration made from two targets and two measurements maps each measurement to its target and all others on the same line; the reverse undoes it, in both orders.
  The volt-per-octave calibration gives slope and offset of the latest two measured notes, a measured C0 overrides the offset, unusable pairs change nothing in the slope, and reset forgets all.""",
  ["inputs", "histories"],
  "All slopes, offsets, targets, measurements and orders of notes.",
  "The tests calibrate with a few numbers.",
  ["calibrator.hh", "voct_calibrator.hh"],
  [("slope and offset", "util/calibrator.hh: calibrate_chan, adjust, reverse_calibrate"), ("two latest data points", "util/voct_calibrator.hh: record_measurement")],
  "property-based testing: differential against exact lines, round trips, reference history",
  "Random lines and note sequences; tolerances follow from float rounding.")

P("C34", "Partitioning: every element in one part, sums kept balanced",
  """Each element is in exactly one part, whatever was partitioned before with the same object, and none is invented.
  Going from the largest to the smallest element, each one is in a part whose sum (including its initial value) was smallest at that time, so that sums differ by at most one element where possible.""",
  ["inputs", "histories"],
  "All lists of values up to the capacity, initial values, and repeated use, for several numbers of parts.",
  "The tests split a few lists.",
  ["partition.hh"],
  [("greedy, largest first", "util/partition.hh: calc_partitions")],
  "property-based testing: permutation and greedy-balance invariants",
  "Random lists with many equal values; any tie-breaking between equal values and sums is accepted.")

P("C35", "Rotary encoders: exact steps, direction, and nothing from noise",
  """Any sequence of readings gives a clockwise or counter-clockwise step exactly when its last different states complete the detent in that direction, so that a turned knob reports each detent once with its direction, and contact bounce or repeated readings add nothing.
  Motion which is used, added or transferred is neither lost nor counted twice.""",
  ["histories"],
  "All sequences of readings of both contacts, for both polarities, and all sequences of motion operations.",
  "The tests turn one knob by a few fixed sequences.",
  ["quadrature_encoder.hh", "rotary_motion.hh"],
  [("the last four different states are compared with one full turn of the contacts", "util/quadrature_encoder.hh: get_motion"), ("motion and position", "util/rotary_motion.hh")],
  PBTR, "Random readings, and simulated knobs with bounce, against a reference that keeps the states.")

P("C36", "Zip, counted zip and enumerate: same elements, shortest length",
  """Iterating over several ranges together gives the elements of each in order, together with their number when counted, ends with the shortest range (also an empty one), and never accesses a range outside.
  Elements are the originals: what is assigned through them changes the ranges, and constant ranges stay constant.""",
  ["inputs"],
  "All lengths of two or three ranges, of vectors (also of bits), arrays, lists and strings, constant or not.",
  "The tests zip ranges of one or two lengths.",
  ["zip.hh", "countzip.hh", "iterator_helpers.hh"],
  [("the end is reached when any iterator is at its end", "util/iterator_helpers.hh: any_match; util/zip.hh, util/countzip.hh")],
  "property-based testing: differential against indexed loops, under AddressSanitizer",
  "Random lengths and contents in exact heap blocks.")

P("C37", "Allocators and aligned storage: inside, disjoint and aligned",
  """Blocks from the monotonic allocator are inside of its arena, do not overlap until it is reset, and are refused exactly when they do not fit, also for absurd sizes; the reported space is exact.
  Aligned allocations (refused if the number of bytes overflows) and padded objects start at a multiple of the alignment, padded objects also end at one, and they hold what was stored; heap buffers make and destroy one object each, also when they are copied.""",
  ["inputs", "histories"],
  "All sequences of allocations of any size and alignment, resets and uses, for several arena sizes.",
  "No test includes any of them; sizes at the limits are where it breaks.",
  ["monotonic_allocator.hh", "aligned_allocator.hh", "padded_aligned.hh", "big_buffer.hh"],
  [("position within a span", "util/monotonic_allocator.hh"), ("size is rounded up to the alignment", "util/aligned_allocator.hh, util/padded_aligned.hh"), ("new and delete of one object", "util/big_buffer.hh")],
  "stateful property-based testing: disjointness and alignment invariants, under AddressSanitizer",
  "Random histories on arenas in exact heap blocks. The platform's big heap is replaced by the ordinary one.")

P("C38", "Geometry: rectangle intersection and concavity of polygons",
  """Two rectangles intersect exactly when they have a coordinate in common (edges belong to them), in both directions and for both orders of the two; sizes, edges and centers agree between both forms of rectangles.
  A polygon is called concave exactly when it turns both left and right, wherever it starts and in whatever direction it is given; fewer than three points or collinear ones are not.""",
  ["inputs"],
  "All rectangles with left not after right and top not after bottom, and all polygons of signed or unsigned integer points (up to 2^30 in size) or float points.",
  "Static assertions check two polygons, and nothing else does.",
  ["geometry.hh"],
  [("interval tests", "util/geometry.hh: x_intersects, y_intersects"), ("signs of the cross products at all corners", "util/geometry.hh: is_poly_concave")],
  "property-based testing: differential against interval overlap and exact cross products, metamorphic rotation and reversal",
  "Random rectangles in small and large coordinates, random and convex polygons.")

P("C39", "Stream buffers, byte blocks, bit fields and smallest integers",
  """An input buffer keeps the first items up to its size and ignores the rest, an output buffer gives its items in order and default values when used up, and reset starts again; byte blocks are the little-endian bytes of all that was printed, in order.
  Or-ing enumerators or integers gives the bitwise or of all of them, a visitor made of lambdas calls the one for the type, and the smallest integer type for a limit is the narrowest one that holds it.""",
  ["inputs", "histories", "configurations"],
  "All sequences of operations and all values, for several sizes and types.",
  "The tests check a few values and limits.",
  ["input_output_buffer.hh", "byte_block.hh", "bitfield.hh", "smallest_integer.hh", "overloaded.hh"],
  [("bounded position", "util/input_output_buffer.hh"), ("byte order", "util/byte_block.hh"), ("fold over the values", "util/bitfield.hh"), ("comparison with the limits of the types", "util/smallest_integer.hh")],
  PBTR, "Random histories and values; smallest types are checked at compile time for a list of limits.")

P("C40", "Parameters and meters: every change is noticed once, extremes are kept",
  """A parameter reports that it was changed, once, if it was set to a different value since the last query, a latched one only takes changes of at least the minimum, and one which refers to a variable compares with the value at the last query.
  Signal meters keep the exact minimum and maximum since their reset for any values, also when all are negative, and the smoothed value follows its recurrence.""",
  ["histories"],
  "All sequences of values, queries and resets, for several types and thresholds.",
  "The tests set a few values.",
  ["parameter.hh", "analyzed_signal.hh"],
  [("changed flag or last value", "util/parameter.hh"), ("running extremes", "util/analyzed_signal.hh")],
  PBTR, "Random histories with repeated and nearby values.")

P("C41", "RGB LED: background, flash, fade and breathing shown as documented",
  """Each update shows the flash color while a flash lasts (blended in by what is left of it when fading), otherwise the background blended with the breathing color by its phase, otherwise the background; then calibrated, on the LED of each component.
  Flashes end in their time and the background returns, breathing goes on at its frequency until it is reset, and setting a color directly shows it, scaled by the brightness.""",
  ["histories"],
  "All sequences of colors, flashes, fades, breathing, calibrations and updates, with one or three types of LEDs.",
  "No test includes it, and its behaviour is a history of overlapping animations.",
  ["rgbled.hh", "colors.hh", "oscs.hh"],
  [("priority of the animations", "util/rgbled.hh: update_animation"), ("calibration and brightness", "util/rgbled.hh: set_color, set_color_calibration")],
  PBTR, "Random histories; LEDs record what they are set to, compared with a reference built on 64-bit phases.")

P("C42", "Memory test: good memory passes, faulty cells and address lines fail",
  """Memory which keeps what is written passes and nothing outside of the range is written, for every range, empty ones included.
  A cell which does not keep what is written, a bit which is stuck at one of the values, a cell which is changed by writing a later one, different addresses which are the same memory, and (from 64 cells on) a data line which is stuck or connected to another one are found, wherever in the range they are.
  A range given by addresses fails without any access when its end is before its start.""",
  ["inputs", "fault_sequences"],
  "All ranges and all faults of the kinds above, at every cell, bit, line and page.",
  "The tests do not test it, as they have no faulty memory.",
  ["mem_test.hh"],
  [("a pattern of a long period is written everywhere before it is read", "util/mem_test.hh: check")],
  "property-based testing with fault injection: simulated faulty memory",
  "The code is single-stepped in-process, and the fault model changes memory after each instruction; shorted address lines are pages mapped several times (up to 2 MB).")

P("C43", "SIMD emulation: lane by lane the same as scalar arithmetic",
  """Loading, duplicating, multiplying, multiplying and adding, subtracting, maximum, pairwise addition and access to halves and lanes of emulated vectors give in each lane the result of the scalar operation on the same lanes of the arguments.""",
  ["inputs"],
  "All vectors of floats, also infinite ones.",
  "The tests do not include it.",
  ["soft_neon.hh"],
  [("scalar operations per lane", "util/soft_neon.hh")],
  "property-based testing: differential against scalar arithmetic",
  "Random vectors; multiply-add may be rounded once or twice. Arguments stay as they were.")
