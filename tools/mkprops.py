"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "A sampled series answers as an ordered map through every edit history",
  "After any sequence of appends, bulk appends, replacements, insertions, range removals, clears and whole replacements, a sampled series answers exactly like a plain ordered list of its current samples: same domain, same samples, same first/last, and at every x the sample value or the previous/linear/next interpolation of its two neighbours, and nothing outside the domain. This holds whether the series is declared evenly spaced or not, whatever spacing it had earlier, and whatever the caller later does to the lists it passed in or was handed.",
  ["histories", "inputs"], "every interleaving of edits and reads on one series, evenly spaced or not, under all three interpolations, including spacing changes and caller-side mutation of shared lists",
  "test/points_test.py checks single edits on hand-written lists; spacing classification, cached domains and cached intervals only go wrong across sequences of edits.",
  ["curvepy/points.py", "curvepy/curve.py"],
  [("sample store, spacing classification and x index", "curvepy/points.py append_list/replace/reset/set/_points_equally_spaced/x_index/_domain_indexes"), ("domain cache invalidation", "curvepy/curve.py end_update")],
  [("samples", "the ordered samples", "curvepy/points.py"), ("interval / is_uniform", "cached spacing used for index arithmetic", "curvepy/points.py"), ("domain", "cached domain", "curvepy/curve.py")],
  ["y(x)", "domain", "sample_points()", "first_point/last_point/y_start/y_end"])

p("C02", "A rejected edit leaves no trace",
  "When an edit or reconfiguration of a source is rejected with an error (out of order, off the declared spacing, outside the bounds, incomplete description), every answer of that source and of everything derived from it is the same as before the call, nothing is left in an updating state, and every notification that was started is finished. The next valid edit works as if the rejected one had never been tried.",
  ["fault_sequences", "histories"], "every rejected edit injected at any point of any edit/read history of sampled, linear, sine and quote sources with derived curves attached",
  "Tests assert that an exception is raised, never what the graph answers afterwards.",
  ["curvepy/points.py", "curvepy/line.py", "curvepy/sin.py", "curvepy/quotes.py", "curvepy/curve.py"],
  [("validation relative to begin/end of the update", "curvepy/points.py append_list/replace/set, curvepy/sin.py set, curvepy/line.py set")],
  [("update interval", "pending update of a curve", "curvepy/curve.py")], ["is_updating", "observer callbacks", "y(x)", "domain"])

p("C03", "Stepping and sampling visit every sample exactly once and end",
  "On a sampled series and on curves derived from it, stepping forward from any position gives the next sample position to the right, stepping backward the next to the left, and nothing beyond the domain, whatever was read before; so a walk in either direction visits each sample once and terminates. Sampling a range returns, in ascending order and without repeats, exactly the sample positions inside that range (derived curves also give the included end points of the range), each with the value the curve itself answers there.",
  ["histories", "schedules"], "every series, derived graph, range with open or closed ends and walk, interleaved with edits and other reads",
  "Tests step from a few positions on fresh curves; they never step after other reads or edits have filled the caches the stepping consults.",
  ["curvepy/curve.py", "curvepy/points.py", "curvepy/aggregate.py", "curvepy/accumulator.py", "curvepy/scan.py", "curvepy/offset.py", "curvepy/map.py"],
  [("x_next/x_previous", "all curve classes"), ("sample_points/sample_points_from_x", "curvepy/curve.py, curvepy/points.py, curvepy/scan.py")], (), ["x_next", "x_previous", "sample_points", "sample_points_from_x", "next_point/previous_point"])

p("C04", "Pointwise combinations always reflect the current operands",
  "At every moment between edits, a sum, difference, product, quotient, power, logarithm, minimum, maximum, first-available, mapped, negated, absolute or derivative curve answers at every x exactly the operation applied to what its operands answer there now, with a missing operand value giving a missing result (minimum, maximum and first-available skip it). Its domain is the intersection of its operands' current domains (the union for first-available and for combinations declared to ignore missing operands), however the operands have been edited, nested or shared.",
  ["histories", "schedules"], "every graph of pointwise combinators over edited sources (shared operands, constants, lines, sines) and every interleaving of edits and reads",
  "Tests build a combination once and read it; cached domains and shared operands are only exercised by edit/read interleavings.",
  ["curvepy/curve.py", "curvepy/aggregate.py", "curvepy/map.py", "curvepy/constant.py", "curvepy/line.py", "curvepy/sin.py", "curvepy/generic.py"],
  [("observer-driven domain invalidation", "curvepy/aggregate.py __init__/get_domain, curvepy/map.py"), ("value transforms", "curvepy/curve.py add_many.. log_many, min, max, first")], (), ["y(x)", "domain"])

p("C05", "Shifted, stitched and restricted views track the curves they show",
  "A curve shifted along x answers what its source answers at the shifted-back position, including its domain, samples and slope; a piecewise curve answers at x what the piece responsible for x answers now; a curve restricted to a range answers its source inside the range and nothing outside; a blend moves linearly from one curve to the other across its blending range. All of them stay true through every history of edits to the curves they show, and so does everything computed from them.",
  ["histories", "schedules"], "every shift (also by whole calendar durations), partition and restriction over edited sources, with reads interleaved",
  "Tests use static sources; propagation of edits through views is untested.",
  ["curvepy/offset.py", "curvepy/piecewise.py", "curvepy/generic.py", "curvepy/curve.py"],
  [("offset of x, domains and update ranges", "curvepy/offset.py"), ("sub-domain selection", "curvepy/piecewise.py"), ("subset/blend", "curvepy/curve.py")], (), ["y(x)", "domain", "x_next/x_previous", "sample_points"])

p("C06", "A running integral equals the area under the current data",
  "For a series with a first sample, and for pointwise curves over such series, the running integral at each sample equals the constant plus the area from the first sample (trapezoids, or rectangles for previous/next interpolation, stretches touching a missing value contributing nothing), and between samples it is interpolated linearly. After any history of appends, replacements, insertions, removals and reads in any order, it is the integral of the data as it is now.",
  ["histories", "schedules"], "every edit history and every read order over evenly and unevenly spaced series, with missing values",
  "test/integral_test.py reads fresh integrals in ascending order; incremental continuation after edits is sampled once or twice.",
  ["curvepy/integral.py", "curvepy/accumulator.py", "curvepy/scan.py"],
  [("incremental scan with rewind on updates", "curvepy/scan.py scan/begin_scan_update"), ("accumulated points", "curvepy/accumulator.py")],
  [("scan position", "how far the scan has gone", "curvepy/scan.py"), ("accumulated samples", "results so far", "curvepy/accumulator.py")], ["y(x)", "domain", "sample_points"])

p("C07", "A simple moving average averages exactly the trailing window",
  "On a series without missing values, a simple moving average of n samples is, at each sample from the n-th on, the time-weighted (trapezoid) mean over the last n samples, is linear between samples, and is missing before the n-th sample; on an evenly spaced series a window given as a length of x behaves as the number of samples it spans. This holds after every history of edits and whatever positions were read before, in any order.",
  ["histories", "schedules"], "every edit history, window size and read order over evenly and unevenly spaced series and pointwise curves over them",
  "Tests read a handful of ascending positions on data that rarely changes.",
  ["curvepy/sma.py", "curvepy/integral.py", "curvepy/accumulator.py", "curvepy/scan.py"],
  [("window start/end stepping", "curvepy/sma.py _sma_start/_sma_end/get_domain"), ("integral difference", "curvepy/integral.py")], (), ["y(x)", "domain", "sample_points"])

p("C08", "Exponential averages and RSI equal the recurrence over current data",
  "An exponential moving average starts at the first available sample (or the first available value of its initial curve), moves at each later sample by its smoothing factor (or elapsed-x over period) towards the sample, ignores missing samples, and is linear between samples; the smoothed moving average starts it from the simple average, and the relative strength index is the stated ratio of two such averages of the up and down slopes. After every history of edits to the source or the initial curve, and in every read order, the answers equal this recurrence over the data as it is now.",
  ["histories", "schedules"], "every edit history, factor, period, initial curve and read order",
  "Tests compare short fixed series read once.",
  ["curvepy/ema.py", "curvepy/curve.py", "curvepy/accumulator.py", "curvepy/scan.py"],
  [("incremental recurrence", "curvepy/ema.py _ema_scan"), ("smma/rsi construction", "curvepy/curve.py smma/rsi/differential")], (), ["y(x)", "domain"])

p("C09", "Trailing-window maps see exactly the current trailing window",
  "A trailing minimum, trailing maximum or user-defined trailing map over n samples hands its function, at each sample, that sample and up to n-1 samples before it (over a length of x: that sample and the samples of the series at most that far before it), newest first, and answers between samples with its declared interpolation. After every history of edits and in every read order the answers equal the function applied to the current window.",
  ["histories", "schedules"], "every edit history, window, function, interpolation and read order",
  "Tests check two fixed windows on one fixed series.",
  ["curvepy/accumulator_map.py", "curvepy/accumulator.py", "curvepy/curve.py"],
  [("window collection", "curvepy/accumulator_map.py _accumulator_map_scan, curvepy/curve.py sample_points_from_x")], (), ["y(x)", "domain", "arguments seen by the function"])

p("C10", "Extensions continue the current edges of the data",
  "A constant, tangent or sine extension answers the data inside the data's domain and, beyond each extended side, the continuation determined by the current edge: the edge value; the line through the edge value with the edge slope (or the regression of the declared edge window); the sine of the declared period matching edge value and slope. After every history of edits (also to interior points that determine the edge slope), every failed evaluation and every read order, the continuation, the domain and everything computed from them follow the current data; a side that is not extended, or an empty source, answers nothing there.",
  ["histories", "schedules", "fault_sequences"], "every edit history, side choice, extension kind and regression window over edited series",
  "Tests append or replace once and look at one side.",
  ["curvepy/extension/extension.py", "curvepy/extension/constant.py", "curvepy/extension/tangent.py", "curvepy/extension/sin.py"],
  [("staleness flags and edge recomputation", "curvepy/extension/extension.py"), ("edge value/slope", "curvepy/extension/*.py update_extension")],
  [("stale flags", "whether the edge must be recomputed", "curvepy/extension/extension.py")], ["y(x)", "domain"])

p("C11", "Confirmed extremas are a function of the current data only",
  "The extrema curve of a series about a reference is the zigzag through exactly the confirmed extremas of the current data: each is the most extreme sample, further from the reference than the threshold, of a stretch on one side of the reference that a later sample beyond the threshold on the other side has ended. After any history of appends, replacements, removals and edits of the reference, and in any read order, it is the one a freshly built curve would give: no stale, duplicate or unconfirmed extrema.",
  ["histories", "schedules"], "every edit history of the series and of its reference and every read order",
  "test/extremas_test.py reads fresh curves; resuming a scan after edits is not tested.",
  ["curvepy/extremas.py", "curvepy/scan.py"],
  [("extrema confirmation and removal of stale extremas", "curvepy/extremas.py")],
  [("confirmed and possible extremas", "scan state", "curvepy/extremas.py")], ["y(x)", "sample_points", "domain"])

p("C12", "Reading never changes any later answer",
  "Reading values, domains, slopes, samples or steps of any curves of a graph, in any order, any number of times, at any positions, never changes any later answer and never notifies anyone. In particular, at any moment every curve of a long-lived graph answers as the same graph built afresh from the current source data would.",
  ["schedules", "histories"], "every mixed graph of all curve kinds, every interleaving of reads with edits, compared against a freshly built graph",
  "Caches make answers depend on reading history; tests read each curve in one order only.",
  ["curvepy/scan.py", "curvepy/accumulator.py", "curvepy/curve.py", "curvepy/extension/extension.py", "curvepy/extremas.py", "curvepy/sma.py"],
  [("lazy caches: domain, scan, accumulated points, extension", "all derived curves")], (), ["y(x)", "domain", "d_y", "sample_points", "x_next/x_previous", "observer callbacks"])

p("C13", "Update notifications are paired, complete and leave nothing pending",
  "Whenever an edit to a source returns, no curve in the graph is still updating, and every observer that was told an update began has since been told that it ended, however the edited source reaches that curve (several paths, shared operands, nested edits made by observers). When an observer gets its last end notice for an edit, the curve it observes already answers with the new data, and a begin notice always arrives while the edited source still answers with the old data.",
  ["schedules", "histories"], "every graph shape, edit history and set of observers, including observers that read, and edit other sources, from their callbacks",
  "Tests count callbacks on one curve and one edit; diamonds and nested updates are untested.",
  ["curvepy/curve.py", "curvepy/aggregate.py", "curvepy/scan.py", "curvepy/offset.py", "curvepy/extension/extension.py", "curvepy/points.py"],
  [("begin_update/end_update interval bookkeeping", "curvepy/curve.py"), ("forwarding in derived curves", "curvepy/aggregate.py, scan.py, offset.py, map.py, piecewise.py, extension/extension.py, quotes.py")],
  [("begin/end intervals", "pending update", "curvepy/curve.py")], ["is_updating", "update_interval", "observer callbacks"])

p("C14", "Notified ranges cover every x whose answer changed",
  "For every edit and every curve of the graph, each x at which the curve's answer changes (appears, disappears or takes another value) lies inside the range announced to that curve's observers when the update began and when it ended. An observer restricted to part of the x axis is notified exactly when the announced range meets its part, and so never misses a change in it.",
  ["histories", "schedules"], "every edit, curve kind, graph and observer restriction, comparing answers before and after each edit at many positions",
  "Tests compare announced ranges with literals for a few edits; nothing compares them with what actually changed.",
  ["curvepy/points.py", "curvepy/scan.py", "curvepy/offset.py", "curvepy/extension/extension.py", "curvepy/extremas.py", "curvepy/curve.py"],
  [("update ranges per edit", "curvepy/points.py"), ("range transformation", "curvepy/scan.py _update_interval, curvepy/offset.py _offset_interval, curvepy/extension/extension.py begin_extension_update"), ("observer filtering", "curvepy/curve.py begin_update/end_update")], (), ["observer callbacks with ranges", "y(x)"])

p("C15", "Observers are called in order, exactly once, only while subscribed",
  "For each notification, every observer subscribed throughout is called exactly once, prioritised observers first (latest first) and the others in subscription order, with the announced range if and only if its callback accepts one. Observers added or removed by callbacks during a notification never disturb the others and take effect from the next notification at the latest; a removed observer, or one tied to an object that has been collected under automatic removal, is never called again.",
  ["schedules", "histories"], "every sequence of adding, removing (by token or object), collecting and notifying, including from inside callbacks",
  "Tests use one or two static observers.",
  ["curvepy/curve.py", "curvepy/util.py"],
  [("observer registry", "curvepy/curve.py add_observer/remove_observer/begin_update/end_update")],
  [("ordered tokens and observer data", "subscriptions", "curvepy/curve.py")], ["observer callbacks"])

p("C16", "A failing user function never corrupts later answers",
  "If a user-supplied function (mapping, combination, accumulation, trailing map, generic curve) raises while a curve is being read, the error reaches the reader; once the function works again every curve of the graph answers as if the failure had never happened. A failure at any call, in the middle of any scan, with any edits before the retry, leaves no partial result behind.",
  ["fault_sequences", "histories"], "failure injected at any call of any user function during any read of any graph, followed by any edits and reads",
  "No test makes a user function fail.",
  ["curvepy/scan.py", "curvepy/accumulator.py", "curvepy/accumulator_map.py", "curvepy/aggregate.py", "curvepy/map.py", "curvepy/extension/extension.py", "curvepy/extremas.py", "curvepy/generic.py"],
  [("order of state updates relative to user calls", "curvepy/scan.py scan, curvepy/accumulator.py _accumulate, curvepy/extension/extension.py _update_extension_if_needed")], (), ["y(x)", "domain"])

p("C17", "A failing observer never wedges the graph",
  "If an observer's callback raises during an edit, the error reaches the editor, the edit is afterwards either fully applied or not applied at all, and the other observers still get paired notifications. Nothing is left updating, every derived curve answers for the data as it then is, and later edits are notified and applied normally.",
  ["fault_sequences", "schedules"], "failure injected into any begin or end callback on any curve of any graph during any edit",
  "No test has a failing callback.",
  ["curvepy/curve.py", "curvepy/points.py", "curvepy/constant.py", "curvepy/line.py", "curvepy/sin.py"],
  [("notification loops and mutator begin/end bracket", "curvepy/curve.py begin_update/end_update, curvepy/points.py append_list/replace/set")], (), ["y(x)", "is_updating", "observer callbacks"])

p("C18", "Reading and editing from inside callbacks never leaves stale answers",
  "Callbacks may read any curve of the graph at any point of a notification and, when an update ends, edit other sources or the same source again: once the outermost edit returns, every curve answers for the final data. No read made half-way through an update survives in any cache.",
  ["schedules"], "every placement of reads and nested edits in begin and end callbacks of any curve in any graph",
  "Tests never read derived curves from inside callbacks.",
  ["curvepy/scan.py", "curvepy/curve.py", "curvepy/extremas.py", "curvepy/extension/extension.py", "curvepy/aggregate.py"],
  [("cache invalidation points relative to notification order", "curvepy/scan.py begin_scan_update/end_scan_update, curvepy/curve.py end_update")], (), ["y(x)", "domain", "is_updating"])

p("C19", "Quotes and their views always show the current bars",
  "A quote series answers, at any time from the first to the last bar, the bar in force then; its open, high, low, close, volume and mid-price views, trailing high and low, range, awesome oscillator and alligator lines are the stated functions of the current bars, with an encoder applied exactly once to every bar given. This holds after every history of setting, appending one or many bars, rejected bars and reads.",
  ["histories", "schedules"], "every history of quote edits and reads, with and without an encoder, for several bar durations",
  "test/quotes_test.py loads fixed data once; appending through an encoder, trailing low and range are never exercised.",
  ["curvepy/quotes.py", "curvepy/map.py", "curvepy/offset.py", "curvepy/accumulator_map.py"],
  [("quote store, lazily created views, encoder", "curvepy/quotes.py")], (), ["y(x)", "sample", "sample_points", "get_range", "views"])

p("C20", "A curve built from a descriptor equals the curve built in code, and stays so",
  "A curve parsed from a JSON-like descriptor answers exactly as the same construction written with the API, both at once and after any later edits of the curves it refers to; parsing does not alter the descriptor, so parsing again, in any order with other descriptors and after any failed parse, gives an equal curve. Dates without an offset are read in the local time zone in force when parsed, and logarithmic descriptors give straight lines in log space.",
  ["programs", "histories", "configurations"], "every well-formed descriptor, order of parsing with failed parses in between, local time zone, and edit history of referenced curves",
  "Tests parse a dozen fixed descriptors once each in the machine's own time zone.",
  ["curvepy/curve.py", "README.md"],
  [("descriptor parser", "curvepy/curve.py parse_descriptor")], (), ["Curve.parse_descriptor", "y(x)", "domain"])

p("C21", "Trend lines found incrementally equal those found afresh",
  "A trend curve that has been read at any positions while its source grew and was edited answers, once read through the data as it is now, what a trend curve freshly built on the same data and read as far answers: the same upper and lower lines with the same points, intersections, tangents, extremas and predictions, however often it is read. Every line reported is made of current samples in order, lies on the side asked for, is at least as wide and has at least as many points, far enough apart, as the trend was asked for, and is only reported inside its search range.",
  ["histories", "schedules"], "every append/edit history of the source with reads interleaved",
  "All of test/trend_test.py is commented out.",
  ["curvepy/trend.py", "curvepy/scan.py"],
  [("incremental trend search", "curvepy/trend.py")], (), ["y(x)", "domain"])

p("C22", "Histories replay identically whatever hashing, collection or clocks do",
  "The same sequence of construction, edits and reads gives the same answers and the same notifications in the same order in every process, whatever the hash order of curves, the wall clock, the time zone of the machine or the moment at which unreferenced curves are collected. Dropping a derived curve never changes an answer or a notification of the curves that remain.",
  ["schedules", "configurations", "histories"], "every history executed under several hash orders, collection schedules, time zones and clocks",
  "Tests run once in one process.",
  ["curvepy/aggregate.py", "curvepy/piecewise.py", "curvepy/curve.py", "curvepy/scan.py", "curvepy/extension/extension.py", "curvepy/offset.py"],
  [("set-based operand deduplication", "curvepy/aggregate.py, curvepy/piecewise.py"), ("finalisers removing observers", "__del__ of derived curves")], (), ["event log of a run"])

p("C23", "Ranges, fitted lines and searched extremes are those of the current curve",
  "Asked of any sampled curve or of part of it: its range runs from its smallest to its largest sampled value (and is empty when there is none); its regression is the least-squares line of its samples, wherever on the x axis they lie (none with fewer than two samples or a missing value among them); sampling with a step, or with a smallest step, gives the ends asked for and the positions at that step between them; a search for a minimum or maximum goes the falling (rising) way from sample to sample to the first one neither neighbour of which is lower (higher), and answers nothing when that way leads out of the curve. Each of a family of averages is the simple average of its stated degree. All of them follow every edit of the data.",
  ["histories", "inputs"], "every series (also far from the origin, uneven, with missing or repeated values), part of it, and edit history",
  "Tests search one smooth series, fit one line near the origin and never ask for a range.",
  ["curvepy/curve.py", "curvepy/line.py", "curvepy/points.py"],
  [("search, range, regression and sampling", "curvepy/curve.py get_range/minimise/maximise/regression/sample_points/harmonic_smas")], (), ["get_range", "regression", "minimise/maximise", "sample_points(step, min_step)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
