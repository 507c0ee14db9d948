"""The properties and what their checks are: generates properties.jsonl and MANIFEST.json."""
import json
import pathlib
import subprocess

V = pathlib.Path(__file__).resolve().parent.parent
C = "src/cxx/"
P = "src/python/pycold/"
PX = P + "_colds_cython.pyx"

PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), hook=None):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                      quantifier=dict(over=over, text=" ".join(quant.split())),
                      why_tests_cant=" ".join(why.split()),
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   observe_at=list(observe), hook_needed=hook)))


prop("C01", "COLD change records are well formed and tell one consistent story in time",
     """For every pixel time series and parameter setting for which COLD returns records, the records carry the
     requested position, are in time order without overlapping, start no later than they end, and start, end and
     break on dates of usable observations of that pixel.  Only the last record may be unconfirmed (probability below
     100); every earlier one is a confirmed break, lying after its segment's end and not after the next segment's start.
     Counts, category, errors, coefficients and magnitudes are finite and mutually consistent.""",
     ["inputs", "histories"],
     """all pixel histories over a small alphabet of observation kinds (stable, changed, single outlier, cloud, snow,
     missing, out of range, duplicate date) placed in every order up to a bounded length, for every allowed number of
     confirming observations and for both collections""",
     """The test reads one CSV pixel and compares two numbers; record ordering and field consistency are never looked at,
     and depend on which observations arrive in which order.""",
     [C + "cold.c", C + "misc.c", PX, P + "colds.py"],
     [("segment initialisation, monitoring and end-of-series handling", C + "cold.c: stand_procedure"),
      ("dispatch on the share of clear/snow observations", C + "cold.c: cold")],
     ["cold_detect return value"],
     [("record list", "segments found so far for the pixel", C + "cold.c: rec_cg/num_fc")])

prop("C02", "A COLD break is confirmed by exactly the requested run of anomalies",
     """COLD reports a confirmed break if and only if the requested number of consecutive usable observations all
     deviate from the model, and dates it at the first of them; unusable observations in between neither count nor
     interrupt the run.  A shorter run of anomalies at the end of the series is reported instead as a change
     probability equal to the run's share of the required number, dated at its first observation.""",
     ["inputs", "histories"],
     """all arrangements of model-following, deviating and cloudy observations over a bounded tail after a stable
     start, for every allowed number of confirming observations""",
     """One recorded pixel exercises one arrangement with one setting; the rule quantifies over all arrangements,
     including runs interrupted one observation short of confirmation.""",
     [C + "cold.c", PX],
     [("monitoring window over the next conse observations", C + "cold.c: stand_procedure, monitoring branch"),
      ("probability of an unconfirmed change at the end", C + "cold.c: stand_procedure, after the main loop")],
     ["cold_detect: t_break, change_prob"])

prop("C03", "Observations that are not usable do not influence the result",
     """Adding, removing or altering observations that are flagged cloud, shadow, snow or fill, whose reflectance (or
     thermal value, when that is considered) is out of range, or that repeat an already present date, leaves the change
     records of COLD and of the object-based reconstruction and the segments and state of S-CCD unchanged, as long as the
     pixel has enough clear observations for change detection (with fewer, see C27) and is not persistently snow-covered.""",
     ["inputs"],
     """every position and every pair of positions of a base series, every kind of unusable observation, for base
     series with and without breaks, both collections and the three algorithms""",
     """Tests use the recorded QA of one pixel; no test varies unusable observations and compares.""",
     [C + "cold.c", C + "s_ccd.c", C + "input.c", PX],
     [("QA and range screening", C + "cold.c: preprocessing"),
      ("first observation of a date is kept", C + "cold.c: stand_procedure / obcold_reconstruction_procedure; " + C + "s_ccd.c: sccd")],
     ["cold_detect, obcold_reconstruct, sccd_detect, sccd_update results"])

prop("C04", "Results depend only on the arguments, and arguments are left alone",
     """Calling any of the detection functions twice with equal arguments gives bit-identical results, whatever calls
     were made in between, in which process state or memory content they ran, and however the input arrays are laid
     out.  The arrays and states passed in are not modified, and results already handed out never change later.""",
     ["histories", "inputs"],
     """all sequences up to a bounded length of calls drawn from an alphabet of calls covering every function, mode
     and failure path, and every memory-fill pattern of a set""",
     """Every test makes one call per process state; hidden state, uninitialised memory and aliasing only show across
     calls.""",
     [PX, C + "cold.c", C + "s_ccd.c", C + "misc.c", C + "GLMnet.f", P + "colds.py"],
     [("fresh output arrays per call", PX), ("copy of the state passed to an update", PX + ": _sccd_update")],
     ["all five public functions"])

prop("C05", "Invalid arguments are rejected, valid ones accepted",
     """Every documented parameter outside its allowed range or type, and every inconsistent set of series (lengths,
     dimensions, wrong element type, states of an unknown mode, too long a confirmation window, a change-magnitude window
     that does not cover the dates) is rejected with an exception and no partial result; every combination of values at or
     inside the documented bounds is accepted.""",
     ["inputs", "configurations"],
     """the full product of boundary values (just outside, on, just inside, wrong type) for each parameter of each
     function, and every subset of the series arrays made inconsistent in every way of a list""",
     """No test passes an invalid argument.""",
     [P + "colds.py", P + "_param_validation.py", PX],
     [("parameter constraints", P + "colds.py: _parameter_constraints / _validate_params"),
      ("series consistency", P + "colds.py: _validate_data"), ("state checks", PX)],
     ["exceptions of the public functions"])

prop("C06", "No input makes the detectors touch memory outside their buffers",
     """Whatever the series (no clear observations, a single one, persistent snow, dozens of changes, thousands of
     observations, all confirmation lengths) and whatever optional outputs are requested, the detection functions neither
     read nor write outside their own buffers or the caller's arrays, nor crash or hang: they return a result or raise an
     exception.""",
     ["inputs", "configurations"],
     """all short histories over the full observation alphabet, and structured families (break counts around the record
     capacity, queue lengths around the queue capacity, every confirmation length, change-magnitude windows) executed on
     instrumented builds of the real code""",
     """The tests run one ordinary pixel on an uninstrumented build; overruns need unusual lengths or counts and usually
     go unnoticed.""",
     [C + "cold.c", C + "s_ccd.c", C + "misc.c", C + "2d_array.c", C + "KFAS.c", C + "multirobust.c", PX],
     [("capacity checks on records, queue and windows", C + "cold.c, " + C + "s_ccd.c"), ("array sizes", PX)],
     ["process behaviour under an address sanitizer"])

prop("C07", "Change-magnitude output follows the interval grid and does not disturb detection",
     """Requesting change magnitudes does not alter the change records.  Each interval of the grid holds either a no-data
     pair or the largest change magnitude among the windows whose first observation falls into that interval together with
     exactly that observation's date, and shifting the grid by whole intervals only shifts the output.""",
     ["inputs", "configurations"],
     """all tails of stable/deviating/cloudy observations of bounded length, for every confirmation length, several grid
     starts and interval lengths, including grids that start before the series and end after it""",
     """No test requests change magnitudes.""",
     [C + "cold.c", PX],
     [("recording of the magnitude of every window", C + "cold.c: stand_procedure"), ("grid defaults and bounds", PX + ": _cold_detect")],
     ["cold_detect(b_output_cm=True)"])

prop("C08", "Object-based reconstruction honours the requested break dates",
     """Rebuilding a pixel with a set of break dates yields consecutive segments that break exactly at the usable
     requests: zeros and the order or repetition of the requested dates do not matter, no break is invented, and a
     request is dropped only when it leaves too short a segment.  Each segment's observations lie between its
     neighbouring breaks.""",
     ["inputs"],
     """all subsets of a set of candidate dates (including dates outside the series, adjacent dates and clouds), in all
     orders with zeros interspersed, over several histories""",
     """The test reconstructs one recorded pixel from one list of dates.""",
     [C + "cold.c", PX, P + "colds.py"],
     [("splitting of the series at the given dates", C + "cold.c: obcold_reconstruction_procedure")],
     ["obcold_reconstruct return value"])

prop("C09", "COLD's records equal those of the published algorithm",
     """For every series, the segments COLD returns (start, end, break, number of observations, category, probability) and
     their coefficients, errors and change magnitudes are those that the documented algorithm (robust outlier screening,
     one-year stable initialisation, look-back, per-observation monitoring with median change magnitude, angle consistency
     and outlier removal, lasso harmonic fits with 4, 6 or 8 coefficients) computes.""",
     ["inputs", "histories"],
     """all pixel histories over an alphabet of observation kinds up to a bounded length, executed in lock step on an
     independently written model of the algorithm and on the real code""",
     """Two numbers of one pixel are compared with an earlier run of the same code; nothing checks the algorithm on any
     other history.""",
     [C + "cold.c", C + "misc.c", C + "multirobust.c", C + "GLMnet.f"],
     [("the per-pixel state machine", C + "cold.c: stand_procedure"), ("lasso fit", C + "misc.c: auto_ts_fit_float"),
      ("robust screening", C + "misc.c: auto_mask")],
     ["cold_detect return value"])

prop("C10", "An S-CCD result is a consistent state to monitor from",
     """Every state S-CCD returns, offline or after any updates, has a mode that matches what it contains (model, queue,
     both or nothing), segments in time order that end before the model or the queue begins, queued observations in
     strict date order, a window of the latest observations in date order whose last date is the latest usable
     observation, and finite non-negative error terms.  Queue and segment numbers never exceed their capacities and no
     observation that is still needed is dropped.""",
     ["histories", "inputs"],
     """all observation histories over the alphabet up to a bounded length after offline starts of every kind, for all
     confirmation lengths, checking the state after every step""",
     """The S-CCD tests are skipped in this environment and follow one recorded pixel.""",
     [C + "s_ccd.c", PX, P + "common.py"],
     [("state transitions between monitoring and queue modes", C + "s_ccd.c: sccd_standard, step3_processing_end"),
      ("packing of results", PX)],
     ["sccd_detect, sccd_update return values"],
     [("nrt_mode", "which of model/queue the state carries", PX)])

prop("C11", "Online S-CCD updates agree with each other however observations are batched",
     """Feeding new observations to a saved S-CCD state one by one, all at once, or in any grouping yields the same
     segments and, once all have been processed, equivalent states and the same later behaviour, up to the point where a new
     model is started after a change (a model, and a new pixel's noise level, are estimated from the observations at hand
     when they first suffice); an empty update (only unusable observations) changes nothing.  The state passed in is never modified, so an update can be repeated from it
     with the same result.""",
     ["histories"],
     """all ways to split a bounded stream of new observations (of every arrangement of stable, deviating, cloudy and
     duplicate observations) into consecutive batches, for every confirmation length""",
     """The S-CCD tests do not run here and update one recorded pixel in one way.""",
     [C + "s_ccd.c", PX],
     [("reload of the kept observations of a state", C + "s_ccd.c: sccd"),
      ("Kalman state carried across updates", C + "s_ccd.c: step2_KF_ChangeDetection, " + C + "KFAS.c")],
     ["sccd_update return value"])

prop("C12", "An S-CCD break is confirmed only by a full run of anomalies",
     """S-CCD, offline or online, records a break only when the required run of consecutive usable observations deviates
     from the model, dates it at the first of them and ends the segment there; while a run is in progress the state
     reports how many of the latest observations are anomalous.  A run that is interrupted before confirmation leaves no
     break.""",
     ["inputs", "histories"],
     """all arrangements of model-following, deviating and cloudy observations over a bounded tail, for every
     confirmation length, offline and fed one by one""",
     """Tests cover one recorded break of one pixel and are skipped here.""",
     [C + "s_ccd.c", PX],
     [("peek window over the next observations", C + "s_ccd.c: step2_KF_ChangeDetection"),
      ("anomaly counter in the state", C + "s_ccd.c: sccd_standard")],
     ["rec_cg, nrt_mode, conse_last"])

prop("C13", "Saving and restoring an S-CCD state loses nothing",
     """Turning any S-CCD result into its compact saved form and back yields an equal state (every field bit for bit),
     also through the file format used for tiles, and updating the restored state gives the same result as updating the
     original; lists with a wrong number of parts are rejected.""",
     ["inputs", "histories"],
     """every state reachable by the enumerated histories in every mode, for every confirmation length, and saved forms
     with every wrong number of parts""",
     """No enabled test saves and restores a state.""",
     [P + "utils.py", P + "common.py", P + "imagetool/export_change_map.py", P + "imagetool/tile_processing.py"],
     [("compact form", P + "utils.py: unindex_sccdpack/index_sccdpack"), ("record layouts", P + "common.py")],
     ["index_sccdpack(unindex_sccdpack(x)), sccd_update"])

prop("C14", "Disturbance alerts follow the monitored state",
     """Given a monitored S-CCD state, a disturbance date is reported exactly when enough of the latest observations are
     anomalous, their change magnitude exceeds and their angle stays below the given limits and the change is not a
     greening, and it is the date of the first of those anomalous observations; otherwise 0 is reported.  Snow, queue-only,
     void and already reported states give 0, and only a reported standard state changes its mode, once.""",
     ["inputs", "histories"],
     """all reachable states over the enumerated histories for every confirmation length, combined with every requested
     run length and thresholds on both sides of each state's own values""",
     """No enabled test calls it.""",
     [P + "colds.py", P + "utils.py"],
     [("alert rule", P + "colds.py: sccd_identify"), ("per-band change magnitude", P + "utils.py: calculate_sccd_cm")],
     ["sccd_identify return value"])

prop("C15", "Pixel, block and tile coordinates are consistent everywhere",
     """For every tile layout (rows, columns, blocks in each direction, square or not) the pixels of all blocks cover the
     tile exactly once, and converting between pixel position, row/column, block and index within the block is a
     bijection on which all components agree.""",
     ["configurations", "inputs"],
     """every layout up to a bounded number of rows, columns and blocks in each direction, and every pixel and block of
     it""",
     """Tests use one square 2x2-block layout, on which row/column and x/y mix-ups are invisible.""",
     [P + "utils.py", P + "common.py", P + "ob_analyst.py", P + "imagetool/tile_processing.py"],
     [("coordinate helpers", P + "utils.py: get_block_x/get_block_y/get_rowcol_intile/get_col_index/get_row_index/get_id_inblock"),
      ("derived block sizes", P + "common.py: DatasetInfo")],
     ["return values of the helpers"])

prop("C16", "Change-magnitude maps are the exact mosaic of the blocks",
     """Assembling the per-block change magnitudes of a tile produces one map per interval, named by its date, in which
     each pixel holds exactly the value its block recorded for that interval, for every tile layout; pixels of blocks
     without a file are no-data, and temporary files are removed only when asked.""",
     ["configurations", "fault_sequences"],
     """every layout up to a bounded size, every number of intervals up to a bound, every subset of missing blocks, all
     output kinds""",
     """The tests never assemble change magnitudes.""",
     [P + "utils.py", P + "imagetool/tile_processing.py", P + "ob_analyst.py"],
     [("block mosaic", P + "utils.py: assemble_cmmaps"), ("file names by date", P + "utils.py: get_doy; " + P + "ob_analyst.py: cmname_fromdate")],
     ["saved .npy maps"])

prop("C17", "Exported maps show exactly the recorded changes at the right pixels",
     """For every tile layout, split over any number of processes and with any subset of blocks missing, the yearly break
     maps contain, for every pixel and year, the type and day of the break recorded there, or no-data; the recent and
     first disturbance maps are the latest and earliest disturbance years of those maps; coefficient maps hold the
     features of the pixel's own segments.  The images have the tile's width and height.""",
     ["configurations", "inputs", "fault_sequences"],
     """every layout up to a bounded size (including non-square tiles and block grids), every number of processes, every
     subset of missing blocks and every assignment of small record lists to pixels, for the three record formats""",
     """The export script is not run by any test.""",
     [P + "imagetool/export_change_map.py", P + "utils.py"],
     [("per-block maps and mosaic", P + "imagetool/export_change_map.py: main"),
      ("change type", P + "imagetool/export_change_map.py: getcategory_cold/getcategory_obcold/getcategory_sccd")],
     ["GeoTIFF outputs"])

prop("C18", "Tile processing gives the same, complete result with any number of workers",
     """Whatever the number of worker processes and however their steps interleave, processing a tile terminates, every
     block and every date is processed, and the final files equal those of a single worker.  No worker reads a file
     before it is complete.""",
     ["schedules", "configurations"],
     """all interleavings, at file-system and waiting granularity up to a preemption bound, of all worker counts up to a
     bound on small tiles, for the three methods, with and without classification""",
     """No test runs the driver at all; a single run shows a single schedule.""",
     [P + "imagetool/tile_processing.py", P + "ob_analyst.py", P + "pyclassifier.py", P + "utils.py"],
     [("work division and waiting on marker files", P + "imagetool/tile_processing.py: main"),
      ("stage markers", P + "ob_analyst.py: ObjectAnalystHPC; " + P + "pyclassifier.py: PyClassifierHPC")],
     ["files under the result folder"])

prop("C19", "Interrupted tile processing can simply be started again",
     """If tile processing is interrupted at any point, including in the middle of writing a file, and started again with
     the same arguments, it completes and leaves the same final files as an uninterrupted run.  Work that was marked
     finished is not repeated, and nothing half-written is mistaken for finished work.""",
     ["crash_points", "fault_sequences"],
     """every file-system operation of a run as a crash point, with the file then being written absent, empty or cut
     short, followed by a complete restart; for the three methods and worker counts""",
     """No test interrupts anything.""",
     [P + "imagetool/tile_processing.py", P + "ob_analyst.py", P + "pyclassifier.py", P + "utils.py"],
     [("finished markers written after the data", P + "imagetool/tile_processing.py: main")],
     ["files under the result folder"])

prop("C20", "Classification features come from the segment that covers the day",
     """For every record list of a pixel and every requested day, each feature equals the named quantity of the one segment
     that covers the day (from its start up to, but not including, the next segment's start, or its own end for the last),
     NaN becoming 0, and no-data when no segment covers it; block features put each pixel's features at that pixel's
     place and leave pixels without records as no-data.""",
     ["inputs", "configurations"],
     """all record lists of up to three segments over a small grid of dates, all days of the grid, every subset and order
     of features; all small block layouts with every subset of pixels having records""",
     """The tests compare a few features of one recorded block.""",
     [P + "pyclassifier.py", P + "imagetool/export_change_map.py"],
     [("feature extraction", P + "pyclassifier.py: extract_features"), ("block layout", P + "pyclassifier.py: PyClassifier.predict_features")],
     ["extract_features, predict_features return values"])

prop("C21", "Classified maps are complete and every pixel is classified from its own features",
     """Running the classification stages over all blocks, in any order allowed by their dependencies, yields for each
     requested year a map of the tile's shape in which each pixel has the class the trained model assigns to that
     pixel's features, and the no-data class where it has none.  Training draws the prescribed number of samples of each
     category, and the outputs go to the requested folders.""",
     ["schedules", "configurations", "inputs"],
     """all layouts up to a bounded size, all orders of the block stages, all subsets of blocks without records, all small
     label histograms""",
     """The tests run the stages in one order on one 2x2 layout.""",
     [P + "pyclassifier.py", P + "utils.py"],
     [("stages and markers", P + "pyclassifier.py: PyClassifierHPC"), ("mosaic", P + "utils.py: assemble_array"),
      ("sample numbers", P + "pyclassifier.py: generate_sample_num")],
     ["yearlyclassification maps, rf model"])

prop("C22", "Spatial objects and their change decision are consistent",
     """Segmenting a change-magnitude map labels only pixels whose own magnitude is high enough, joins only
     connected pixels, leaves isolated weak pixels unlabelled, and reports for each object its true mean magnitude;
     gaps are filled from the previous map only where the current one has no data.  An object is declared changed exactly
     when its mean magnitude, scaled by its size, exceeds the limit of its land cover, and the saved break dates are the
     dates of exactly the changed pixels, cut into blocks.""",
     ["inputs"],
     """all small maps over an alphabet of magnitudes (none, weak, medium, strong) and of dates, all object sizes and
     covers, magnitudes on both sides of every limit, all block layouts up to a bound""",
     """The tests segment one recorded map and compare object counts.""",
     [P + "ob_analyst.py"],
     [("segmentation", P + "ob_analyst.py: segmentation_floodfill/segmentation_slic/segmentation_watershed"),
      ("decision", P + "ob_analyst.py: is_change_object/object_analysis"), ("result blocks", P + "ob_analyst.py: ObjectAnalystHPC.save_obiaresult/get_allobiaresult_asarray")],
     ["object maps, change maps, saved blocks"])

prop("C23", "Quality bits decode to one documented class for every possible value",
     """For every possible quality value of each supported product the decoded class is the one of highest priority among
     the flagged conditions (fill over cloud over shadow over snow over water over clear), deterministic, independent
     of unrelated bits, and applied to whole images pixel by pixel.""",
     ["inputs"],
     """all 65,536 values of the 16-bit products and all 256 values of the 8-bit product, as scalars and as images""",
     """No test decodes a quality value.""",
     [P + "imagetool/prepare_ard.py"],
     [("decoders", P + "imagetool/prepare_ard.py: qabitval_array, qabitval_array_c2, qabitval_array_HLS")],
     ["decoder return values"])

prop("C24", "Stacking cuts images into blocks without losing or moving a pixel",
     """Splitting an acquisition into blocks writes, for every layout, exactly the pixels of each block with all bands in
     the documented order and the decoded quality last, under the acquisition's name; blocks with no clear, water or snow
     pixel are skipped, and putting the blocks back together restores the image.""",
     ["configurations", "inputs"],
     """all layouts up to a bounded size, all quality patterns of small images, acquisitions of each supported product""",
     """No test runs the stacking script.""",
     [P + "imagetool/prepare_ard.py", P + "imagetool/tile_processing.py"],
     [("partition", P + "imagetool/prepare_ard.py: single_image_stacking*")],
     ["saved block files"])

prop("C25", "Reading a block stack returns all selected acquisitions in date order",
     """Reading a block returns every acquisition whose date lies within the inclusive bounds, each once, in ascending date
     order, with each pixel's values at its place and the dates of the file names; an empty block is reported as such,
     whatever the order of files in the folder.""",
     ["inputs", "configurations"],
     """all subsets and listing orders of a set of acquisitions over several sensors and years (leap days included), all
     bounds on, between and outside the dates, all small block sizes""",
     """No test reads a stack folder.""",
     [P + "imagetool/tile_processing.py", P + "utils.py"],
     [("date parsing, filtering, sorting", P + "imagetool/tile_processing.py: get_stack_date; " + P + "utils.py: read_blockdata")],
     ["get_stack_date, read_blockdata return values"])

prop("C26", "Parallel stacking covers every acquisition once and survives a restart",
     """Whatever the number of workers and their relative speed, stacking processes every acceptable acquisition exactly
     once, skips exactly those outside the date range or below the clear-pixel threshold, records the first and last date
     of the data set, and ends with all workers done; starting it again after an interruption completes the same
     result.""",
     ["schedules", "crash_points", "configurations"],
     """all worker counts up to a bound and interleavings of their file operations, every crash point followed by a
     restart, all small sets of acquisitions and date bounds""",
     """No test runs the stacking script.""",
     [P + "imagetool/prepare_ard.py"],
     [("work division and markers", P + "imagetool/prepare_ard.py: main")],
     ["files under the output folder"])

prop("C27", "Pixels with few clear observations get one honest fallback record",
     """A pixel with too few clear observations for change detection yields either one record over its whole range,
     marked as the snow or the insufficient-data kind, whose coefficients and errors are the lasso fit of each band to the
     observations used with their own dates, with no break, no probability and zero magnitude, or no record at all when
     fewer than twelve observations are left after the brightness screening.""",
     ["inputs", "histories"],
     """all mixes of clear, cloudy, shadow, snow, saturated and fill observations up to a bounded number of each, in all
     cyclic arrangements, for both collections""",
     """The recorded pixel has plenty of clear observations, so this path never runs.""",
     [C + "cold.c", C + "misc.c"],
     [("fallback procedures", C + "cold.c: inefficientobs_procedure"), ("dispatch", C + "cold.c: cold")],
     ["cold_detect, obcold_reconstruct return values"])

prop("C28", "Pinpointing reports the strongest window of each year and changes nothing else",
     """sccd_detect with b_pinpoint=True returns the pair of the SccdOutput, bit for bit the one without pinpointing, and a
     SccdReccgPinpoint with the same position, in every mode including a pixel without any clear observation.  The pinpoint
     records hold, in order, one record for each year (365.25 days, counted from 1982-01-01) in which the monitoring met a
     window of conse observations whose first three each deviate by the gate threshold; the record describes the window of
     that year whose weakest deviation is the largest: the date of its first observation, its observations and their dates,
     the model coefficients it was compared with, and for each run length from one to conse the weakest deviation and the
     mean angle of the run.""",
     ["inputs", "histories"],
     """all tails of following, slightly deviating, strongly deviating, opposite, noisy and cloudy observations up to a
     bounded length after a stable start, per confirmation length, threshold pair, time step and texture""",
     """The recorded series is run once with pinpointing, and only the number of records is looked at.""",
     [C + "s_ccd.c", P + "_colds_cython.pyx"],
     [("pinpoint records", C + "s_ccd.c: step2_KF_ChangeDetection, sccd_standard"), ("result", P + "_colds_cython.pyx: _sccd_detect")],
     ["sccd_detect return values"])

prop("C29", "Index images, maps and day helpers are exact",
     """generate_rowcolimage writes one 32-bit band of the size and georeference of the reference image (with any number of
     bands) in which pixel (i, j), counted from 0, holds (i+1)*10000+j+1; save_1band_fromrefimage writes one band of the
     requested type holding the array, with the georeference of the reference image when one is given and none otherwise;
     both leave array and reference as they are and replace an existing file.  get_doy, date2matordinal and matordinal2date
     agree with the calendar, get_anchor_days yields start + k * interval for k below the number asked for, and the files of
     save_nrtfiles and save_obs2csv hold the parts of the state and the observations as they are.""",
     ["inputs"],
     """all small image shapes, band counts, pixel types, georeferences and destinations; every day of a century; every state
     of the initial histories""",
     """No test calls any of these functions except read_data.""",
     [P + "utils.py"],
     [("images", P + "utils.py: generate_rowcolimage, save_1band_fromrefimage"),
      ("days", P + "utils.py: get_doy, date2matordinal, matordinal2date, get_anchor_days"),
      ("files", P + "utils.py: save_nrtfiles, save_obs2csv, read_data")],
     ["files written, return values"])

TECH = {}   # id -> (level, technique, level_note); filled from the check modules


def main():
    import importlib
    import sys
    sys.path.insert(0, str(V))
    (V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in PROPS))
    checks, na = [], []
    for p in PROPS:
        f = V / "checks" / (p["id"].lower() + ".py")
        if not f.exists():
            na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "its check is not built yet")))
            continue
        m = importlib.import_module("checks." + p["id"].lower())
        checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"],
                           thorough_cmd="./run.sh %s thorough" % p["id"], level=m.LEVEL,
                           technique=" ".join(m.TECHNIQUE.split()), level_note=" ".join(m.NOTE.split()),
                           evidence_file="evidence/%s.json" % p["id"]))
    man = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="no hooks: every check drives the unmodified sources, compiled from /repo's working tree", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="All checks: ./run.sh <ID> [quick|thorough] [--replay FILE]. Genuine defects repaired with fix: commits are listed in known_findings.txt.")
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    import jsonschema
    for p in PROPS:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
        assert p["statement"].count(". ") < 3, p["id"]
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(PROPS), "properties", len(checks), "checks")


NOT_APPLICABLE = {}

if __name__ == "__main__":
    main()
