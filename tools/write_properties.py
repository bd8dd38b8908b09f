"""Writes /verif/properties.jsonl (the property texts live here so that they stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=["cameratransform/" + f for f in files],
                               state=[dict(name=a, meaning=b, where="cameratransform/" + c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where="cameratransform/" + b) for a, b in mechanism],
                               observe_at=observe or [], hook_needed=hook)))


prop("C01", "Transforms always follow the camera's current parameters",
     """After any history of updates to a camera (assignments on the camera or on its projection, orientation or lens,
     (mean, std) assignments, None and defaults, fit-parameter updates, fits, sampling, rotating the space, GPS positions,
     loading), including searches and loads that end with an exception, each parameter reads back the value last given and every
     coordinate transform equals that of a newly built camera with those values. Setting focallength_px sets the focal
     length in x and y; a heading (or pitch) beyond +-360 degrees is reduced modulo 360.""",
     ["histories", "fault_sequences", "configurations"],
     """every finite interleaving of update routes over every projection x orientation x lens combination, with an
     exception injected into fits, samplings and loads at any evaluation or read""",
     """the tests set parameters once and transform; no test interleaves update routes, interrupts one, or compares a
     camera with a past with one without""",
     ["parameter_set.py", "spatial.py", "projection.py", "lens_distortion.py", "camera.py"],
     [("Parameter callbacks recompute derived state", "parameter_set.py:ParameterSet.__setattr__"),
      ("rotation matrices and their inverse are cached", "spatial.py:_initCameraMatrix"),
      ("inverse distortion spline, scale and offset", "lens_distortion.py:_init_inverse"),
      ("focallength_px fans out to x and y", "projection.py:CameraProjection.__init__")],
     [("R, R_inv, t", "cached rotation and position", "spatial.py"),
      ("_convert_radius_inverse", "cached inverse distortion", "lens_distortion.py")],
     ["imageFromSpace, spaceFromImage, getRay, gpsFromSpace, spaceFromGPS, getImageHorizon of the live camera and of a fresh one"])

prop("C02", "Cameras of a group share exactly the parts they were given together",
     """In a CameraGroup, a projection, orientation or lens given once belongs to every member and one given as a list
     belongs to its own member only (addressed as C<i>_<name> through the group): whatever is changed, through the group,
     a member or the part itself and in whatever order, every member reads and transforms like a stand-alone camera built
     with the current values of its own parts. A change never reaches a member that does not own the changed part.""",
     ["histories", "configurations", "fault_sequences"],
     """every shape of group (shared or per-member projection, orientation, lens; 1 to 3 members), every history of
     updates over the routes group/member/part, with interrupted fits in between""",
     """the tests build two groups and read one value; sharing after updates, with distorting lenses, is never compared
     with stand-alone cameras""",
     ["camera.py", "parameter_set.py", "lens_distortion.py"],
     [("group parameters alias the parts' Parameter objects", "camera.py:CameraGroup.gatherParameters"),
      ("members are built over the shared parts", "camera.py:CameraGroup.__init__")],
     observe=["group[i] transforms versus stand-alone twins"])

prop("C03", "Top views and undistorted images are never stale",
     """getTopViewOfImage and undistortImage return, for every history of earlier calls (other extents, scalings, heights,
     hide_backpoints, images), parameter changes, loads and failed calls on the same camera, exactly the image which a
     newly built camera with the same parameters returns for the same arguments.""",
     ["histories", "fault_sequences"],
     """every history of view calls with repeated and slightly different arguments, argument lists reused and modified by
     the caller, parameter updates by any route, and calls aborted by a failure, in between""",
     """the tests call each of the two once per camera; the cached map only matters from the second call on""",
     ["camera.py"],
     [("map cache keyed by the view arguments and the camera", "camera.py:_getMap"),
      ("undistortion map cache", "camera.py:_getUndistortMap")],
     [("map, last_extent, last_scaling", "cached pixel map and its key", "camera.py"),
      ("map_undistort, last_extent_undistort", "cached undistortion map and its key", "camera.py")],
     ["returned images"])

prop("C04", "Threads using a camera read-only get the same results as one thread alone",
     """When several threads transform points, take rays, measure objects, compute horizons, top views or undistorted
     images with one camera whose parameters nobody changes, while other threads update cameras of their own, every call
     returns what it returns when called alone, under every interleaving; no call fails or blocks because of another
     thread.""",
     ["schedules"],
     """every interleaving, at source line granularity inside the library, of 2 to 4 threads with short programs of
     read-only calls on a shared camera and of updates and transforms on private cameras""",
     "no test starts a thread",
     ["camera.py", "projection.py", "spatial.py", "lens_distortion.py", "gps.py", "ray.py"],
     [("transforms keep their intermediate values in locals", "camera.py:imageFromSpace"),
      ("map caches hand out the map they computed", "camera.py:_getMap")],
     observe=["per-call results versus the serial results"])

prop("C05", "A saved camera loads back as the same camera",
     """Saving a camera (any projection, orientation and lens type, any parameter values including ones obtained by fits,
     defaults and uncertain parameters) or a projection, orientation or lens, and loading the file into any other object of
     the kind, in the same process or a new one, with load or load_camera, gives an object with the same kinds of parts
     which reads the same parameter values and transforms identically; this survives repeated save/load generations and
     successful retries after failed saves.""",
     ["histories", "configurations", "fault_sequences"],
     """every camera state reachable by a history of updates, every target state, restarts in between, short reads and
     writes, and transient disk errors before the successful save""",
     """the tests save and load one configuration per part and compare a few values; no combination with history, with
     defaults, other orientation classes or process restarts""",
     ["camera.py", "projection.py", "spatial.py", "lens_distortion.py"],
     [("parameters and part types exported as JSON", "camera.py:Camera.save"),
      ("parts rebuilt from the type tags, values assigned", "camera.py:Camera.load")],
     observe=["loaded object versus saved object: part types, parameters, transforms"])

prop("C06", "Saving is all or nothing",
     """If saving a camera, projection, orientation or lens over an existing file is cut short at any point - a full disk,
     an I/O error, a short or torn write, a crash of the process or of the machine, or a value that cannot be saved - the
     file afterwards holds either the complete old or the complete new content. A save that returns normally has stored the
     complete new content and one that could not raises an error; a reader opening the file at any moment sees a complete
     old or new file.""",
     ["crash_points", "fault_sequences", "schedules"],
     """every disk operation of a save as crash or fault point, every length of a torn write, every order of the reader's
     operations relative to the writer's, over histories of saves""",
     "the tests save to a healthy temporary directory and never fail or interrupt a write",
     ["camera.py", "projection.py", "spatial.py", "lens_distortion.py", "utils.py"],
     [("content serialised first, written to a temporary file, synced, renamed over the target", "utils.py:write_file_atomic")],
     observe=["file content after the simulated crash or fault, read by an independent parser and by load_camera"])

prop("C07", "A failed load raises and leaves the camera as it was",
     """Loading from a file that is missing, empty, truncated at any byte, followed by remains of a longer file, with bytes that never reached the disk (zeros), or whose reading fails at any point raises an
     exception, and afterwards the object has the parts, parameters and transforms it had before; a later load of an
     intact file works normally.""",
     ["fault_sequences", "crash_points", "inputs"],
     """every truncation length of a saved file, every disk operation of the load as the failing one, over cameras with a
     history""",
     "the tests only load intact files",
     ["camera.py", "projection.py", "spatial.py", "lens_distortion.py"],
     [("file parsed completely before the object is touched", "camera.py:Camera.load")],
     observe=["object state before and after the failed load"])

prop("C08", "Metropolis traces are faithful to the sampled log-probability",
     """In every metropolis run of a camera or group each row of the trace carries exactly the log-probability which was evaluated at that row's
     position, successive rows are either the same or move to an evaluated proposal, the number of rows is the iterations
     minus the burn-in (up to the two rows at its border), a proposal at least as probable as the current position is
     always taken and one of zero probability never is, and less probable proposals are accepted with probability
     exp(difference).""",
     ["histories", "inputs", "configurations"],
     """every random stream, log-probability landscape (with plateaus, cliffs and zero-probability regions), step, range,
     iteration and burn-in setting and number of parameters, including additional parameters""",
     """the tests run one sampling and compare the best row with loose tolerances; a wrong pairing, acceptance rule or
     bookkeeping stays invisible""",
     ["statistic.py", "parameter_set.py"],
     [("proposal, acceptance and trace bookkeeping", "statistic.py:metropolis"),
      ("positions written to the camera before evaluation", "parameter_set.py:ClassWithParameterSet.metropolis")],
     observe=["the recorded sequence of log-probability evaluations versus the returned trace"])

prop("C09", "Fits and samplings never leave the parameter ranges",
     """While fit or metropolis runs with parameters that have lower and upper bounds, every position at which the
     log-probability is evaluated, every row of the trace and the final camera parameters lie within the bounds, for every
     random stream, step size, start value within the bounds and run length.""",
     ["histories", "inputs", "configurations"],
     """every random stream, every bound/step ratio, every acceptance pattern (which drives the adaptive step scale)""",
     """the tests use wide bounds and a single run; leaving the bounds needs a particular acceptance history""",
     ["statistic.py", "parameter_set.py"],
     [("truncated normal proposals", "statistic.py:metropolis"), ("bounds passed to the minimizer", "parameter_set.py:fit")],
     observe=["parameters seen by a custom log-probability at every evaluation"])

prop("C10", "A finished search leaves its result in the camera",
     """When fit returns, the camera's fitted parameters are the returned optimum and its log-probability is not worse than
     at the start; when metropolis returns they are the most probable row of the trace, as after set_to_mean; after sample
     with a trace they are one of its rows and sample returns that row's log-probability. No other parameter of the camera
     is changed, and all transforms follow the new values.""",
     ["histories", "inputs", "configurations"],
     """every random stream and landscape, every history of earlier updates and searches, every set of fitted parameters
     and every trace (including sliced ones set by the user)""",
     "the tests check one optimum with tolerance; unfitted parameters and coherence after the search are never compared",
     ["parameter_set.py", "statistic.py"],
     [("result written back after the search", "parameter_set.py:fit"),
      ("most probable row written back", "parameter_set.py:set_to_mean")],
     observe=["camera parameters and transforms after the search versus result/trace and a fresh camera"])

prop("C11", "An aborted search leaves a usable, coherent camera",
     """If the log-probability raises at any evaluation of a fit, metropolis run or start-position search (including
     KeyboardInterrupt), the exception reaches the caller, the trace set before is still set, parameters that were not
     fitted are unchanged, fitted ones hold one evaluated position with all transforms following it, and the next search
     works as if the aborted one had not happened.""",
     ["crash_points", "fault_sequences", "histories"],
     "every evaluation of the log-probability as the failing one, every exception kind, repeated aborts, then a search",
     "no test lets a log-probability fail",
     ["parameter_set.py", "statistic.py"],
     [("parameters and derived state updated together before each evaluation", "parameter_set.py:set_fit_parameters")],
     observe=["camera after the injected exception"])

prop("C12", "Seeded runs are exactly reproducible",
     """With numpy's global random generator seeded, the results of metropolis, fit, sample and set_to_mean, including the
     trace and all camera parameters, are bit-for-bit the same in every process, for every hash seed, memory layout and
     earlier use of other cameras, and random numbers are drawn only from that generator, which the library never
     reseeds.""",
     ["configurations", "histories", "schedules"],
     """every seed, program of searches and samplings, PYTHONHASHSEED, preceding activity of the process and wall clock""",
     "a test runs in one process once; nothing compares two executions",
     ["parameter_set.py", "statistic.py"],
     [("all randomness drawn from numpy's global generator", "statistic.py:metropolis")],
     observe=["digest of all results, generator state before and after"])

prop("C13", "Sampling uncertain parameters touches only those parameters",
     """sample() without a trace draws each parameter given as (mean, std), and only those, independently from its normal
     distribution, set_to_mean() puts exactly those back to their means, and both leave every other parameter exactly as
     it was, whatever the history of earlier updates; a parameter assigned a plain value is no longer uncertain.""",
     ["histories", "inputs"],
     "every history of plain and (mean, std) assignments, samples and set_to_mean calls, every random stream",
     "no test samples a camera without a trace",
     ["parameter_set.py", "projection.py"],
     [("Parameter.sample / set_to_mean", "parameter_set.py:Parameter"),
      ("sample and set_to_mean over all parameters", "parameter_set.py:ClassWithParameterSet.sample")],
     observe=["all parameters before and after"])

prop("C14", "The log-probability is the sum of exactly the added information",
     """At any time the log-probability of a camera is the sum of the terms added since the last clear, each evaluated at
     the current parameters; information added only for plotting contributes nothing, an undefined sum counts as zero
     probability, and a group's log-probability is the sum of its own terms and those of all its members. Clearing a camera or group removes all terms added to it and their additional
     parameters.""",
     ["histories", "fault_sequences"],
     """every order of adding (all information kinds, custom terms, additional parameters, array-valued uncertainties),
     clearing, parameter updates and evaluations that fail in one of the terms""",
     "the tests add one kind of information per camera and fit; additivity, clearing and failing terms are not exercised",
     ["camera.py", "parameter_set.py"],
     [("list of terms summed on demand", "parameter_set.py:getLogProbability"),
      ("group sum over members", "camera.py:CameraGroup.getLogProbability")],
     observe=["getLogProbability versus the terms evaluated on isolated cameras"])

prop("C15", "Calls never alter the caller's data, nor share their own",
     """No transform, measurement, view, information, search or GPS call changes an array or list passed to it, so that
     repeating a call on the same data, in any order and from several threads that share the data, always gives the same
     result; changing a returned array in place never changes the camera or any later result, and no later call changes an
     array that was returned before (the identity transforms of a lens without distortion return the given array itself).""",
     ["histories", "schedules", "inputs"],
     """every sequence and interleaving of calls over a common pool of shared input arrays (several layouts and dtypes,
     with special values such as points in the camera plane), with returned arrays scribbled over in between""",
     "the tests pass fresh arrays to every call and never look at them again",
     ["projection.py", "spatial.py", "ray.py", "gps.py", "camera.py", "lens_distortion.py"],
     [("inputs converted to new arrays before use", "utils.py:ensure_array_format")],
     observe=["byte images of the inputs, repeated results"])

prop("C16", "Looking up a sensor size survives failed downloads",
     """When downloading the sensor database fails in any way (no connection, time-out, connection lost half way, an HTTP
     error answer, a crash or full disk while storing it), the lookup raises instead of answering from wrong data, and a
     later lookup with a working connection gives the right answer; once a download has succeeded, lookups are answered
     from the stored file without the network. Other processes never find an incomplete database while it is being stored.""",
     ["fault_sequences", "crash_points", "histories"],
     "every sequence of network and disk faults over repeated lookups and process restarts",
     "the tests never reach the network and do not call the lookup",
     ["camera.py"],
     [("database file cached in the working directory", "camera.py:_getSensorFromDatabase")],
     [("sensor_database_detailed.csv", "the cached database", "camera.py")],
     ["answers of successive lookups, number of requests made"])

prop("C17", "The calibration's corner cache never yields wrong corners",
     """Whatever crashes, full disks or I/O errors hit the chessboard processing of a batch of images with distinct names,
     by any number of concurrent workers, every later processing of an image returns either the corners that the detector finds in it or an
     error, never truncated, damaged or another image's corners nor those of another chessboard pattern, and an image with a chessboard is not skipped because of
     what an interrupted run left behind.""",
     ["crash_points", "fault_sequences", "schedules"],
     "every disk operation as crash or fault point, 1 to 3 workers in every interleaving, repeated restarts",
     "no test touches the calibration tools",
     ["gui_tools/calibrate/calibrate.py"],
     [("corner file written completely or not at all", "gui_tools/calibrate/calibrate.py:processImage")],
     [("<name>_corners.txt", "cached corners of one image", "gui_tools/calibrate/calibrate.py")],
     ["corners returned after a restart versus the detector's corners"])

prop("C18", "Every image of a calibration batch reaches a final status",
     """After "Process" is pressed in the calibration window, and whatever goes wrong with single images (unreadable file,
     no chessboard, an exception in the worker, a full disk), every image of the batch ends as processed or failed in
     list order, also when Process is pressed again; exactly one image is processed at a time, images that succeeded
     carry their own corners, and the table shows the status of the image in each row, also after the list was cleared
     during a batch and filled again.""",
     ["schedules", "fault_sequences"],
     "every delivery order of worker signals and user events, every image as the failing one, every exception kind",
     "no test opens the window",
     ["gui_tools/calibrate/gui_calibrate.py"],
     [("each finished worker starts the next image", "gui_tools/calibrate/gui_calibrate.py:processNextImage")],
     observe=["status of every image once the simulation is quiescent"])

prop("C19", "A deep copy of a camera is independent of the original",
     """A deep copy of a camera or group has the parameters and transforms of the original at the moment of copying, and
     from then on no update, sampling, search or load applied to one of them, through any of its parts, changes the
     parameters, transforms or views of the other.""",
     ["histories", "fault_sequences"],
     "every history before the copy, every interleaving of updates to copy and original afterwards, with aborted searches",
     "no test copies a camera",
     ["parameter_set.py", "projection.py", "lens_distortion.py", "spatial.py"],
     [("callbacks bound to the object that owns them", "projection.py:CameraProjection.__init__")],
     observe=["both cameras versus fresh twins"])

prop("C20", "The calibration window shows images undistorted by the latest calibration",
     """Once all worker threads and events have been handled, the corrected image shown in the calibration window is the
     selected image (the first one if none is selected) undistorted with the most recently fitted or loaded calibration,
     in whatever order the loading threads, selections, added or cleared images and new calibrations happened, and none of
     these actions ends in an exception.""",
     ["schedules", "histories"],
     "every interleaving of image loader threads with selections, added and cleared images and new calibrations, at source line granularity",
     "no test opens the window",
     ["gui_tools/calibrate/gui_calibrate.py", "camera.py"],
     [("new calibrations reset the undistorted images", "gui_tools/calibrate/gui_calibrate.py:newCalibration")],
     observe=["undistorted image of the selected image at quiescence versus a fresh camera"])

prop("C21", "Saved calibrations survive failures; broken files never replace one",
     """In the calibration window, if saving the calibration over an existing file is cut short at any point (a full disk, an
     I/O error, a short or torn write, a crash, a power loss), the file afterwards holds either the complete old or the
     complete new calibration, other programs never see anything else, and only a save that stored everything is reported
     as saved. Loading a saved file, in the same or a new window, makes exactly this calibration the current one, and loading
     a file that is missing, unreadable, truncated, damaged or not a complete calibration, like a fit that fails, leaves the
     calibration, the camera, the text, the curve and the images shown as they were.""",
     ["crash_points", "fault_sequences", "histories"],
     """every disk operation of a save as fault or crash point, every truncation and every missing value of a loaded file,
     every history of fits, saves, loads and restarts""",
     "no test opens the window",
     ["gui_tools/calibrate/gui_calibrate.py", "utils.py"],
     [("calibration written through a temporary file", "gui_tools/calibrate/gui_calibrate.py:saveCalibration"),
      ("file parsed and checked before the calibration is replaced", "gui_tools/calibrate/gui_calibrate.py:loadCalibration"),
      ("camera, text and images follow the calibration", "gui_tools/calibrate/gui_calibrate.py:newCalibration")],
     observe=["file after the simulated fault; calibration, camera, text and displays of the window"])

prop("C22", "A calibration is fitted from exactly the images marked for use",
     """"Fit Calibration" passes to the calibration the corners of exactly the images marked in the table's Use column, in
     list order, each with its own corners and pattern points, for the size of the images and with the chosen options, also
     while a batch is being processed (an image that is just being finished may or may not take part) and after a restart.
     Images with chessboard are marked once they are processed or found to have stored corners, a double click on the Use
     column toggles the mark of that image only, and images without corners are never marked. A fit that fails
     leaves the calibration as it was.""",
     ["schedules", "histories", "fault_sequences"],
     """every interleaving of worker threads with toggles, fits, more images, clearing and restarts, every image as the
     failing one, at source line granularity""",
     "no test opens the window",
     ["gui_tools/calibrate/gui_calibrate.py"],
     [("marked images with corners are collected", "gui_tools/calibrate/gui_calibrate.py:fitCalibration"),
      ("mark set when the processing succeeded", "gui_tools/calibrate/gui_calibrate.py:processImage"),
      ("mark toggled", "gui_tools/calibrate/gui_calibrate.py:imageDoubleClicked")],
     [("use", "the mark of one image", "gui_tools/calibrate/gui_calibrate.py")],
     ["arguments of the calibration versus the table"])

prop("C23", "Scenes and demonstrators draw the camera that the controls describe",
     """Whatever was done before (numbers typed or stepped, sliders dragged, locks, choice of projection, switching between
     the angle conventions, reset, a drawing that failed), after each change of a control the demonstrator's camera has the
     values shown by the controls, slider and number of a control agree, locked values follow (focal length y = x,
     center = half the image), the selected projection is used, and exactly the curves of a newly built camera with these
     values are drawn. Switching between the angle conventions leaves the view as it is, reset restores the initial one.
     Scene.renderImage writes the picture, in the size of the image, that a new scene with the same camera and objects
     gives.""",
     ["histories", "fault_sequences"],
     """every sequence of user actions and event deliveries on the controls of both demonstrators and of changes and
     renderings of several scenes, with a drawing call or the writing of the picture failing at any point""",
     "no test opens a demonstrator or draws a scene",
     ["gui_tools/demonstrator/demo_qt.py", "gui_tools/demonstrator/demo_matplotlib.py", "gui_tools/demonstrator/QtShortCuts.py", "scene.py"],
     [("controls are copied to the camera, which is drawn", "gui_tools/demonstrator/demo_qt.py:updatePlot"),
      ("conversion between the angle conventions", "gui_tools/demonstrator/demo_matplotlib.py:change_spatial"),
      ("number and slider, signals", "gui_tools/demonstrator/QtShortCuts.py:QInputNumber"),
      ("views and pictures", "scene.py:plotSceneViews")],
     [("last_emited_value", "value last told to the window", "gui_tools/demonstrator/QtShortCuts.py")],
     ["values of the controls, parameters of the camera, data of the curves in the figure, pixels of the picture"])

prop("C24", "Plots show the current camera and current trace, and change nothing",
     """plotFitInformation draws, into the current axes, for all information added to the camera (for fitting or only for
     plotting) the given points and what the camera predicts for them with its parameters at that moment, with the given
     image and the image's borders as limits - as a newly built camera does; plotTrace draws the values, distribution, mean
     and most probable value of each parameter of the camera's current trace, for any row numbers of the trace;
     plotMyEpiploarLines draws the lines of the current cameras of a group. This holds whatever was set, sampled, searched
     or plotted before, into whatever figure, and also if drawing failed half way. No plot changes a parameter, the
     log-probability, the trace, the random number generator or the data.""",
     ["histories", "fault_sequences", "configurations"],
     """every sequence of adding information, updates by any route, searches, traces and plots into new, shared or given
     axes, on cameras and groups, with a drawing call failing at any point""",
     "no test plots the information or a trace after a change of the camera, or looks at what was drawn",
     ["camera.py", "parameter_set.py", "statistic.py"],
     [("functions which draw the added information", "camera.py:addObjectHeightInformation"),
      ("plots of the information and the trace", "parameter_set.py:plotFitInformation"),
      ("distributions and values of a trace", "statistic.py:plotTrace"),
      ("epipolar lines", "camera.py:plotMyEpiploarLines")],
     [("info_plot_functions", "what is drawn for the added information", "parameter_set.py"),
      ("trace_ax_dict", "axes of the parameters, kept in the figure", "statistic.py")],
     ["lines, markers, images and limits in the matplotlib axes; parameters, trace and log-probability before and after"])

# ---- pure functions of their input: not a target of deterministic simulation ----
PURE = "pure function of its arguments; needs input generation or proof, there is no schedule, fault or history to search"
prop("N01", "Image and space coordinates are inverse to each other",
     """Projecting a point of space in front of the camera into the image and back with its own X, Y, Z or distance gives
     the point again, and conversely, for every projection, orientation and lens.""",
     ["inputs"], "all cameras and points", PURE, ["camera.py", "projection.py"], [("projection equations", "projection.py")])
prop("N02", "Projections, orientations and lenses implement the documented equations",
     """The coordinate transforms compute the formulas given in the documentation of each projection, orientation and lens
     class.""", ["inputs"], "all parameter values and points", PURE,
     ["projection.py", "spatial.py", "lens_distortion.py"], [("documented equations", "projection.py")])
prop("N03", "GPS positions, distances and bearings agree with each other",
     """Moving a GPS position by a distance and bearing and measuring them again gives the same values, and GPS and space
     coordinates are inverse to each other.""", ["inputs"], "all positions", PURE, ["gps.py"], [("haversine formulas", "gps.py")])
prop("N04", "GPS strings parse back to the position they were formatted from",
     "Formatting a GPS position with any supported format and parsing the string gives the position again within its precision.",
     ["inputs"], "all positions and formats", PURE, ["gps.py"], [("format and parse", "gps.py:formatGPS")])
prop("N05", "Ray intersections and triangulation are geometrically correct",
     "Intersections of rays with triangles and with each other lie on both and are the nearest ones.",
     ["inputs"], "all rays and meshes", PURE, ["ray.py"], [("intersection formulas", "ray.py")])
prop("N06", "Equivalent ways to specify a projection give the same projection",
     """Focal length in mm with a sensor size, in pixels, or by a field of view, and image sizes by tuple, array or numbers
     give equal projections, and contradictory specifications are refused.""",
     ["inputs"], "all argument combinations", PURE, ["projection.py"], [("argument handling", "projection.py:__init__")])
prop("N07", "Transforming many points at once equals transforming them one by one",
     "Every transform of an array of points equals the array of the transforms of its points.",
     ["inputs"], "all arrays", PURE, ["camera.py", "projection.py"], [("broadcasting", "camera.py:spaceFromImage")])
prop("N08", "Object sizes, areas and the horizon agree with the transforms",
     "Heights, lengths, pixel areas and the horizon equal what the coordinate transforms of their end points give.",
     ["inputs"], "all cameras and points", PURE, ["camera.py"], [("derived measures", "camera.py:getObjectHeight")])
prop("N09", "Camera parameters are read correctly from EXIF data",
     "Focal length, sensor size and image size are those stored in the image's EXIF tags.",
     ["inputs"], "all EXIF encodings", PURE, ["camera.py"], [("tag decoding", "camera.py:getCameraParametersFromExif")])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
    print(len(P), "properties")
