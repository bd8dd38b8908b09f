"""Which world decides which property, and what the evidence says about it (importable without numpy)."""

REGISTRY = {}
META = {}

LIB = "cameratransform (camera, projection, spatial, lens_distortion, parameter_set, statistic, gps, ray, utils): real code of the working tree"
THIRD = "numpy, scipy, pandas, OpenCV: real"


def world(prop, module, quick, thorough, rule, states, assumptions, real=(), stub=(), level="exploration", wall=240):
    REGISTRY[prop] = (module, prop)
    META[prop] = dict(quick_runs=quick, thorough_runs=thorough, rule=rule, state_measure=states, assumptions=list(assumptions),
                      real=[LIB, THIRD] + list(real), stub=list(stub), level=level, quick_wall=wall)


HIST = ["numbers only: updates given as text or arrays are not explored", "the transforms of a newly built camera are taken as right (their formulas are N01/N02)",
        "relative and absolute tolerance 1e-6 between live and newly built camera", "cameras with images of at most 96x72 pixels"]

world("C01", "history_worlds", 3500, 40000,
      "one run = one seeded history of 2-14 updates (thorough: up to 30) on a real camera with injected aborts of searches and failing loads, after "
      "which the camera is compared, parameter by parameter and transform by transform, with a newly built camera (same process and pristine "
      "process); non-trivial = at least 3 updates; two runs are distinct if their event logs differ",
      "last three operations (kind, parameter, route)", HIST,
      stub=["log-probability: injected quadratic landscapes that may raise", "random numbers: numpy's global generator, seeded per operation"])
world("C02", "history_worlds", 2500, 30000,
      "one run = one seeded history of 2-12 updates (thorough: up to 25) through a group, its members or the parts, on 2-3 members with a random choice of "
      "shared and own parts, with injected aborts; every member is compared with a stand-alone camera built from the current values of its own "
      "parts; non-trivial = at least 3 updates",
      "last three operations (kind, parameter, route)", HIST + ["a part object occurs once in a group (as the shared part or in one list)"],
      stub=["log-probability: injected quadratic landscapes that may raise", "random numbers: numpy's global generator, seeded per operation"])
world("C03", "history_worlds", 3000, 25000,
      "one run = one seeded history of 3-14 steps (thorough: up to 30) on a real camera: view calls with repeated and slightly changed arguments (extent "
      "lists reused and modified by the caller), interrupted at an arbitrary executed line or in the remapping, and updates of all routes; each image must be "
      "exactly the one of a newly built camera; non-trivial = at least 2 views returned an image",
      "last two steps (kind, view arguments, parameter, interrupted or not)", HIST,
      stub=["matplotlib's imshow: records the extent", "log-probability: injected landscapes"])
world("C04", "thread_world", 3500, 40000,
      "one run = 2-4 real threads with 1-8 calls each on one shared camera (some threads: updates and calls on cameras of their own), interleaved by one "
      "seeded schedule (random, PCT with 1-6 change points, bursts, or switches at lines that change shared data) at every executed line or bytecode of the library; every result is compared with "
      "that of the same call alone; non-trivial = at least one preemption; distinct = different event log including the schedule",
      "kind of call x kind of outcome, and pairs of calls in progress at the same time",
      ["preemption happens between lines or bytecodes of the library's Python code, not inside numpy, scipy or OpenCV calls (they work on data of their own call)",
       "nobody changes the parameters of the shared camera"],
      stub=["thread scheduler: one token, passed as the seeded schedule says", "threading.Lock/RLock: cooperative locks"])
DISK = ["process crash = from the crash on nothing reaches the disk; power loss additionally drops any suffix of the renames and creations of the "
        "operation and all data that was not synced (kept whole, halved, zeroed, or lost), renames are atomic and ordered",
        "the scratch directory on tmpfs plays the page cache; files of at most a few kilobytes"]
SHIM = "libsimdisk.so (LD_PRELOAD) between Python's io layer and the kernel: fault plan, crash, power loss, concurrent reader"
world("C06", "disk_world", 2500, 60000,
      "one run = 1-4 saves (thorough: 1-8) of a camera, projection, orientation or lens over a file on the simulated disk, each with at most one fault (error, full "
      "disk, short or torn write, crash, power loss) at a seeded disk call or with a value that cannot be saved, and a reader that looks at the file at every disk "
      "call; non-trivial = at least one fault took effect; distinct = different event log",
      "kind of object x fault x disk call hit x file existed x way the file was named", DISK, stub=[SHIM])
world("C05", "disk_world", 3000, 40000,
      "one run = 3-10 steps (thorough: up to 25) over two cameras (or projections, orientations, lenses) and two files: updates of all routes, saves (some hit "
      "by a disk fault and retried), loads into either object, load_camera, and loads in a pristine process; the loaded object is compared parameter by parameter "
      "and transform by transform with a newly built one; non-trivial = at least one load",
      "kind of object x step x parameter x way of loading x kinds of parts", DISK, stub=[SHIM])
world("C07", "disk_world", 1800, 40000,
      "one run = 2-6 steps (thorough: up to 15): loads of a file that is missing, empty, truncated at a seeded byte, garbled, unreadable, or whose n-th open or read "
      "fails, between updates and intact loads; after each the object is compared with a newly built one of the old values; non-trivial = at least one failed load",
      "kind of object x step x damage x position of the damage (5% steps) x way of loading", DISK, stub=[SHIM])
LOGP = "log-probability: recorded synthetic landscapes (quadratic, steep, flat, two maxima, holes of zero and of undefined probability, steps, maxima at or beyond the bounds)"
RNG = "random numbers: numpy's global generator, seeded per search"
world("C08", "search_world", 1500, 25000,
      "one run = one metropolis run of 20-350 iterations (thorough: up to 2500) over a seeded landscape, parameters, additional parameters, bounds, start, step and burn-in; every "
      "row is checked against the recorded evaluations; non-trivial = the chain moved",
      "landscape x number of parameters x iterations x burn-in x step",
      ["one log-probability evaluation per iteration", "acceptance probabilities are judged statistically within a run, threshold 6.5 sigma"], stub=[LOGP, RNG])
world("C09", "search_world", 1500, 25000,
      "one run = one fit (L-BFGS-B, Nelder-Mead, Powell, TNC, SLSQP) or metropolis run with seeded bounds (wide and narrow), start values inside or on the bounds, steps from 0.001 to 3000 "
      "times the range and landscapes that push outwards; every evaluated position is checked; non-trivial = a bounded parameter and more than 3 evaluations",
      "search x landscape x method x bounded parameters x iterations", ["tolerance: 1e-9 of the width of the range", "other scipy methods are not explored"], stub=[LOGP, RNG])
world("C10", "search_world", 1600, 25000,
      "one run = 2-7 fits, metropolis runs, samplings, traces set by the user and assignments on a camera or group; after each step all parameters and transforms are compared with the "
      "reference table and a newly built camera; non-trivial = at least 3 steps", "last three operations", HIST, stub=[LOGP, RNG])
world("C11", "search_world", 1500, 25000,
      "one run = 1-3 searches (thorough: up to 6), each aborted by a seeded exception at a seeded evaluation (also in the search for a start), then one more that is compared with the same search on "
      "a camera without the aborted ones; non-trivial = an abort took effect", "search x exception x evaluation (1-5, later) x landscape", HIST, stub=[LOGP, RNG])
world("C12", "repro_world", 300, 15000,
      "one run = one seeded scenario of 2-6 searches, samplings and assignments (thorough: up to 12) on a camera or group, executed in a plain process and in two processes of other hash seeds, memory layouts, "
      "clocks (steady, frozen, jumping, racing), entropy and earlier activity, and once more with another seed; all results are compared bit for bit; non-trivial = random numbers were drawn",
      "operation x landscape x clock x activity", ["one machine, one version of numpy and scipy"],
      stub=["clocks: time.time, monotonic, perf_counter and tqdm's", "operating system entropy behind python's random and secrets", "numpy's global generator: real, seeded"])
world("C13", "sample_world", 3600, 20000,
      "one run = a history of 3-10 steps (thorough: up to 25) of plain and (mean, std) assignments by all routes, set_fit_parameters, fits, loads, samples and set_to_mean calls on a camera, group, member, projection or "
      "orientation, each compared with the table, then 120-400 samples (thorough: up to 3000) of which every one is compared and whose distribution is judged; non-trivial = a parameter was uncertain",
      "last three operations", HIST + ["distributions are judged within a run, threshold 6.5 sigma on mean, variance, share within one sigma, pairwise and successive correlation"],
      stub=["log-probability of fits: injected landscapes", RNG])
world("C14", "info_world", 1500, 25000,
      "one run = 4-12 steps (thorough: up to 25) on a camera or group: adding information of all kinds (height, length, landmark, GPS landmark, horizon, custom, baseline, point correspondences; scalar, array and "
      "additional-parameter uncertainties; only for plotting), clearing, updates, failing terms, short searches; after each step the log-probability of every camera and the group is compared with the sum of "
      "the terms computed independently on newly built cameras; non-trivial = a finite sum of at least one term",
      "last three terms x operation x group or not", HIST + ["terms as documented: normal distributions of the measured quantities", "tolerance 1e-7 of the sum of absolute terms"],
      stub=["custom terms: injected, some raise", "matplotlib: agg", RNG])
world("C15", "alias_world", 3000, 40000,
      "one run = 4-14 calls (thorough: up to 40) out of 75 kinds on one camera over one pool of caller's data in seeded memory layouts (C, Fortran, strided, reversed, columns, read-only, integer, float32, lists; with "
      "points in the camera plane, nan), returned arrays overwritten in between, or the same by 2-3 threads interleaved by a seeded schedule; each result is compared with the call alone on fresh data, and all bytes of "
      "the data with their image; non-trivial = at least 3 results or one preemption",
      "call x call before x result overwritten", ["the identity transforms of a lens without distortion return their argument", "threads: preemption between lines or bytecodes of the library"],
      stub=["thread scheduler (threaded runs)", "matplotlib: agg", RNG])
world("C19", "copy_world", 2000, 30000,
      "one run = 0-4 updates, a deep copy of a camera, group or member, then 1-9 more steps (thorough: up to 24): updates of all routes, searches (some aborted), samplings, loads, views and further copies on any of "
      "the objects; after the steps all objects are compared with newly built cameras; non-trivial = an update after the copy",
      "number of objects x last three operations", HIST + ["log-probability terms of a camera are not part of the copy: they are functions of the camera they were added to"],
      stub=["log-probability: injected landscapes", RNG])
world("C16", "sensor_world", 2500, 60000,
      "one run = 5-10 sensor lookups (thorough: up to 19), direct or through the EXIF data of a real JPEG file, each with at most one network fault (refused, name resolution, time-outs, TLS, HTTP errors, connection cut or stalled at a "
      "seeded byte of the answer, garbled encoding, Ctrl-C) or disk fault at a seeded disk call, in one or in new processes, and at last without faults; answers and numbers of requests are compared with the "
      "database of the run; non-trivial = at least one lookup failed",
      "way of the lookup x network fault x disk fault x knowledge about the stored file x outcome",
      DISK + ["a lost connection is noticed by the HTTP layer (length or encoding of the answer), as with the real server"],
      real=["requests, urllib3 (response handling), pillow: real"], stub=[SHIM, "requests.adapters.HTTPAdapter.send: answers as the fault plan says"])
world("C17", "corner_world", 3000, 40000,
      "one run = 1-4 batches (thorough: up to 9) over 1-5 images of one output directory on the simulated disk (in half of the runs also images of the same names in a second folder), processed one by one, by up to 6 worker threads interleaved by a seeded schedule at every executed line or bytecode and every "
      "disk call (several may work on the same image), or by the whole script with one or three threads; each batch with at most one disk fault, crash or power loss; at last all images are processed in this and in a new process "
      "without faults; non-trivial = a fault took effect",
      "way of processing x fault x outcome x kind of image", DISK + ["images keep their content and have distinct names without extension within a folder", "one chessboard pattern per output directory"],
      stub=[SHIM, "OpenCV's image files, corner detection and calibration: deterministic stand-ins", "thread scheduler: one token, passed as the seeded schedule says", "multiprocessing.dummy.Pool: simulated threads"])
QT = ["PyQt5 on the offscreen platform, qimage2ndarray: real"]
GUISTUB = ["threading.Thread: simulated threads, one token passed as the seeded schedule says", "message boxes: answered at once", "glob.glob: sorted"]
world("C18", "gui_world", 1300, 15000,
      "one run = the calibration window with 1-5 images (good, without chessboard, unreadable, vanishing, detector raising) and 1-2 rounds (thorough: up to 4) of pressing Process, selecting, toggling, loading more images, in between delivered "
      "events, disk faults and restarts; worker threads and window are interleaved by a seeded schedule at every executed line; statuses are followed at every step and judged at quiescence; non-trivial = a fault or more than two "
      "worker threads", "user action x statuses x disk fault x running threads",
      DISK + ["images are not removed from the list while the batch runs", "preemption between lines of the library's Python code"], real=QT,
      stub=[SHIM, "OpenCV's image files, corner detection and calibration: deterministic stand-ins"] + GUISTUB)
world("C20", "gui_world", 1500, 20000,
      "one run = the calibration window with 1-5 images (JPEG and PNG; grey, colour, transparent; some with chessboard picture; two folders) and 2-9 user actions (thorough: up to 20): selections, loading calibrations (some files missing or cut), fits (some failing), toggles, more images, event deliveries, while loader threads are "
      "interleaved with the window by a seeded schedule at every executed line; at quiescence both displays are compared pixel by pixel; non-trivial = a calibration and more than one loader thread",
      "user action x action before x running threads x calibrated or not", ["images of 32x24 pixels", "after loading more images one is selected", "preemption between lines of the library's Python code"], real=QT,
      stub=["OpenCV's calibration: returns seeded coefficients"] + GUISTUB)
world("C21", "gui_world", 700, 20000,
      "one run = the calibration window with 1-2 images and 4-11 user actions (thorough: up to 25): fits (some failing), saves into two files on the simulated disk with at most one fault, crash or power loss each and a reader looking at every "
      "disk call, loads (some with read errors), loads of damaged files (cut at a seeded byte, garbled, a value missing, other JSON, missing), restarts; after each action the window's calibration, camera, text and save button are compared "
      "with the expected calibration, at quiescence also the displays, and all files are loaded in a new window at the end; non-trivial = a fault and a saved file",
      "user action x fault x disk call x damage x calibrated or not", DISK + ["values of the wrong type in an otherwise complete calibration file are not explored", "images of 32x24 pixels"], real=QT,
      stub=[SHIM, "OpenCV's calibration: returns seeded coefficients"] + GUISTUB)
world("C22", "gui_world", 1500, 20000,
      "one run = the calibration window with 1-5 images (good, without chessboard, unreadable, detector raising; some with stored corners) and 4-14 user actions (thorough: up to 30): fits (some failing), toggling the Use column, options, loading calibrations of other image sizes, "
      "batches, disk faults, more images, clearing, restarts, event deliveries, while worker threads are interleaved with the window by a seeded schedule at every executed line; what the calibration is given is compared with the marks in the "
      "table and the images' own corners; non-trivial = at least one fit",
      "user action x batch running x running threads x marked images x calibrated or not", DISK + ["images are not removed from the list while the batch runs", "images of 32x24 pixels", "preemption between lines of the library's Python code"], real=QT,
      stub=[SHIM, "OpenCV's image files, corner detection and calibration: deterministic stand-ins (calibration returns seeded coefficients)"] + GUISTUB)
world("C23", "demo_world", 500, 8000,
      "one run = the demonstrator window (Qt, 55% of the runs) or figure (matplotlib), or two scenes rendered as pictures, and 4-11 user actions (thorough: up to 30): typing and stepping numbers, dragging and paging sliders with events delivered in between, locks, projection, switching "
      "between the angle conventions, reset, some hit by a failing drawing call; after each action the camera, the controls and all curves drawn are compared with a newly built camera of the values shown, pictures with those of a pristine process; non-trivial = at least two actions that changed a control or pictures",
      "user action x control x action before x locks or angle convention x fault", ["after a failing drawing call the views are judged from the next change on", "demonstrators: 3 of the scene's objects", "relative and absolute tolerance 1e-6"],
      real=["PyQt5 on the offscreen platform, matplotlib (agg): real"], stub=["display: offscreen; mouse and event loop: seeded list of actions"])
world("C24", "plot_world", 1200, 15000,
      "one run = 5-14 steps (thorough: up to 30) on a camera or group: adding information (for fitting or only for plotting), updates of all routes, traces set by the user (plain, shifted and repeated row numbers) or left by searches, and "
      "plots of the information, the trace (all options) and epipolar lines into new, shared or given axes, some cut short by a failing drawing call; every drawn line, marker, picture and limit is compared with what a newly built camera "
      "draws and with the points computed independently; non-trivial = at least two plots",
      "plot x last information x step before x figure x fault", HIST + ["clearing the information before a plot is not explored", "tolerance 1e-6"],
      real=["matplotlib (agg): real"], stub=["log-probability: injected landscapes", RNG])
