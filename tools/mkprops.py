"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S = "src/emva1288/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Campaign results equal the standard's computation on the delivered frames",
 "For every recorded measurement campaign, the results obtained through the processing pipeline (descriptor, images, data, results, or the one-call facade) are the values the EMVA 1288 formulas give for exactly the frames the device delivered: means and temporal variances per point, responsivity, gain, quantum efficiency, dark noise, sensitivity threshold, saturation, SNR, dynamic range, linearity, dark current, DSNU/PRNU with their row, column and pixel parts, and the four histograms. "
 "This holds for any device noise, offset, gain, flicker, bit depth (8 to 16), image format, exposure plan (one or many exposure times) and number of delivered frames in the spatial stacks, including dark and bright stacks of different length after frame loss.",
 ["inputs", "histories", "fault_sequences"],
 "All frame histories a device can deliver: any noise realisation, uniform light flicker, lost frames in spatial stacks, stuck pixels, saturation, 8..16 bit, exposure or irradiance variation, any frame size with at least 10x10 pixels.",
 "Tests check two seeded 8-bit-ish campaigns of a fault-free simulated camera, mostly comparing one property of the results with another one; no independent model, no frame loss, no flicker.",
 ["process/routines.py", "process/loader.py", "process/data.py", "process/results.py", "process/__init__.py"],
 [("integer accumulation of sum and pseudo variance", "process/routines.py get_int_imgs"), ("conversion to means/variances", "process/data.py Data1288"), ("formulas", "process/results.py Results1288")],
 ["Data1288.data", "Results1288 attributes", "Results1288.results", "Emva1288.xml"])

prop("C02", "Recording order never changes the results",
 "The results of a campaign do not depend on the order in which it was recorded or listed: permuting the measurement blocks of the descriptor, the frames inside a block, or the order in which points are held in the image dictionary gives the same data and results.",
 ["histories", "schedules"],
 "All permutations of blocks and of frames within blocks, and all insertion orders of exposure times and photon counts, for any campaign.",
 "Tests process the two generated campaigns only in the order the generator wrote them.",
 ["process/parser.py", "process/loader.py", "process/data.py", "process/routines.py"],
 [("points sorted by exposure and photons", "process/data.py _get_temporal/_get_spatial"), ("dark point keyed by photon count 0.0", "process/parser.py _add_pcount"), ("order free integer sums", "process/routines.py get_int_imgs")],
 ["ParseEmvaDescriptorFile.images", "LoadImageData.data", "Data1288.data", "Results1288 attributes"])

prop("C03", "Uniform light flicker between the two frames of a pair is not counted as noise",
 "Adding a constant grey value offset to every pixel of one frame of a temporal pair (a uniform change of the light or of the offset between the two exposures, without clipping) leaves the temporal variance of that point unchanged and moves its mean by half the offset, for bright and for dark points, independently of the other points.",
 ["inputs", "fault_sequences"],
 "Any campaign, any set of temporal points hit, any offset of either sign on either frame of the pair that does not clip.",
 "Tests never disturb the frames; simulated pairs have almost equal means, so a missing or wrong correction is invisible to them.",
 ["process/routines.py", "process/data.py", "process/loader.py"],
 [("mean difference recorded with the sums", "process/routines.py get_int_imgs"), ("square of mean difference / 2 subtracted", "process/data.py _get_temporal")],
 ["Data1288.data['temporal']"])

prop("C04", "A read fault during processing is an error or harmless, never a wrong result",
 "If reading the descriptor or any image fails, is cut short or meets a missing, truncated or wrong-sized image file while a campaign is processed, the processing raises an error, or it delivers exactly the results of the intact campaign. "
 "Partial reads are harmless, and once the fault is gone, processing the same campaign again in the same process gives exactly the fault-free results.",
 ["fault_sequences", "histories"],
 "Every read/open operation of a processing run as fault position; EIO, EACCES, EMFILE, disappearing file, truncated file, exchanged frame of another size, short reads; any sequence of failed attempts before a clean one; image loader supplied by the user that fails.",
 "Tests read only intact files; the one error test covers dictionaries without dark images.",
 ["process/parser.py", "process/loader.py", "process/routines.py", "process/__init__.py"],
 [("existence check", "process/loader.py _load_imgs"), ("shape check", "process/loader.py _load_imgs"), ("per-object state only", "process/loader.py LoadImageData.__init__")],
 ["ParseEmvaDescriptorFile(...)", "LoadImageData(...).data", "Data1288.data", "Results1288 attributes"])

prop("C05", "A descriptor is read exactly as written or rejected",
 "A well formed descriptor, including comments, blank lines, decimal commas, extra white space, either path separator and either line ending, is read as exactly the version, image format and image lists it states. "
 "A damaged one (torn at any byte, lines lost, repeated or swapped, wrong field counts, bytes overwritten or not UTF-8) is either rejected with a syntax, value or I/O error (never an internal one) or read as exactly what its remaining text states: no point is merged, overwritten or invented, duplicated points, repeated format lines and series of less than two images are rejected, and every line that is not understood is reported by a warning.",
 ["inputs", "crash_points", "fault_sequences"],
 "All descriptors of the documented grammar and all truncations, line-level and byte-level corruptions of them.",
 "Tests parse the two descriptors the generator writes; every rejection branch is marked 'no cover'.",
 ["process/parser.py"],
 [("line grammar", "process/parser.py _fill_info"), ("no overwrite of points", "process/parser.py _add_pcount"), ("at least two images", "process/parser.py _get_images_filenames"), ("non UTF-8 rejection", "process/parser.py _load_file")],
 ["ParseEmvaDescriptorFile.images/.format/.version", "log records", "exceptions"])

prop("C06", "A generated dataset stores exactly the delivered frames, completely, or raises",
 "When dataset generation returns, the directory holds a descriptor and images which, read back, are exactly the frames the camera delivered, in order, each listed once under the exposure time and photon count in force when it was grabbed, following the documented plan (two frames per temporal point, the requested number per spatial point, a dark and a bright point per exposure time). "
 "If any directory, file, write or close operation fails (disk full, I/O error), generation raises instead of returning; partial writes which the system completes change nothing.",
 ["fault_sequences", "configurations", "inputs"],
 "Every directory/open/write/close operation as fault position with EIO, ENOSPC, EACCES, EMFILE; short writes; any camera and plan configuration, 8..16 bit, PNG and TIFF.",
 "Tests generate two fault-free datasets and never compare stored pixels with grabbed frames.",
 ["camera/dataset_generator.py", "camera/points_generator.py"],
 [("write descriptor while grabbing", "camera/dataset_generator.py run_test"), ("image encoding by bit depth", "camera/dataset_generator.py save_image")],
 ["DatasetGenerator(...)", "files of the dataset directory", "Camera.grab"])

prop("C07", "An interrupted generation never yields a dataset that is silently wrong",
 "If dataset generation is killed or loses power at any instant, processing whatever survived on disk either fails with an error or gives exactly the results of the surviving frames the descriptor lists. "
 "Generating again into the same directory either refuses, or leaves exactly the new dataset: frames or descriptor lines of two runs are never mixed.",
 ["crash_points", "histories"],
 "Crash after any file-system operation of the generation, process kill (written data survives) or power loss (any prefix of each unsynced file survives, or none); then processing, regeneration or both.",
 "Tests never interrupt a generation and always use a fresh temporary directory.",
 ["camera/dataset_generator.py", "process/parser.py", "process/loader.py"],
 [("fresh images directory is required", "camera/dataset_generator.py DatasetGenerator.__init__ makedirs"), ("rejecting torn descriptors and missing images", "process/parser.py, process/loader.py")],
 ["dataset directory after the crash", "exceptions", "Data1288.data"])

prop("C08", "A temporary dataset lives exactly as long as its generator",
 "A dataset generated without an output directory stays complete and readable for as long as its generator is referenced, whatever other generators are created, dropped or fail meanwhile, and its directory is removed with all its content when the generator goes away. "
 "A generation that fails leaves no temporary directory behind, and a directory given by the caller is never removed.",
 ["histories", "fault_sequences"],
 "All histories of creating, dropping, processing and failing generators (with and without output directory, with I/O errors at any point) and of garbage collections between them.",
 "Tests create one generator and only check after tear-down that its directory is gone.",
 ["camera/dataset_generator.py"],
 [("TemporaryDirectory bound to the generator", "camera/dataset_generator.py DatasetGenerator.__init__")],
 ["file system", "DatasetGenerator.descriptor_path"])

prop("C09", "Seeded cameras are reproducible and isolated from each other",
 "Two cameras built with the same parameters and the same seed deliver identical frames for identical operation sequences, no matter what other cameras, threads or users of random numbers do in between; cameras with different seeds or without a seed deliver different noise. "
 "A copied or stored camera goes on, here or in another process, with exactly the frames the original would have delivered, and neither influences the other. "
 "Frames already delivered, the arrays passed in by the caller (illumination, non-uniformity maps, quantum efficiency) and the settings of other cameras are never changed by an operation on a camera, except for the documented change of the dark signal map by bad-pixel injection.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "All operation histories over several cameras (setting changes, grabs, photon/radiance queries, dataset generation), all interleavings of threads that each use their own camera, any seed including 0.",
 "Tests grab from single cameras and never compare two runs.",
 ["camera/camera.py", "camera/dataset_generator.py", "camera/routines.py"],
 [("generator per camera", "camera/camera.py Camera.__init__ _rng"), ("new arrays per frame", "camera/camera.py grab")],
 ["Camera.grab", "Camera attributes", "generated dataset files"])

prop("C10", "Frames follow the noise model for the settings in force, and stay in range",
 "Every frame has the sensor's shape, the unsigned integer type for its bit depth (one byte up to 8 bit, two up to 16 bit), and values from 0 to the full scale; its grey values are distributed as the documented linear camera model says for the settings in force at that grab: exposure time, gain, black offset, temperature, f-number, illumination, non-uniformities, dark signal, full-well and full-scale clipping, with noise independent between pixels and between frames. "
 "A temperature or f-number given for one grab affects that grab only, and setting gain or black offset selects the nearest available value.",
 ["histories", "inputs", "configurations"],
 "All histories of setting changes, per-grab overrides and grabs; all camera configurations with 8 to 16 bit.",
 "Tests check a few ratios of mean values and one configuration; distribution, clipping and histories of overrides are not looked at.",
 ["camera/camera.py", "camera/routines.py"],
 [("noise model", "camera/camera.py grab"), ("per-grab overrides", "camera/camera.py _u_therm/_u_e"), ("nearest available setting", "camera/routines.py nearest_value")],
 ["Camera.grab", "Camera.K", "Camera.blackoffset"])

prop("C11", "Results do not depend on what was read before, or by whom",
 "Every value of a results object is the same whenever it is read: in any order, any number of times, together with plotting, XML output, printing or report rendering, from several threads, and after an earlier read was interrupted by an exception. "
 "Reading never changes the campaign data the object was built from (which may be shared by several results objects), and changing a returned histogram, table or dictionary does not change what is returned later.",
 ["histories", "schedules", "fault_sequences"],
 "All read histories over one or several results objects sharing the same data, all thread interleavings of such reads, asynchronous exceptions (interrupt, out of memory) at any line of a read.",
 "Tests read each value once, in a fixed order, from one thread.",
 ["process/results.py", "process/routines.py", "process/plotting.py"],
 [("computed on demand from the data", "process/results.py properties"), ("cached saturation index", "process/results.py index_u_ysat")],
 ["Results1288 attributes", "Results1288.results", "Results1288.xml", "Data1288.data"],
 [("saturation index cache", "memorised index of the saturation point", "process/results.py")])

prop("C12", "Concurrent and interleaved campaigns do not affect each other",
 "Processing several campaigns at the same time in one process, in threads or interleaved step by step (parsing, loading, data, results, XML output, generation), gives for each campaign exactly what processing it alone gives, including when some of them fail.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of the steps of two to four pipelines with different campaigns and sizes, at line granularity for threads, with read faults in some of them.",
 "Tests run one pipeline at a time in one thread.",
 ["process/parser.py", "process/loader.py", "process/data.py", "process/results.py", "process/routines.py", "camera/dataset_generator.py"],
 [("all state is per object", "process/*.py constructors")],
 ["Data1288.data", "Results1288 attributes", "generated files"])

prop("C13", "A report contains each added operation point exactly once, as added",
 "After any history of successful and failed additions, the report lists exactly the successfully added operation points, each exactly once, in the order of addition, with identifiers OP1, OP2, ... without gaps, and each with its own name, settings, results and plot files. "
 "An addition that fails raises, leaves no trace in the report, and can be repeated; several reports built in the same process, also from the same information dictionaries, are independent.",
 ["histories", "fault_sequences"],
 "All histories of adding (own or shared campaign data, with or without precomputed results, named or unnamed, summary or full), failing additions (bad data, plot failure, disk error at any operation), writing the report repeatedly, and several reports at once.",
 "Tests add one or a few operation points once and check that files exist.",
 ["report/report.py", "report/templates/report.tex", "report/templates/op.tex"],
 [("append after plots are written", "report/report.py add"), ("numbering from the list of points", "report/report.py add")],
 ["report.tex", "OPn/*.pdf", "Report1288.add", "Report1288.latex"])

prop("C14", "A finished report directory is complete, or an error was raised",
 "When creating and writing a report returns, the output directory holds the TeX report, the style file, the static assets, every plot and every uploaded file the TeX text refers to, each complete and with the content of its source, also when two uploads share a file name, when the directory existed before, and when an earlier attempt was killed at any instant. "
 "If any file operation fails, the call raises.",
 ["fault_sequences", "crash_points", "histories"],
 "Every file operation of building a report as the position of an I/O error, short write, or crash (kill or power loss) followed by a rerun into the same directory; any combination of logo, missing-plot and QE uploads.",
 "Tests write one report into a fresh directory without uploads; handling of existing directories and uploads is marked 'no cover'.",
 ["report/report.py", "report/templates/emvadatasheet.sty", "report/templates/report.tex"],
 [("directory set-up", "report/report.py _make_dirs"), ("file output", "report/report.py _write_file"), ("plots", "report/report.py _plots")],
 ["files below the report directory", "exceptions"])

prop("C15", "Stored XML results read back exactly; torn files are never taken as results",
 "Results written as XML, to a file or as text, read back as the same sections, names, numbers and arrays. "
 "If writing fails (disk full, I/O error) the writer raises, and a file left incomplete by a crash, or damaged so that it is not well formed, is reported as unreadable rather than read as fewer or other results.",
 ["inputs", "crash_points", "fault_sequences"],
 "All result sets (any finite, huge, tiny, negative or missing values), every truncation of the file, every write operation as fault position, overwriting older files of any size.",
 "XML output and input are excluded from coverage; no test reads a file back.",
 ["process/routines.py", "process/results.py"],
 [("serialisation", "process/routines.py dict_to_xml"), ("reading", "process/routines.py xml_to_dict")],
 ["Results1288.xml", "xml_to_dict", "files"])

prop("C16", "Comparing two result files flags every difference and nothing else",
 "Comparing two stored result sets marks as failed exactly those entries which differ after rounding to seven significant digits, are missing on one side, or have different array names or sizes, and marks every other entry as fine; sections missing on one side are flagged. "
 "The verdict does not depend on which file comes first, the optional output file holds the same text, and if one of the files cannot be read (torn by a crash) no verdict is produced.",
 ["inputs", "histories", "fault_sequences"],
 "All pairs of stored result sets with finite values and all edits between them (value changes at any digit position, removed or renamed entries, sections and arrays, array length changes); torn files.",
 "The comparison has no test at all.",
 ["process/routines.py"],
 [("rounding to significant digits", "process/routines.py round_significant"), ("section and entry walk", "process/routines.py compare_xml")],
 ["text returned by compare_xml", "output file"])

prop("C17", "Plots show exactly the tests given, once each, whatever was plotted before",
 "Plotting a set of tests draws each requested plot once, with every test of the set contributing its own measurements and results exactly once, as visible together with the others as alone, and no curve of an earlier plot call, and never changes what other plots or the tests' results show.",
 ["histories"],
 "All histories of plot calls with any number of tests, any selection of the plot types, repeated and interleaved plotters, and plots that fail.",
 "No test plots more than what the report of one test needs.",
 ["process/plotting.py"],
 [("test list", "process/plotting.py Plotting1288.__init__"), ("one figure per plot", "process/plotting.py Plotting1288.plot")],
 ["matplotlib figures after plot()"])

prop("C18", "Processing and generating need only a bounded number of open files",
 "Processing or generating a campaign of any size, writing reports and XML files keeps only a small, size-independent number of files open at any moment, so it works with a nearly full file table, and leaves none open afterwards, whether it succeeds or fails.",
 ["inputs", "fault_sequences", "configurations"],
 "All campaign sizes and image formats, file tables with few free entries, any I/O fault during the run.",
 "Tests run with the default limit and never look at open files.",
 ["process/parser.py", "process/loader.py", "process/routines.py", "camera/dataset_generator.py", "report/report.py"],
 [("files closed after reading", "process/parser.py _load_file; process/routines.py load_image"), ("one frame in flight", "camera/dataset_generator.py run_test")],
 ["open file table of the process"])

prop("C19", "Automatic black offset and gain are the first suitable settings",
 "When no black offset is given, dataset generation uses the first available black offset, from the lowest up, whose dark frame at minimal exposure has at most about 0.5 % of its pixels at zero; when no gain is given it uses the first available gain, from the lowest up, at which the dark noise measured from the difference of two frames exceeds half a grey value; given values are used as they are. "
 "The selection leaves all other settings of the camera unchanged and terminates for every noise realisation, falling back to the available range.",
 ["inputs", "histories", "configurations"],
 "All noise realisations (including scripted devices whose frames change arbitrarily between grabs) and camera configurations.",
 "Tests always pass or accept whatever values come out; the selection result is not checked.",
 ["camera/dataset_generator.py", "camera/camera.py"],
 [("offset search", "camera/dataset_generator.py _get_emva_blackoffset"), ("gain search", "camera/dataset_generator.py _get_emva_gain")],
 ["Camera settings during generation", "Camera.grab"])

prop("C20", "Bad-pixel injection marks exactly the requested number of pixels",
 "Injecting n bad pixels (n up to the number of pixels) with a given level changes exactly n distinct pixels of the dark signal map, each to that fraction of the full-well capacity, leaves every other pixel as it was, can hit any pixel, and the following frames show it; repeated injections accumulate.",
 ["inputs", "histories"],
 "All random draws, counts from 0 to all pixels, levels, frame shapes, and histories of injections and grabs.",
 "No test covers bad-pixel injection.",
 ["camera/bad_images.py", "camera/camera.py"],
 [("random choice of positions", "camera/bad_images.py bad_pixel")],
 ["Camera.DSNU", "Camera.grab"])

prop("C21", "The pipeline recovers the parameters of a simulated camera",
 "Generating a dataset with a simulated linear camera and processing it recovers, within statistical accuracy, the camera's system gain, quantum efficiency, responsivity, dark noise, dark current, non-uniformities and saturation, for exposure variation and irradiance variation, for any seed.",
 ["inputs", "configurations"],
 "All seeds, and all linear camera configurations whose signal stays above the quantisation limit.",
 "Tests check one seeded camera for positivity and self-consistency of the results.",
 ["camera/camera.py", "camera/dataset_generator.py", "camera/points_generator.py", "process/parser.py", "process/loader.py", "process/data.py", "process/results.py"],
 [("camera model", "camera/camera.py"), ("whole pipeline", "process/")],
 ["Results1288 attributes"])

prop("C22", "A supplied image loader delivers every listed frame exactly once",
 "When a campaign is loaded with an image loader of the user, the loader is called exactly once for each listed frame, with the full path and exactly the given arguments, and the results are those of the frames as it returned them, whatever their integer-valued data type, byte order, memory layout or ownership. "
 "An exception raised by the loader is never swallowed and leaves nothing behind that would affect loading again; the frames, the loader's arguments and the dictionary of the images are not changed; loaders may be shared by threads and may process other campaigns themselves.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "All campaigns, image representations (8..64 bit integers, floats, both byte orders, strided, flipped, Fortran-ordered, read-only and memory-mapped arrays), argument lists, ways of giving the path, orders of the image dictionary, positions of failing calls, and interleavings of loads sharing a loader.",
 "No test supplies a loader.",
 ["process/loader.py", "process/routines.py"],
 [("call of the loader", "process/loader.py _load_imgs"), ("conversion to integers", "process/routines.py get_int_imgs")],
 ["calls of the loader", "LoadImageData.data", "Data1288.data", "Results1288 attributes"])

prop("C23", "Results and files depend only on the inputs, and nothing else is touched",
 "Processing, comparing, reporting, seeded cameras and dataset generation give the same results and file contents wherever the dataset lies and however its path is written, and whatever the working directory, file times, clock, time zone, global random state, print, decimal and error settings, environment variables, umask, locale, logging set-up, garbage collector, hash seed and optimisation mode (-O) are, also when other threads change them meanwhile. "
 "They change none of these settings, do not modify their input files and write nothing outside the requested output.",
 ["configurations", "histories", "schedules"],
 "All environments and locations of the dataset, and all instants at which another thread changes the environment while a job runs (relative paths: as long as the working directory stays; files are UTF-8).",
 "Tests run in one environment, one directory and one interpreter set-up.",
 ["process/parser.py", "process/loader.py", "process/routines.py", "process/results.py", "camera/camera.py", "camera/dataset_generator.py", "report/report.py"],
 [("paths relative to the descriptor", "process/parser.py _load_file"), ("absolute output directory", "report/report.py Report1288.__init__"), ("generator per camera", "camera/camera.py Camera.__init__")],
 ["Results1288 attributes", "XML text and files", "generated files", "report directory", "process settings"])

prop("C24", "A long-running process keeps nothing of what was dropped",
 "After parsers, loaders, data, results, plotters, reports, cameras and generators are dropped by the user, nothing of them stays alive: over any number of rounds of processing, plotting, reporting, comparing and generating new campaigns, successful, failed or interrupted, the process keeps no objects, arrays or frames of earlier rounds, its memory does not grow with the number of campaigns (beyond caches of a few small entries), and no log handlers, threads, figures, search paths or registry entries accumulate. "
 "The same holds for one results object that is read, or one camera that is used, again and again.",
 ["histories", "fault_sequences"],
 "All histories of rounds of jobs in one process, with damaged campaigns, disk errors and interrupts at any line.",
 "Tests are short processes; none looks at memory or at what stays alive.",
 ["process/loader.py", "process/data.py", "process/results.py", "process/plotting.py", "process/routines.py", "report/report.py", "camera/camera.py", "camera/dataset_generator.py"],
 [("all state is per object", "constructors"), ("figures outside of pyplot", "report/report.py _plots"), ("temporary directory bound to its generator", "camera/dataset_generator.py DatasetGenerator.__init__")],
 ["live objects", "memory of the process", "logging", "threading", "matplotlib.pyplot"])

prop("C25", "Every published form of the results states the same values",
 "The table of results, the table by section, the XML text, XML files, the printed summary, the summary sheet of a report and the output of the one-call facade all state, for every documented result, exactly the value the attribute of the results object has (in a report rounded to the digits of the sheet, a missing number as a dash), once, in its section and with its symbol and unit, none lacking and none taken from another result, object or campaign. "
 "A report also states the given vendor, model, sensor, set-up, camera settings and test parameters as given (in the head of its pages too), and a dash for what was not given. This holds in any order and for any number of forms, after forms that failed or were interrupted, when written over an older file, and when threads produce them at the same time.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "All campaigns including degenerate ones (infinite and undefined values, no pixel area, one exposure time), and all histories of forms with disk errors, interrupts and threads.",
 "Tests look at a few entries of one result set; none compares the forms with each other.",
 ["process/results.py", "process/routines.py", "process/__init__.py", "report/report.py", "report/templates/op.tex", "report/templates/general_info.tex", "report/templates/emvadatasheet.sty"],
 [("table from documented attributes", "process/routines.py cls_1288_info/obj_to_dict/_sections_first"), ("XML", "process/routines.py dict_to_xml"), ("printing", "process/results.py print_results"), ("summary sheet", "report/templates/op.tex")],
 ["Results1288.results", "Results1288.xml", "print_results output", "report.tex", "emvadatasheet.sty"])

prop("C26", "Planned operating points are those that were requested",
 "The plan of a measurement (and of a generated dataset) is the one requested, with the documented choice for what was not given: exposure variation at equally spaced exposure times from the minimal to the maximal one with one illumination that just saturates at the longest; illumination variation at the fixed exposure time with equally spaced levels from the minimal to the maximal radiance (a first step above dark up to saturation if not given), a dark point, and the spatial points at the middle; the given gain and black offset are in force (nearest available). "
 "The illumination computed for a mean grey value and an exposure time is the one at which light and dark current together give that mean, in the frames too. This holds for the settings in force at that time, whatever was planned, generated, grabbed, interrupted or set before, and later plans never change an earlier one.",
 ["inputs", "histories", "schedules"],
 "All requests (any subset of exposure range, fixed exposure, radiance range, gain, black offset, steps), all camera settings, and all histories of plans, datasets, grabs, setting changes and interrupted plans on one or more cameras.",
 "Tests generate datasets with one default plan and never look at its levels.",
 ["camera/points_generator.py", "camera/camera.py", "camera/routines.py", "camera/dataset_generator.py"],
 [("plan", "camera/points_generator.py PointsGenerator.__init__/_get_points"), ("illumination for a mean grey value", "camera/camera.py get_radiance_for"), ("photon conversion", "camera/routines.py get_photons/get_radiance")],
 ["PointsGenerator.points", "DatasetGenerator.points", "Camera.get_radiance_for", "Camera.grab", "descriptor photon counts"])

prop("C27", "The product of every stage can be kept, copied, stored and used again",
 "The images dictionary of the parser, the image data of the loader, the campaign data and the results object are values: no stage (loading, data, results, plotting, reports, XML) changes what it is given or an earlier product. "
 "From the same product the next stage always makes the same thing: at once or later, used once or many times, by several threads, after interrupted or failed attempts with it, from a copy or from what was stored and read back (pickle, JSON, arrays in files; any order of keys, read-only or unsigned arrays, relative paths with the loader's path), also in another process after the first one ended. "
 "Frames summed without files give the same image data as their files do.",
 ["histories", "schedules", "fault_sequences"],
 "All campaigns and all histories of uses, copies, stored and restarted products, with disk errors, interrupts and threads.",
 "Tests run each stage once on a fresh product and never look at it again.",
 ["process/parser.py", "process/loader.py", "process/data.py", "process/results.py", "process/routines.py"],
 [("image data", "process/loader.py LoadImageData._load_data/_get_imgs_data"), ("campaign data", "process/data.py Data1288._get_temporal/_get_spatial_data"), ("frames to integers", "process/routines.py get_int_imgs"), ("results on shared data", "process/results.py Results1288.__init__")],
 ["ParseEmvaDescriptorFile.images", "LoadImageData.data", "Data1288.data", "Results1288 attributes", "get_int_imgs"])

# --- properties this family cannot address (pure functions) ---
prop("C30", "Masked (Bayer) arrays: high-pass, histogram and spectrum ignore masked pixels",
 "For a masked Bayer image the high-pass filter, the histogram and the spectrum use exactly the unmasked pixels and equal the result on the compressed colour plane.",
 ["inputs"], "All masks of the supported Bayer form and all images.",
 "Tests use two images.", ["process/routines.py"], [("masked handling", "process/routines.py high_pass_filter, FFT1288, Histogram1288")], ["return values"])
prop("C31", "Photon count and radiance conversion are inverse to each other",
 "Converting a photon count to radiance and back, for any exposure time, pixel area, f-number and wavelength, gives the photon count again.",
 ["inputs"], "All positive arguments.", "Tests use one configuration.", ["camera/routines.py"], [("conversion", "camera/routines.py get_photons/get_radiance")], ["return values"])
prop("C32", "Bayer tiles and quantum-efficiency grids keep geometry",
 "Tiling a pattern over a sensor repeats it with its period in both directions and the quantum-efficiency grid has the requested shape and wavelengths, for all sizes.",
 ["inputs"], "All shapes and patterns.", "Tests use a few shapes.", ["camera/routines.py"], [("tiling", "camera/routines.py get_tile/get_bayer_filter/Qe")], ["return values"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
