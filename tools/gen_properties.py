#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Exit status 0 means every requested map is complete and correct",
  "If a marc run ends with exit status 0, every map file named in its input files exists, holds every requested plane (and the grid, if requested) with exactly the header and data a fault-free run writes, creation date aside, and its checksums verify. This holds whatever file system, memory or console errors the run met on the way.",
  ["fault_sequences", "inputs", "configurations"], "every request, every sequence of failing, short or torn reads, writes, opens, closes and allocations, every point at which the disk fills up",
  "The tests run marc on a healthy disk only; no test makes a write, close, read or allocation fail.",
  ["src/marc.cpp", "src/MapCommand.cpp", "src/MapCommand_t.cpp", "src/FITS_file.cpp", "src/FITS_file.h", "src/FITS_image.cpp", "src/FITS_image_t.cpp"],
  [("write failures become exceptions, exceptions become exit status", "src/MapCommand_t.cpp make_map_planes, src/marc.cpp main"),
   ("file closed and read back before success is reported", "src/FITS_file.cpp output_file::close")],
  [("status", "CFITSIO error status of each call", "src/FITS_*.cpp")], ["exit status", "map files on disk"])
p("C02", "Only complete map images carry valid checksums",
  "At every instant, after a kill, a power loss or any error, an image in a map file whose stored checksums verify is the finished image the run was asked for, header and data sum included. An unfinished image is never certified, and an older map is either still whole or no longer there.",
  ["crash_points", "fault_sequences", "inputs"], "every operation at which the process is killed or power fails, every subset of unsynchronised pages that reached the disk, every I/O error",
  "Tests only look at files of runs that ended normally, if at all.",
  ["src/FITS_image.cpp", "src/MapCommand.cpp", "src/MapCommand_t.cpp", "src/FITS_file.cpp"],
  [("checksum written last, after all planes and keywords", "src/FITS_image.cpp, src/MapCommand_t.cpp"), ("old map unlinked, never rewritten in place", "src/MapCommand.cpp execute")],
  [], ["CHECKSUM and DATASUM of every HDU on the (crashed) disk"])
p("C03", "A run changes nothing but the map files it was asked to write",
  "No run, whether it succeeds, fails or is killed, modifies or removes any file other than the map files named in its input: source images, input files, the configuration, unrelated files, and what a link standing in place of a map file refers to stay byte for byte as they were. A run that ends by itself leaves no additional files behind.",
  ["fault_sequences", "crash_points", "inputs"], "every request, every kind of existing output (file, symbolic link, hard link, junk), every fault sequence and kill point",
  "Tests never compare the rest of the file system, never start from links, and never inject faults.",
  ["src/MapCommand.cpp", "src/FITS_file.cpp", "src/marc.cpp"], [("sources opened read-only", "src/FITS_file.cpp open_fits_file"), ("existing map removed, not written through", "src/MapCommand.cpp execute")],
  [], ["every file in the working tree before and after"])
p("C04", "Every fault ends in a clean, explained failure or in success",
  "Whatever system call or memory allocation made by marc fails, the run terminates by itself with an exit status: it does not crash, abort, corrupt memory or hang. If it fails because of an I/O error, it says so on the console.",
  ["fault_sequences", "inputs"], "every request and every sequence of failing system calls and failing allocations by marc",
  "No test makes a call or an allocation fail.",
  ["src/marc.cpp", "src/MapCommand.cpp", "src/lexer.ll", "src/parse.yy", "src/FITS_file.cpp", "lib/marc/MapFactory_t.cpp", "lib/marc/plot_info.h", "lib/marc/Notifier.cpp"],
  [("exceptions caught and reported in main", "src/marc.cpp"), ("CFITSIO status turned into exceptions", "src/FITS_file.cpp throw_on_error")], [], ["exit status or signal", "console output", "heap canaries"])
p("C05", "Rerunning after any failure or crash yields the right maps",
  "After any number of failed or killed runs over the same files, a run that meets no fault ends with exit status 0 and leaves exactly the maps it would have written on a clean disk, whatever the earlier runs left behind.",
  ["crash_points", "fault_sequences", "histories"], "every sequence of up to three runs, each killed or failing at an arbitrary operation, followed by a run without faults",
  "Tests start from a fresh state and never continue on what a crashed run left.",
  ["src/MapCommand.cpp", "src/FITS_file.cpp"], [("existing output removed before the map is created", "src/MapCommand.cpp execute")], [], ["exit status and map files of the last run"])
p("C06", "Bad requests are refused before any existing map is touched",
  "If any input file, the configuration file or the command line of a run is malformed, missing or cannot be read, or an image to be mapped or its flat field is missing, cannot be opened or is not a FITS image, the run ends with a non-zero exit status and leaves every existing map file byte for byte as it was. This includes the maps of correct entries that precede the faulty one.",
  ["inputs", "fault_sequences"], "every position of the fault in a batch, every kind of refusal, read and open errors while the request is being read",
  "The bad-input tests only check that single bad files are refused; none has existing maps, a batch, or I/O errors.",
  ["src/marc.cpp", "src/parse.yy", "src/lexer.ll", "src/PhotoImageFactory.cpp", "src/command_line.cpp"],
  [("all input parsed, all images opened, before the first map is created", "src/marc.cpp main, src/PhotoImageFactory.cpp")], [], ["exit status", "existing map files"])
p("C07", "Damaged source images do not go unnoticed",
  "If stored bytes of a source image that carries FITS checksums were altered so that the checksums no longer match, a run that maps it either warns, naming the file, or fails. If a source image is cut short, before the run or while it is running, the run fails or the map is unaffected; intact images never cause such a warning.",
  ["fault_sequences", "inputs"], "every altered bit of data or header value of every checksummed source, every truncation point, every moment of truncation",
  "The tests' only source image is intact.",
  ["src/FITS_file.cpp", "src/PhotoImageFactory.cpp"], [("checksum verification when a source is opened", "src/FITS_file.cpp input_file"), ("read errors become exceptions", "src/FITS_file.cpp input_file::read")],
  [], ["console output", "exit status", "map files"])
p("C08", "Maps depend only on the request",
  "The same input files, configuration and source images give the same exit status and the same map files, creation date aside, on every run. Neither the time of day, clock changes, previous contents of memory, how many bytes each read or write transfers, the kind of console nor the locale or time zone makes a difference.",
  ["schedules", "configurations", "inputs"], "every request under every combination of clock, heap and stack contents, transfer sizes, console and environment",
  "Tests run once, in one environment, and memory is usually zero.",
  ["lib/marc", "src/parse.yy", "src/FITS_image.cpp", "src/MapCommand.cpp"], [("initialised state throughout", "lib/marc, src"), ("only DATE reads the clock", "src/FITS_image.cpp")], [], ["exit status", "map files"])
p("C09", "A map does not depend on the other maps of a run",
  "Every map of a run over several entries is the one its entry alone produces, whatever the order of the entries, their distribution over input files, and the outcome of the other maps. What an entry leaves unspecified takes the documented default or the configuration file's value, never that of another entry.",
  ["inputs", "histories", "fault_sequences"], "every batch, order and partition into input files, with and without a failing map in it",
  "Tests process one map per run.",
  ["src/parse.yy", "src/parse_scan.h", "src/MapCommand.cpp", "src/map_parameters.cpp"], [("parser state reset for each entry", "src/parse.yy")],
  [("parser file-scope variables", "settings of the entry being parsed", "src/parse.yy")], ["map files of batch and single runs"])
p("C10", "A source replaced during a run is used old or new, never mixed",
  "If a source image is atomically replaced by another one while marc runs, every plane made from it is made entirely from the old or entirely from the new image, header values included. A source that is merely removed after it was opened does not disturb the run.",
  ["schedules", "inputs"], "every operation of the run at which the replacement or removal takes place",
  "No test changes a file while marc runs.",
  ["src/PhotoImageFactory.cpp", "src/FITS_file.cpp"], [("source opened once, kept open until it is mapped", "src/PhotoImageFactory.h")], [], ["map files"])
p("C11", "Making maps does not change the objects they are made from",
  "Maps and grids made from the same projection, body and image objects, one after another or interleaved at any point by several threads that each use their own plotting information, are the same as if each was made alone. A plane that fails, because its source or a memory allocation fails, disturbs neither the others nor later ones.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of two to four mapping threads, every sequence of maps, every point at which one of them fails",
  "No test makes more than one map from the same objects, none uses threads or failing sources.",
  ["lib/marc/MapFactory_t.cpp", "lib/marc/MapFactory.cpp", "lib/marc/Mercator.cpp", "lib/marc/Orthographic.cpp", "lib/marc/PolarStereographic.cpp", "lib/marc/SimpleCylindrical.cpp", "lib/marc/PhotoImage.cpp", "lib/marc/MosaicImage.cpp", "lib/marc/ViewingGeometry.cpp", "lib/marc/OblateSpheroid.cpp", "lib/marc/VirtualImage.cpp"],
  [("mapping is const and keeps no state", "lib/marc MapFactory::make_map, SourceImage::read_data")], [], ["map and grid contents"])
p("C12", "Concurrent runs with different outputs do not disturb each other",
  "Several marc processes running at the same time in the same directory, over the same sources, input directory and configuration but with different map names, each end as they would alone and write the same maps. A kill of one does not affect the others.",
  ["schedules", "crash_points", "inputs"], "every interleaving of the system calls of two to four processes, with and without one of them being killed",
  "Tests run one marc at a time in one directory.",
  ["src/MapCommand.cpp", "src/FITS_file.cpp"], [("no shared temporary files or locks", "src")], [], ["exit statuses and map files of all processes"])
p("C13", "Reported times are true under clock changes",
  "The mapping times marc reports are never negative and never longer than the run took, even if the system clock is set forwards or backwards while it runs. The creation date recorded in each map is the system clock's UTC time at some moment during the run, whatever the time zone.",
  ["schedules", "configurations", "inputs"], "every moment and size of a clock step, every start time and time zone",
  "Tests cannot set the clock and do not look at times.",
  ["src/MapCommand.cpp", "src/FITS_image.cpp"], [("elapsed time from a monotonic clock", "src/MapCommand.cpp execute, write_grid")], [], ["console output", "DATE keyword"])
p("C14", "Progress reports never lie",
  "While a map plane is plotted, reported progress never decreases, never exceeds the number of map elements, and reaches it exactly when the plane is complete, for every map size, projection and number of planes. This also holds for planes plotted after an earlier one failed.",
  ["inputs", "fault_sequences", "histories"], "every map size, projection, subset of visible points, and every point at which plotting a previous plane failed",
  "No test observes progress.",
  ["lib/marc/Notifier.cpp", "lib/marc/plot_info.h", "lib/marc/MapFactory_t.cpp", "lib/marc/Mercator.cpp", "lib/marc/Orthographic.cpp", "lib/marc/PolarStereographic.cpp", "lib/marc/SimpleCylindrical.cpp", "src/ProgressConsole.cpp"],
  [("one notification per element, plotted or not", "lib/marc/MapFactory_t.cpp")], [("plot count", "elements visited so far", "lib/marc/Notifier.cpp")], ["observer notifications", "console progress line"])
p("C15", "Gaps in some images of a mosaic never spoil the others",
  "At every location of a mosaic, only images with valid data there contribute: without averaging the first of them supplies the value, with unweighted averaging their mean is stored, with weighted averaging a value within their range, and with either kind of averaging the order of the images makes no difference. Images without valid data there (off the image or body, blank, dead) contribute nothing in whatever order images are given, and a location without any valid data stays blank.",
  ["fault_sequences", "inputs"], "every pattern of missing pixels over every number and order of images, every averaging mode",
  "The compositing test uses images that are valid everywhere.",
  ["lib/marc/MosaicImage.cpp", "lib/marc/first_read.cpp", "lib/marc/unweighted_average.cpp", "lib/marc/weighted_average.cpp", "lib/marc/PhotoImage.cpp"],
  [("images that return no data are skipped", "lib/marc/*_average.cpp, first_read.cpp")], [], ["composited values", "map data"])
p("C16", "A finished map holds the requested planes, in order",
  "A successfully created map has one plane per requested plane, in request order, of the requested size and data type, each holding the data of the images given for that plane and blank elsewhere; recorded minimum and maximum are those of the data, author, origin, object and comments are those requested (author and origin by default those of the image), the history names the projection, and a grid is present exactly if requested. Valid requests succeed when no fault occurs, and this holds regardless of transient short transfers.",
  ["inputs", "histories", "fault_sequences"], "every valid request: planes, types, sizes down to a single element, sources of every type, options, comments; short reads and writes",
  "Tests run three fixed requests and only check the exit status.",
  ["src/parse.yy", "src/MapCommand.cpp", "src/MapCommand_t.cpp", "src/FITS_image.cpp", "src/FITS_image_t.cpp", "src/PhotoImageFactory.cpp", "src/map_parameters.cpp", "lib/marc/PhotoImage.cpp", "lib/marc/MapFactory_t.cpp"],
  [("planes appended in factory order", "src/MapCommand_t.cpp"), ("keywords written from map parameters", "src/MapCommand_t.cpp")], [], ["map files"])
p("C17", "Every map element shows what lies there",
  "Each element of a successfully created map holds the value that the images or the quantity requested for its plane (latitude, longitude, cosine of the emission, incidence or phase angle) have at the place on the body that the requested projection puts there, scaled as the header records, and is blank where there is nothing valid to show; where several images of a plane overlap, it holds the first one's value, their mean, or their mean weighted by each pixel's distance from the closest edge of its image or from removed sky, as requested; a grid marks just the requested latitudes and longitudes. This holds for every request however it is worded, however transfers are divided or interrupted, and whatever memory held before.",
  ["inputs", "fault_sequences", "configurations"], "every projection and its options, body, viewing geometry, image option, notation of the input file and source layout; short and interrupted transfers; memory contents",
  "The map tests compare a few points of library objects; no test looks at the elements of a map file.",
  ["lib/marc/Mercator.cpp", "lib/marc/Orthographic.cpp", "lib/marc/PolarStereographic.cpp", "lib/marc/SimpleCylindrical.cpp", "lib/marc/OblateSpheroid.cpp", "lib/marc/PhotoImage.cpp", "lib/marc/ViewingGeometry.cpp", "lib/marc/VirtualImage.cpp", "lib/marc/scale_and_offset.h", "lib/marc/MapFactory_t.cpp", "lib/marc/BilinearInterpolation.cpp", "src/parse.yy", "src/lexer.ll", "src/PhotoImageFactory.cpp", "src/FITS_file.cpp"],
  [("each element plotted from latitude and longitude of its center", "lib/marc/*.cpp plot_map"), ("body to pixel", "lib/marc/ViewingGeometry.cpp latlon2pix"), ("physical to stored value", "lib/marc/VirtualImage.cpp, lib/marc/MapFactory_t.cpp plot")],
  [], ["map files"])
p("C18", "An announced map exists",
  "Once the console shows that a map was created, that map is completely on disk: a kill at any later moment, or a failure of a later map, leaves it complete and correct.",
  ["crash_points", "fault_sequences", "inputs"], "every kill point after an announcement, every fault in later maps",
  "Tests do not kill marc and do not relate console output to files.",
  ["src/MapCommand.cpp", "src/FITS_file.cpp"], [("file closed and verified before the announcement", "src/MapCommand.cpp execute")], [], ["console output", "map files"])
NA = [
    ("P01", "Projections and their inverses agree", "Converting map coordinates to latitude and longitude and back gives the same point for every projection and body.",
     ["lib/marc/Mercator.cpp", "lib/marc/Orthographic.cpp", "lib/marc/PolarStereographic.cpp", "lib/marc/SimpleCylindrical.cpp"], "pure function of its arguments: no schedule, clock, fault or I/O for a simulator to control"),
    ("P02", "Body geometry conversions are inverse to each other", "Planetographic and planetocentric latitudes, radii and angles computed for a body are mutually consistent and within their mathematical ranges for every oblate spheroid.",
     ["lib/marc/OblateSpheroid.cpp", "lib/marc/Geometry.cpp"], "pure functions"),
    ("P03", "Root finding returns a root or says it cannot", "Root finding within a bracket returns a root within that bracket to the stated precision, or throws.",
     ["lib/marc/root_find.cpp"], "pure function of its arguments"),
    ("P04", "Scaled integer data round-trips", "Data scaled for storage in an integer map are recovered from the stored value, scale and offset to within one scale unit for every data type.",
     ["lib/marc/scale_and_offset.h", "lib/marc/VirtualImage.cpp"], "pure function of its arguments"),
    ("P05", "Pixel and body coordinates of a view agree", "The image pixel computed for a visible latitude and longitude maps back to that latitude and longitude for every viewing geometry.",
     ["lib/marc/ViewingGeometry.cpp"], "pure function of the viewing geometry"),
    ("P06", "Every documented keyword is accepted", "Every input file that follows the documented grammar is accepted with the documented meaning.",
     ["src/parse.yy", "src/lexer.ll", "doc"], "a property of the grammar over inputs alone; no fault, time or schedule enters"),
]
for i, t, s, f, _ in NA:
    p(i, t, s, ["inputs"], "every argument", "Tests sample a handful of arguments.", f, [("arithmetic", f[0])])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
TITLES = {x["id"]: x["title"] for x in P}
if __name__ == "__main__":
    import sys
    sys.path.insert(0, here)
    from dst.checks import ALL
    LEVEL = ("Seeded search over workloads and fault/schedule plans against an executable oracle; a clean batch is evidence, not proof. "
             "Trusts: the simulator's system-call seam, Linux tmpfs below it, the Python FITS reader, and the listed fault model.")
    m = {"version": 1, "setup_cmd": "python3 -m dst setup", "checks": [], "not_applicable": [],
         "notes": "One command per property; --replay FILE repeats a reported violation. See DESIGN.md."}
    for x in P:
        i = x["id"]
        if i in ALL:
            c = {"property": i, "quick_cmd": "python3 -m dst %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 -m dst %s" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": "deterministic simulation with fault injection: " + ALL[i].how, "level": "exploration",
                 "level_note": LEVEL}
            m["checks"].append(c)
        else:
            why = {a: e for a, b, c, d, e in NA}.get(i, "planned; check not built yet")
            m["not_applicable"].append({"property": i, "reason": why})
    with open(os.path.join(here, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
