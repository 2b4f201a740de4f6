#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

D8="programs/parallel_d8_accum/main.cpp"; PF="programs/parallel_priority_flood/main.cpp"; COMM="include/richdem/common/communication.hpp"
p("C01","Distributed flow accumulation equals single-process accumulation",
 "For a D8 flow-direction raster whose directions contain no cycle, the tile outputs of the distributed flow-accumulation program, put back together, equal cell by cell the accumulation computed on the undivided raster: every data cell holds the number of cells (itself included) whose flow passes through it, NoData cells hold NoData, flow into NoData cells, missing tiles or off the raster is gone, and each output tile has the place and size of its input. If an output layout file is asked for, it lists exactly the output tiles in their places. This holds for every division of the raster into tiles (including tiles one cell wide or high, ragged last tiles, missing tiles and tiles stored flipped), every number of processes, each of the three tile-retention strategies, both input modes, and every legal order of message delivery and process progress.",
 ["schedules","inputs","configurations"],"all rasters x tilings x process counts x retention strategies x message-delivery orders",
 "test_small.sh runs a handful of fixed rasters with 3-5 real processes and does not compare values; message order, rendezvous sends, ragged and missing tiles and the cache-based retention strategies are never chosen by the tests.",
 [D8,"programs/parallel_d8_accum/perimeters.hpp",COMM,"include/richdem/common/Array2D.hpp"],
 [("per-tile accumulation with links between perimeter cells, global solve over perimeters, per-tile finalisation",D8),("perimeter serialisation order",  "programs/parallel_d8_accum/perimeters.hpp"),("tag-dispatched messages from any source",COMM)],
 observe=["tile GeoTIFFs written by the consumers"])
p("C02","Distributed depression filling equals single-process filling",
 "For an elevation raster, the tile outputs of the distributed depression-filling program, put back together, equal cell by cell the lowest surface at or above the input from which every cell can drain to the raster's edge or to a missing tile (NoData cells count at their numeric value, as they do in the library's single-process filler); an output layout file, if asked for, lists exactly the output tiles in their places. This holds for every division into tiles, number of processes, tile-retention strategy, input mode, tile flip and every legal order of message delivery and process progress.",
 ["schedules","inputs","configurations"],"all rasters x tilings x process counts x retention strategies x message-delivery orders",
 "No test runs parallel_priority_flood at all.",
 [PF,"programs/parallel_priority_flood/Zhou2016pf.hpp",COMM],
 [("per-tile fill with spillover graph, global spillover solve, per-tile raise",PF),("label bookkeeping in the tile fill","programs/parallel_priority_flood/Zhou2016pf.hpp")],
 observe=["tile GeoTIFFs written by the consumers"])
p("C03","Distributed programs always finish cleanly under any legal message progress",
 "When no fault occurs, every process of a distributed flow-accumulation or depression-filling run finishes with success after a bounded number of steps, whatever the message latencies, the arrival order between different senders, the relative speeds of the processes, and whether the transport buffers a send or makes it wait for its receive. No message is left unreceived when a process leaves, no receive takes a message of a different size or kind than the one it announced, and no process ever waits for a message nobody will send. A command line the program refuses (too few processes, wrong or missing arguments) also ends every process cleanly, the first one reporting an error and nothing being written; input it cannot process (absent or unreadable files, a layout of unequal rows, tiles of different sizes, complex numbers) ends the run without hanging and without reporting success.",
 ["schedules","configurations"],"all legal MPI progress behaviours (eager/rendezvous threshold, delivery order, matching choice, stalls) x process counts x tile counts",
 "Real MPI on one host gives one timing and eager sends; deadlocks under rendezvous, probe/receive mismatches and leftovers at finalisation need other legal MPI behaviours.",
 [D8,PF,COMM],
 [("producer/consumer job protocol with kill message",D8+", "+PF),("probe-then-receive of sized messages from any source",COMM)],
 observe=["MPI calls made by each rank","exit of each rank"])
p("C04","A distributed run never reports success with missing or wrong output",
 "When reads, writes, opens, flushes or closes of raster, cache or layout files fail, come up short or run out of space, or a process dies or stops, during a distributed flow-accumulation or depression-filling run, then either the run as a whole reports failure, or all its output tiles are present, readable and right. A run whose faults have stopped and which is started again on the same directories completes with right output.",
 ["fault_sequences","crash_points","schedules"],"all positions and kinds of file-system fault and process death in a run x schedules",
 "No test injects an I/O error or kills a process.",
 [D8,PF,"include/richdem/common/Array2D.hpp",COMM],
 [("exceptions from raster I/O end the rank abnormally, which aborts the job","include/richdem/common/Array2D.hpp"),("tile cache for the evict/cache strategies",D8+", "+PF)],
 observe=["exit status of ranks","output tiles on the simulated disk"])
p("C05","A cached or natively saved raster comes back exactly or its loading fails",
 "A raster saved in the library's native format, or dumped to its cache file and later reloaded on demand, comes back with identical cells, dimensions, NoData value, georeference, projection and view offsets, for every history of edits, dumps, reloads, copies and repeated saves, and for every cell type. If a file operation fails, comes up short, runs out of space, or the stored file has been cut short, the saving or the loading operation reports an error; it never quietly yields a raster with other contents.",
 ["histories","fault_sequences","crash_points","inputs"],"all operation histories x I/O fault positions x truncation points",
 "The test suite saves one raster on a healthy disk; no error return or truncated file is ever produced.",
 ["include/richdem/common/Array2D.hpp"],
 [("saveToCache / loadNative / dumpData / loadData","include/richdem/common/Array2D.hpp"),("the destructor and assignments of a dumped raster","include/richdem/common/Array2D.hpp")],
 observe=["rasters seen through their public accessors","exceptions"])
p("C06","GeoTIFF save and load round-trips cells, georeference and history, or fails",
 "A raster saved as a GeoTIFF and loaded again has the same dimensions, cells, NoData value, geotransform, projection and metadata (as far as the format can hold them), and the processing history carries every earlier entry plus the new one, over any sequence of such saves and loads. Loading a sub-window gives that window's cells and its place in the file as view offsets, together with the whole file's geotransform; saving with offsets moves the geotransform to the cell they name; padding is added when loading and taken off when saving; probing a file's dimensions, type or geotransform agrees with loading it. If a file operation fails, comes up short or the disk fills while saving or loading, the operation reports an error rather than leaving a bad file behind a success or returning wrong cells.",
 ["histories","fault_sequences","inputs"],"all save/load histories x I/O fault positions x cell types x windows",
 "Tests load fixed files from a healthy disk; none saves under faults or follows the processing history across files.",
 ["include/richdem/common/Array2D.hpp","include/richdem/common/gdal.hpp","include/richdem/common/loaders.hpp","src/gdal.cpp"],
 [("saveGDAL / loadGDAL / ProcessMetadata","include/richdem/common/Array2D.hpp"),("dimension and type probes","include/richdem/common/gdal.hpp, src/gdal.cpp")],
 observe=["saved GeoTIFF read back","exceptions"])
p("C07","A tiled, disk-backed raster behaves like one raster held in memory",
 "A tiled raster whose tiles are paged in and out through a bounded cache reads and writes, at every coordinate and through every access method, exactly like a single in-memory raster of the same cells, for every access history, cache capacity of at least one tile, tile size and set of missing tiles. The number of tiles resident never exceeds the capacity, no modification is lost by eviction, and saving writes exactly the current contents. Tiles of a raster opened to be read only are never written. If a tile's file cannot be read, written or made room for, the operation reports it and no cell changes silently.",
 ["histories","configurations","fault_sequences"],"all access histories x cache capacities x tilings x missing tiles",
 "No test touches the tiled raster or its least-recently-used cache.",
 ["include/richdem/tiled/A2Array2D.hpp","include/richdem/tiled/lru.hpp","include/richdem/common/Array2D.hpp"],
 [("LRU of loaded tiles with write-back on eviction","include/richdem/tiled/A2Array2D.hpp, include/richdem/tiled/lru.hpp")],
 observe=["tiled raster accessors","tile files"])
p("C08","Parallel terrain and flow-routing grids do not depend on threads or schedule",
 "Terrain attributes (slopes, aspect, curvatures, wetness and stream-power indices), the deterministic flow metrics, D8 and D-infinity flow directions, flat detection and perimeters give bit-identical results for every number of threads and every interleaving of those threads, equal to the single-threaded result. Surface area gives the same value up to floating-point summation order.",
 ["schedules","inputs","configurations"],"all thread counts x interleavings at memory-access granularity x rasters",
 "The suite is pinned to one OpenMP thread; a data race shows only under particular interleavings.",
 ["include/richdem/methods/terrain_attributes.hpp","include/richdem/flowmet","include/richdem/flats/find_flats.hpp","include/richdem/misc/misc_methods.hpp"],
 [("OpenMP loops over independent cells, reductions for sums","include/richdem/methods/terrain_attributes.hpp, include/richdem/flowmet/*.hpp, include/richdem/misc/misc_methods.hpp")],
 observe=["output rasters and returned totals"])
p("C09","Flow accumulation counts every contributing cell exactly once on any schedule",
 "D8 flow accumulation gives every data cell exactly the number of cells whose flow passes through it, D-infinity and generic (flow-proportion) accumulation give every data cell its own flow plus the share of each upstream cell's, and the flow leaving the raster or ending in sinks sums to the flow generated. This holds for every number of threads and every interleaving of those threads.",
 ["schedules","inputs","configurations"],"all thread counts x interleavings x rasters and flow directions",
 "The suite is pinned to one OpenMP thread, where counting the upstream neighbours cannot lose an update.",
 ["include/richdem/methods/d8_methods.hpp","include/richdem/methods/dinf_methods.hpp","include/richdem/methods/flow_accumulation_generic.hpp","include/richdem/methods/flow_accumulation.hpp"],
 [("parallel count of each cell's upstream neighbours, then a queue of cells whose count reached zero","include/richdem/methods/d8_methods.hpp, include/richdem/methods/dinf_methods.hpp")],
 observe=["accumulation rasters"])
p("C10","Flat resolution drains every drainable flat identically on any schedule",
 "Flat resolution (mask, adjusted elevations or adjusted flow directions) gives the same result for every number of threads and every interleaving, up to the numbering of flats: two cells share a flat label on one schedule exactly when they do on every other. For D8, every cell of a flat that touches lower terrain or an outlet gets a flow direction leading out of the flat without cycles, and cells outside flats are unchanged. The mask is the documented combination of the gradient towards lower terrain and the gradient away from higher terrain, cells outside drainable flats have no increments, and adjusted elevations and directions follow the mask.",
 ["schedules","inputs","configurations"],"all thread counts x interleavings x rasters with flats",
 "The suite is pinned to one OpenMP thread and checks a few fixed rasters.",
 ["include/richdem/flats/flat_resolution.hpp","include/richdem/flats/Barnes2014.hpp","include/richdem/flats/flats.hpp","include/richdem/flats/flat_resolution_dinf.hpp"],
 [("edge cells collected under a critical section, breadth-first gradients","include/richdem/flats/Barnes2014.hpp"),("parallel mask and direction passes","include/richdem/flats/flat_resolution.hpp")],
 observe=["flat mask, labels, elevations, flow directions"])
p("C11","The depression hierarchy is a valid forest, the same on any schedule",
 "Building a depression hierarchy gives, for every number of threads and every interleaving, the same cell labels, flow directions, tree, outlets, cell counts and volumes (up to floating-point summation order). Every depression is a leaf or has exactly two children that name it as parent, drains directly or through its ancestors to the ocean, has an outlet no lower than its pit, and its volume equals the volume below its outlet level of the cells it contains.",
 ["schedules","inputs","configurations"],"all thread counts x interleavings x rasters and ocean masks",
 "Randomised tests run with one thread; merged reductions and per-thread lookup caches depend on how cells are dealt to threads.",
 ["include/richdem/depressions/depression_hierarchy.hpp"],
 [("seed cells sorted after the parallel collection","include/richdem/depressions/depression_hierarchy.hpp"),("per-thread marginal volume tables merged in a critical section","include/richdem/depressions/depression_hierarchy.hpp")],
 observe=["labels, flow directions, hierarchy nodes"])
p("C12","Fill-Spill-Merge conserves water over any history and schedule",
 "Running Fill-Spill-Merge never creates or loses water: the water table summed over all cells plus the water credited to the ocean after the run equals the water put in, for any history of alternating rainfall, abstraction and runs on the same hierarchy, any number of threads and any interleaving. Afterwards standing water is nowhere above its depression's outlet level, connected standing water within a filled depression is level, and no cell has both standing water and room underground next to it that it should first have filled.",
 ["schedules","histories","inputs"],"all rain/abstraction histories x thread counts x interleavings x terrains",
 "Randomised tests run once from a fresh state with one thread.",
 ["include/richdem/depressions/fill_spill_merge.hpp","include/richdem/depressions/depression_hierarchy.hpp"],
 [("move water to pits, overflow through the hierarchy, spread water in depressions","include/richdem/depressions/fill_spill_merge.hpp")],
 observe=["water table raster and ocean volume"])
p("C13","Per-thread random streams are reproducible, independent and restorable",
 "After seeding with a nonzero seed and a fixed number of threads, the sequence of numbers each thread draws depends only on the seed and that thread's number, never on how threads interleave, different seeds and different threads get different streams, and no draw of one thread disturbs another's. Saving the calling thread's state and restoring it later replays exactly the draws that followed the save.",
 ["schedules","histories","configurations"],"all thread counts x interleavings x draw/save/restore histories x seeds",
 "No test draws from more than one thread or restores a state in between.",
 ["src/random.cpp","include/richdem/common/random.hpp"],
 [("one engine per thread number","src/random.cpp"),("text save/restore of an engine","src/random.cpp")],
 observe=["drawn numbers"])
p("C14","Independent analyses running at the same time do not disturb each other",
 "When several caller threads each run library operations on rasters of their own at the same time, every operation gives the result it gives when run alone, under every interleaving of the callers. This covers depression filling and breaching, flow routing and accumulation, flats, terrain attributes, depression hierarchies, Fill-Spill-Merge, and copying, resizing and native or cache file I/O of rasters with distinct file names.",
 ["schedules","histories"],"all interleavings of independent callers",
 "The test suite was pinned to one thread because exactly this mixing crashed it.",
 ["include/richdem/common/ProgressBar.hpp","include/richdem/common/logger.hpp","src/richdem.cpp","src/random.cpp","include/richdem/common/Array2D.hpp","include/richdem/depressions","include/richdem/methods"],
 [("no mutable process-wide state besides the per-thread random engines","include/richdem")],
 observe=["result rasters"])
p("C15","Tile layout files round-trip exactly, or reading or writing them fails",
 "Reading back a layout file gives the same grid the writer was given: the same number of rows and columns, file names in the same cells with missing tiles in the same places, and paths relative to the layout file. If writing fails, comes up short or the disk fills, the writer reports it; if the file cannot be read to its end, the reader reports it; neither ever hands over a partial or shifted grid as if it were complete.",
 ["histories","fault_sequences","inputs"],"all layouts x I/O fault positions",
 "No test reads a layout written by the library or meets an I/O error.",
 ["include/richdem/common/Layoutfile.hpp"],
 [("LayoutfileWriter / LayoutfileReader","include/richdem/common/Layoutfile.hpp")],
 observe=["layout reader accessors","layout file"])
p("C16","Running out of memory leaves rasters consistent and loses nothing silently",
 "When memory runs out while a raster is created, copied, assigned, resized, edited or loaded, the operation reports the failure and every raster involved stays safe to use, reassign and destroy: its reported size never exceeds the cells it really holds (a raster whose data is parked on disk or moved away says so through empty()). Memory a raster was only lent is never freed or resized by it, whatever sequence of copies, moves and assignments follows, and memory it owns is freed exactly once.",
 ["fault_sequences","histories"],"all allocation-failure positions x operation histories",
 "No test makes an allocation fail or mixes lent and owned memory.",
 ["include/richdem/common/ManagedVector.hpp","include/richdem/common/Array2D.hpp"],
 [("owned/lent flag on raster storage","include/richdem/common/ManagedVector.hpp"),("resize and copy of rasters","include/richdem/common/Array2D.hpp")],
 observe=["raster accessors","allocator ledger"])
p("C17","Results depend on inputs alone, not on clocks, entropy or leftover memory",
 "With the same inputs, each deterministic library operation (depression filling, hierarchy and Fill-Spill-Merge, flats, flow metrics, directions and accumulation, terrain attributes, seeded terrain generation) gives bit-identical output whatever the wall clock does (including stepping backwards or jumping ahead in the middle), whatever the system's entropy source returns, and whatever earlier contents newly allocated memory has.",
 ["histories","configurations","fault_sequences"],"all clock behaviours x entropy values x contents of fresh memory",
 "Tests run once with a well-behaved clock and mostly zeroed fresh memory.",
 ["include/richdem/common/timer.hpp","include/richdem/common/ProgressBar.hpp","src/random.cpp","include/richdem/common/ManagedVector.hpp","include/richdem/common/Array2D.hpp"],
 [("clock used for reporting only","include/richdem/common/timer.hpp, include/richdem/common/ProgressBar.hpp"),("entropy used only when no seed is given","src/random.cpp")],
 observe=["result rasters"])
p("C18","Command-line tools report success only with complete, right output",
 "A command-line tool (apps/rd_*) run on valid rasters either ends in failure (a nonzero exit status or an abnormal end) or leaves complete output files holding what the library operation it stands for yields for its input and parameters, with the input's georeference, projection and history, and prints what it has to tell. This holds for every number of threads and interleaving of them, and when reads, writes, opens or closes of its files fail or come up short, the disk fills or memory runs out. Arguments or inputs it cannot work with end in failure. Run again after the faults have stopped, it completes with the right output over whatever the earlier run left.",
 ["fault_sequences","schedules","inputs"],"all tools x parameters x rasters x positions of file and memory faults x interleavings",
 "No test runs any of the tools.",
 ["apps","include/richdem/common/Array2D.hpp","include/richdem/common/gdal.hpp"],
 [("dispatch on the input's cell type","apps/router.hpp"),("read, compute, save","apps/rd_*.cpp")],
 observe=["exit status","output files","standard output"])
# not applicable
p("C30","Depression filling and breaching give the minimal drained surface",
 "Serial depression filling returns the lowest surface at or above the input that drains everywhere, and breaching returns a surface at or below the filled one in which every cell drains.",
 ["inputs"],"all elevation rasters","Fixed rasters only.",["include/richdem/depressions"],[("priority flood","include/richdem/depressions/Barnes2014.hpp")])
p("C31","Flow metrics route to lower neighbours in proportions that sum to one",
 "Each flow metric sends each data cell's flow only to lower neighbours with non-negative proportions that sum to one, or to none.",
 ["inputs"],"all elevation rasters","Fixed rasters only.",["include/richdem/flowmet"],[("per-cell formulas","include/richdem/flowmet")])
p("C32","Terrain attributes follow their published formulas",
 "Slope, aspect and curvature equal the cited formulas evaluated on the cell's 3x3 neighbourhood.",
 ["inputs"],"all elevation rasters","Fixed rasters only.",["include/richdem/methods/terrain_attributes.hpp"],[("per-cell formulas","include/richdem/methods/terrain_attributes.hpp")])
p("C33","Geometric raster edits are exact inverses",
 "Flips, expansions, trims, projections of coordinates and stamp operations move each cell to where the operation says and flipping twice gives the original.",
 ["inputs"],"all rasters","Fixed rasters only.",["include/richdem/common/Array2D.hpp"],[("flipVert, flipHorz, expand","include/richdem/common/Array2D.hpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
import collections
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
print(len(P))
