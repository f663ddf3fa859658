#!/usr/bin/env python3
"""The property list: writes properties.jsonl and MANIFEST.json (run after editing)."""
import re, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def three(s):
    """at most three sentences: the later ones are joined"""
    q = re.split(r"(?<=\.) +(?=[A-Z])", s)
    low = lambda x: x[0].lower() + x[1:] if re.match(r"(The|This|A|An|Every|Missing|Other|More|Inputs|Files|Names|Output|Neither|Fixed|With|Integer)\b", x) else x
    return " ".join(q[:2] + ["; ".join([q[2]] + [low(x) for x in q[3:]]).replace(".; ", "; ")]) if len(q) > 3 else s

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=three(statement), quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                           "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism], "observe_at": list(observe), "hook_needed": None},
                  _t=technique, _n=note, _na=na))

NC = "src/mpp-nccombine/mppnccombine.c"
prop("C01", "mppnccombine reassembles a decomposed file exactly",
     "Given the complete set of pieces of a domain-decomposed netCDF file, mppnccombine exits 0 and writes one file in which every cell of every decomposed variable (any number of records including none, any variable type and rank, any piece layout or order, several decomposed axes) has bit for bit the value of the piece holding that cell, cells no piece holds are 0 (or the variable's missing_value with -m), and every other variable equals that of the first piece. Dimensions (full sizes, same order, same record dimension), variables, types and attributes are those of the first piece, without domain_decomposition and NumFilesInSet and with the filename attribute naming the output.",
     ["inputs", "configurations"], "every layout of pieces, every mix of variables/types/ranks, every number of records, every file order",
     "The tests combine a few fixed model outputs and compare summaries or one reference; they never vary the layout, ranks, types, record counts or piece order.",
     [NC], [("per-piece copy into a full-size buffer and flush per record", NC + ":process_vars/flush_decomp"), ("structure definition from the first piece", NC + ":process_file")],
     state=[("varbuf", "full-size buffers of the current block of records", NC)], observe=["output file", "exit status"],
     technique="TLA+ spec MppCombine: TLC exhaustive on small layouts; TLC-enumerated and random piece sets run through the tool and each run validated against the spec by TLC",
     note="Exhaustive for the model at the stated bounds; the code is judged on every replayed run (output compared cell by cell with the specification's result).")
prop("C02", "Combining does not depend on blocking, naming, listing or format options",
     "For a fixed set of pieces the data, dimensions, variables and attributes mppnccombine writes are the same for every blocking factor (-k, including 0, more than the number of records, and sets with over 100 records), start number (-n), end of range (-e, also when the first numbers of the range have no file), 4- or 6-digit extensions, explicitly listed inputs in any order of decomposed pieces, header padding, verbosity, and output format or compression options. The output format is 64-bit offset for classic inputs, the input's own format for netCDF-4, netCDF-4 classic and CDF-5, unless -64 or -n4 asks for another, and -d sets the deflate level; with -x nothing is created, changed or removed.",
     ["configurations", "inputs"], "every combination of these options over every piece set",
     "Tests use one or two option sets on one data set each.",
     [NC], [("block loop", NC + ":main"), ("blocking factor adjustment", NC + ":process_vars"), ("output format selection", NC + ":process_file")], observe=["output file"],
     technique="TLA+ spec MppCombine with option variants of each piece set; every run validated against the spec by TLC",
     note="Independence follows because each variant must equal the specification's single result.")
prop("C03", "mppnccombine never destroys data and reports every failure",
     "mppnccombine never modifies an output file that exists already; with -r an input file is removed only after the complete, correct output was written and closed without error, only files that were combined are removed, and no other file is ever removed or changed. If an input is missing (without -f: no output is left), unreadable, or has another number of records, or a write of the output fails, or the process is killed at any point, the exit status is non-zero and all inputs are still there unless the complete output is on disk; with -f the readable pieces are still combined.",
     ["crash_points", "fault_sequences", "inputs"], "every point at which a write can fail or the process can die, every kind and position of a bad input",
     "No test injects a failure or checks which files are left behind.",
     [NC], [("error accumulation and removal loop", NC + ":main"), ("existing-output test and no-clobber creation", NC + ":main")], observe=["files left in the directory", "system calls on output and inputs", "exit status"],
     technique="TLA+ spec MppCombine with write failures and kills (TLC exhaustive); system-call traces of real runs with injected faults validated against the spec",
     note="Fault points of the replayed runs are enumerated (classic formats completely, netCDF-4 sampled in quick); assumes failures are reported by the system call.")

SC = "src/mpp-ncscatter/mppncscatter.c"
prop("C04", "mppncscatter cuts a file into exactly the pieces of the decomposition",
     "mppncscatter -x NX -y NY (optionally merged by an io layout -i/-j that divides it) writes NX*NY pieces (or as many as the io layout has), numbered with x fastest from the start number, with the chosen width and directory. The axes cut are those named by -X/-Y, or whose coordinate variable has east/north degree units, or else cartesian_axis X/Y; never the record axis. The intervals of each axis are FMS's symmetric decomposition: contiguous, non-empty, covering every point once. Every piece has the input's format, dimensions in order (cut ones with the interval's length), record count, variables, types, attributes and global attributes plus NumFilesInSet and, on the coordinate variables of cut axes, domain_decomposition = 1, full length, first, last; every value equals the input's at that place bit for bit. More divisions than points, or an io layout that does not divide, is refused with a non-zero status; -n writes nothing; the input and all other files are never changed.",
     ["inputs", "configurations"], "every axis length and number of divisions, every option combination, every mix of variable ranks and types",
     "The tests scatter a few fixed files and check only that a round trip reproduces them.",
     [SC, "src/mpp-ncscatter/opt.c", "src/mpp-ncscatter/scatterdim.c"], [("symmetric extents", SC + ":mpp_compute_extent"), ("io layout", SC + ":get_scatter_extents_iolayout"), ("axis detection", SC + ":get_scatter_dims"), ("copying", SC + ":hyperslabcopy/put_var")], observe=["piece files", "exit status"],
     technique="TLA+ spec Scatter (extents proved a partition for all sizes to 36/64 by TLC); TLC-enumerated and random files cut by the tool, every piece validated against the spec by TLC",
     note="Exhaustive for the model at the stated bounds; the code is judged on every replayed run.")
prop("C05", "Scattering and combining are inverse",
     "For every file whose cut axes have coordinate variables, mppnccombine applied to the pieces mppncscatter wrote gives back the original file: same dimensions, variables, types, attributes, global attributes (but NumFilesInSet) and every value bit for bit, for every decomposition, io layout, piece numbering and blocking factor.",
     ["inputs", "configurations"], "every file and every decomposition",
     "Tests do one or two round trips on fixed files.",
     [SC, NC], [("domain_decomposition written by the one and read by the other", SC + ":def_var, " + NC + ":process_file")], observe=["combined file"],
     technique="TLA+ spec Scatter with the RoundTrip invariant (TLC); real scatter-then-combine runs validated against the spec by TLC",
     note="Exhaustive for the model at the stated bounds; the code is judged on every replayed round trip.")


LU = "src/land_utils/"
prop("C06", "combine-ncc gathers compressed files without loss",
     "combine-ncc IN... OUT exits 0 and writes one file, in the inputs' format, with the last input's dimensions, variables, types, attributes and global attributes, where each dimension compressed by gathering (its coordinate variable has a compress attribute) holds every entry of all inputs whose index is not negative, exactly once and in ascending order of index (length at least 1), every variable on that dimension (at any position, any rank, with or without records, of any numeric type) carries for each entry the value of the input it came from, a compressed dimension without any entry leaves its variables at their fill value, and every other variable equals that of the last input. A variable on two compressed dimensions, or an input that is missing or not netCDF, is refused with a non-zero status. Inputs and all other files are never changed. is-compressed exits 0 exactly for readable files that have such a dimension.",
     ["inputs", "configurations"], "every distribution and order of entries over files, every mix of variables, ranks and types",
     "Tests combine one prepared set of restart files and compare with one reference.",
     [LU + "combine-ncc.F90", LU + "is-compressed.c", "lib/libnfu/nfu.F90"], [("ranking of all indices", LU + "combine-ncc.F90:reorder_compressed_index"), ("slice by slice reordering", LU + "combine-ncc.F90:combine_res")], observe=["output file", "exit status"],
     technique="TLA+ spec Land (gather): TLC exhaustive on every distribution of a small grid's entries over files; TLC-enumerated and random file sets run through the tool, each run validated against the spec by TLC",
     note="Values pass through double: infinities and signalling NaNs are outside the claim. Assumes no index occurs twice.")
prop("C07", "scatter-ncc sends every entry to the piece of its grid cell",
     "scatter-ncc -i NX -j NY FILE exits 0 and writes NX*NY files FILE.0000... (x fastest), in the input's format and with its dimensions, variables, types and attributes, where each compressed dimension of piece (i,j) holds exactly the non-negative entries whose lon/lat cell lies in box (i,j) of the evenly divided grid, ascending, with unchanged index values and, for every variable on it (with zfull levels and records), the input's values; a piece without entries has length 1 and fill values; other variables are copied to every piece. Combining the pieces with combine-ncc gives the same file as combining the input alone. Missing lon/lat, a division that does not divide the grid, or a variable shape it does not support is refused with a non-zero status; the input and other files are never changed.",
     ["inputs", "configurations"], "every grid, division, set of entries and mix of variables",
     "Tests scatter one prepared file and check the exit status.",
     [LU + "scatter-ncc.F90", "lib/libnfu/nfu_compress.F90"], [("piece lengths", LU + "scatter-ncc.F90:combine_res"), ("masked unpack and pack per record and level", LU + "scatter-ncc.F90:combine_res")], observe=["output files", "exit status"],
     technique="TLA+ spec Land (scatter): TLC exhaustive on small grids; TLC-enumerated and random files run through the tool, each run validated against the spec by TLC",
     note="Same value assumptions as C06; round trip with combine-ncc included.")
prop("C08", "decompress-ncc puts every value on its grid cell and nothing elsewhere",
     "decompress-ncc [-m] IN... OUT exits 0 and writes, in the inputs' format, the last input's dimensions without the compressed ones and its variables (without the index variables) on the full grid: every element of a compressed variable of any input stands in the cell its index names, for every record and level, every cell no input gives holds ocean_fillvalue if the variable has it, else missing_value, else _FillValue, else the type's fill value, uncompressed variables equal the last input's, attributes are kept and with -m missing_value is added exactly to compressed variables having neither missing_value nor _FillValue. The result is the same when the inputs are first combined with combine-ncc. A missing or unreadable input gives a non-zero status; inputs and other files are never changed.",
     ["inputs", "configurations"], "every distribution of entries over files, every mix of variables, ranks, types and attributes",
     "Tests decompress one prepared set and check the exit status or one reference.",
     [LU + "decompress-ncc.F90", "lib/libnfu/nfu_compress.F90"], [("expansion", "lib/libnfu/nfu_compress.F90:nfu_get_compressed_var_r8"), ("value of empty cells", LU + "decompress-ncc.F90:decompress")], observe=["output file", "exit status"],
     technique="TLA+ spec Land (decompress): TLC exhaustive on small grids; TLC-enumerated and random files run through the tool, each run validated against the spec by TLC",
     note="Same value assumptions as C06.")
prop("C09", "combine_restarts and iceberg_comb.sh combine and remove exactly whole sets",
     "In the current directory combine_restarts takes every set of files <stem>.NNNN (four digits) whose stem holds the word res or nc and writes the combination of exactly these files to <stem>, with the tool for its kind (iceberg restarts: iceberg_comb.sh, compressed land files: combine-ncc, others: mppnccombine); it exits 0 only if every set was combined and stops with a non-zero status at the first that cannot be. The input files are removed only with -r and only those of sets whose combination succeeded; with -n nothing changes at all. Names with characters special to regular expressions or stems that are parts of others never mix sets; other files never change. iceberg_comb.sh writes the records of the inputs, in the order given, with NumFilesInSet removed, refuses (non-zero, nothing written or changed) missing, non-iceberg or wrongly counted inputs and an existing output, and iceberg_comb.sh -c FILE exits 0 exactly for iceberg restart files.",
     ["inputs", "configurations", "fault_sequences"], "every set of file names and kinds in a directory, every option, every position of a broken set",
     "Tests combine one or two prepared sets; none looks at the remaining files after a failure.",
     ["src/combine-restarts/combine_restarts.in", "src/iceberg-comb/iceberg_comb.sh.in"], [("set selection and removal", "src/combine-restarts/combine_restarts.in"), ("checks and concatenation", "src/iceberg-comb/iceberg_comb.sh.in")], observe=["directory contents", "combined files", "exit status"],
     technique="TLA+ spec Restarts (set after set, failures, removal): TLC exhaustive on small directories; TLC-enumerated and random directories run through the scripts, the resulting directory validated against the spec by TLC",
     note="What a combination contains is decided by C01 and C06; here it is compared with the tool's own output for that set alone.")
prop("C10", "list_ncvars.sh and ncexists report file contents exactly",
     "list_ncvars.sh [-s] [-t] -0..-4 FILE... prints, file after file in the order of definition, exactly the non-character variables whose number of dimensions besides the record dimension was asked for, -s: those without, -t: those with the record dimension, leaving out names ending in _T1, _T2, _DT, _NITEMS; a request without -s/-t or without a rank, and missing or unreadable files, give a non-zero status. ncexists prints 1 or 0 according to whether the global attribute, the variable, or the attribute of the variable exists, non-zero status for unreadable files or no question. Neither changes any file.",
     ["inputs", "configurations"], "every set of variables, names, types and ranks, every option combination",
     "Tests ask a handful of questions about one file.",
     ["src/list-ncvars/list_ncvars.f90", "src/list-ncvars/list_ncvars.sh.in", "src/nc-exists/ncexists.c"], [("selection of variables", "src/list-ncvars/list_ncvars.f90"), ("query", "src/nc-exists/ncexists.c:main")], observe=["standard output", "exit status"],
     technique="TLA+ spec Inspect: TLC exhaustive on small files; TLC-enumerated option sets over generated files and random questions run through the tools, answers validated against the spec by TLC",
     note="Judged at the command line.")
prop("C11", "split_ncvars.pl loses nothing when it splits files into variables",
     "split_ncvars.pl takes the files in the order given and, for every listed variable (-v, or by default every time-varying variable of the first file; with -s the fixed ones of up to three dimensions), writes ODIR/<var>[.tileN].nc[ext] holding that variable with its type, attributes and the records of all the files in order, together with the variables it needs: coordinate variables and bounds/edges of its dimensions, those named by its coordinates attribute and their bounds, the static terms of the axes' formula_terms, geolat/geolon, the time bounds or climatology and (unless CMIP) the time_avg_info variables, each with the input's values. Time-varying formula terms and cell measures are listed in external_variables, the filename attribute names the new file, a scalar_axis dimension of length one is dropped, a height# coordinate becomes height; with --cmip (or -a for variables with a standard_name) axis, calendar, units and standard_name attributes are normalised and p###, plev##, levhalf renamed. Listed variables that do not exist and time bounds are skipped; inputs are not changed and no temporary files stay behind; exit status 0.",
     ["inputs", "configurations", "histories"], "every structure of files, every sequence of files, every option combination",
     "The tests split three prepared files and compare a few outputs.",
     ["src/split_ncvars/split_ncvars.pl.in"], [("selection of companions", "src/split_ncvars/split_ncvars.pl.in:get_variable_bounds/get_formula_terms"), ("append", "src/split_ncvars/split_ncvars.pl.in"), ("attribute clean-up", "src/split_ncvars/split_ncvars.pl.in:cleanup_dim_atts")], observe=["output files", "directory", "exit status"],
     technique="TLA+ spec Split (file after file, variable after variable): TLC exhaustive on small structures; TLC-enumerated option combinations over generated files run through the script, all outputs validated against the spec by TLC",
     note="NCO is trusted. -f (one file) is judged for single input files and without global attributes.")
prop("C12", "timavg writes the weighted average of each file",
     "timavg -o OUT FILE... writes one record per input file, in order and in the format of the inputs: every time-varying variable (up to four further dimensions; character, byte and the one-dimensional *_T1, *_T2, *_DT, *_NITEMS variables excepted, which are dropped) holds in every cell the mean of the file's records weighted with the lengths of their time bounds (equal weights without bounds), taken over the values that are not missing (missing_value, else _FillValue), and the missing value where no more than the fraction given by -w of the weight is valid (in files of one record the record itself); integer variables are rounded to the nearest integer. Fixed variables equal those of the first file. The time coordinate is the last time of the file, with -m the middle of the period; the time bounds (existing ones, renamed climatology_bounds when the intervals do not join, or added with -b) span from the start of the first to the end of the last interval; cell_methods gains time: mean when there are bounds; other attributes are kept, filename updated, -z gives the deflation level of netCDF-4 output (default that of the same variable in the input). This holds whatever the order of variables and the number of records per file. Missing files, or more files than it can take, give a non-zero status.",
     ["inputs", "configurations"], "every number of files and records, mix of missing values, types, ranks, variable order, bounds and options",
     "Two tests average one prepared set without missing values or mixed record counts.",
     ["src/timeavg/time_average.f90", "src/timeavg/timavg.sh.in"], [("accumulation and weights", "src/timeavg/time_average.f90"), ("time and bounds", "src/timeavg/time_average.f90")], state=[("data_sum, data_wt", "running weighted sum and weight of valid values", "src/timeavg/time_average.f90:variable_type")], observe=["output file", "exit status"],
     technique="TLA+ spec TimeAvg (record after record, file after file): TLC exhaustive on short series; TLC-enumerated and random file sets run through timavg, every output value validated against the spec by TLC",
     note="Integer-valued data, so that the specification's rational arithmetic decides; averages compared to 0.002.")
FG = "src/fre-grid/"
prop("C13", "fregrid remaps conservatively, onto any tiles, in parallel or from saved weights",
     "fregrid --interp_method conserve_order1 between mosaics (one or several tiles in and out, or --nlon/--nlat with a lon/lat range) of longitude-latitude cells (none wider than 90 degrees), anywhere on the sphere and with any longitude origin: the exchange grid saved by --remap_file is exactly the set of intersections of input and output cells with their areas; every output cell of every requested field, time step and level holds the mean of the valid (not missing_value, else not _FillValue) input cells weighted with the intersection areas (times --weight_field when no requested field has cell_measures; times the fraction of the cell given by the area or volume named in cell_measures, also when time dependent or in an associated file), the total weight being zero gives 0, and the missing value (-1e20 without one) where no valid cell reaches; fields with cell_methods 'area: sum' are distributed in proportion to area, so totals are kept; --target_grid scales by the covered part of the cell. Integer fields stay within a unit of it and within the range of their sources, packed fields are unpacked and packed again. --KlevelBegin/End and --LstepBegin/End select exactly these levels and steps. The result is the same when the weights are read from remap files of an earlier run, and from fregrid_parallel with any number of processes. Output axes and bounds are those of the output grid and of the selection; types, dimensions, attributes (time_avg_info excepted, interp_method set), compression and format follow the input or --format/--standard_dimension; no other file is touched.",
     ["inputs", "configurations", "schedules", "histories"], "every pair of tile sets, every field (rank, type, missing mask, weights, measures), every selection, every number of processes, with and without saved weights",
     "The tests compare checksums or summaries of a few fixed grids; none computes what the regridded values should be.",
     [FG + "fregrid.c", FG + "fregrid_util.c", FG + "conserve_interp.c", "lib/libfrencutils/create_xgrid.c", "lib/libfrencutils/mpp_domain.c", "lib/libfrencutils/mpp_io.c"],
     [("exchange grid", FG + "conserve_interp.c:setup_conserve_interp"), ("clipping", "lib/libfrencutils/create_xgrid.c:create_xgrid_2dx2d_order1"), ("weighted mean", FG + "conserve_interp.c:do_scalar_conserve_interp"), ("gather", "lib/libfrencutils/mpp_domain.c:mpp_global_field_double_3D")],
     state=[("interp", "exchange cells of an output tile on this process", FG + "fregrid.c")], observe=["output files", "remap files", "exit status"],
     technique="TLA+ spec Regrid (exchange grid, then slice after slice; weights computed or read): TLC exhaustive on small tile sets; TLC-enumerated and random mosaics run through fregrid and fregrid_parallel, every value, weight and axis validated against the spec by TLC",
     note="Grids with rational areas (lat edges at asin(k/S)) and integer data, so that the specification's arithmetic is exact; compared to 1/1000 (1/100 with --target_grid).")
MS = "src/make-solo-mosaic/"
prop("C14", "make_solo_mosaic finds exactly the contacts between the tiles of a mosaic",
     "make_solo_mosaic writes NAME.nc listing the tile names (as stored in the tile files), tile files and directory given, and one contact for each pair of facing sides (east-west, north-south, and east-south, north-west of rotated neighbours, each way round) of two tiles - or of one tile with itself under --periodx/--periody - that share at least two grid points: the index ranges are the cells of either side between the first and the last common point, listed in the order in which the places coincide (descending when they run in opposite directions), also when the resolutions differ; a north side folded onto itself (tripolar) is a contact of its two halves; a tile whose corners are grid points of another one is a nested contact with the cells it covers. The period counts only for east-west (x) and north-south (y) contacts; no other contact is listed and none twice. A missing tile file, a wrong number of files or a missing --dir gives a non-zero status; the inputs are never changed; command lines may be of any length.",
     ["inputs", "configurations"], "every arrangement, rotation, refinement, order and naming of tiles, every period",
     "Tests run one regular and one cubed-sphere mosaic and look at the exit status or a reference file.",
     [MS + "make_solo_mosaic.c", MS + "get_contact.c"], [("side contacts and fold", MS + "get_contact.c:get_align_contact"), ("nested tiles", MS + "get_contact.c:get_overlap_contact"), ("output", MS + "make_solo_mosaic.c:main")], observe=["mosaic file", "directory", "exit status"],
     technique="TLA+ spec Mosaic (pairs of tiles, sides, fold, nests): TLC exhaustive on small arrangements; TLC-enumerated and random tile sets, and cubed spheres from make_hgrid, run through the tool, contacts validated against the spec by TLC",
     note="Sides touching along one stretch; tiles of at least two supergrid cells.")
CM = "src/make-coupler-mosaic/"
prop("C15", "make_coupler_mosaic's exchange grids tile every cell of every component",
     "make_coupler_mosaic between atmosphere, land (the same mosaic or another), ocean and optional wave mosaics of longitude-latitude cells (one or several tiles, none wider than 90 degrees, global or not, any longitude origin, an optional nested atmosphere tile): one file per pair of tiles that overlap lists exactly the overlapping pairs of cells, each once, with the area of the overlap - atmosphere, land and wave cells with the wet part of the ocean cells (depth greater than --sea_level, or area_frac), atmosphere with land cells over the dry part, the latter continued to the south pole below a one-tile ocean grid - so that the areas of all exchange cells of an atmosphere cell add up to its area wherever ocean and land grids cover it, those of an ocean cell to its wet area, those of a land cell to its area, with nothing counted twice; overlaps below --area_ratio_thresh of the smaller cell are left out. With --interp_order 2 tile1_distance is the eastward and northward distance of the exchange cell's centroid from the centroid of what its first parent exchanges, and the northward part of tile2_distance likewise for the second parent. ocean_mask, land_mask and wave_mask hold the exchanged fraction (and area) of every cell, the nest not counted. The coupler mosaic file lists exactly the exchange files, and the name, directory and file of every input mosaic and the topography. Files are named after mosaics and tiles, with atm_/lnd_/ocn_/wav_ in front when the mosaics have the same name. The result does not depend on the number of processes; inputs are untouched; a missing mosaic, an invalid order, or an output name equal to an input is refused.",
     ["inputs", "configurations", "schedules"], "every combination of grids, tiles, wet fractions, nests, thresholds and number of processes",
     "Tests run one atmosphere/ocean pair and look at the exit status or compare serial with parallel output.",
     [CM + "make_coupler_mosaic.c", "lib/libfrencutils/create_xgrid.c", "lib/libfrencutils/mosaic_util.c", "lib/libfrencutils/mpp_domain.c", "lib/libfrencutils/mpp_io.c"],
     [("exchange grids", CM + "make_coupler_mosaic.c:main"), ("clipping", "lib/libfrencutils/create_xgrid.c:clip_2dx2d"), ("gather", "lib/libfrencutils/mpp_domain.c:mpp_gather_field_double")], state=[("naxo, naxl, nlxo, nwxo", "exchange cells found so far by a process for a pair of tiles", CM + "make_coupler_mosaic.c")],
     observe=["exchange grid files", "mask files", "coupler mosaic file", "exit status"],
     technique="TLA+ spec Coupler (processes taking cells, gathered per phase): TLC exhaustive on small grids, with every schedule on tiny ones; TLC-enumerated and random component grids run through make_coupler_mosaic and its parallel build, every exchange cell, mask and list validated against the spec by TLC",
     note="Grids with rational areas; great-circle clipping not covered. Known finding: eastward part of tile2_distance when a cell of the second grid spans several cells of the first.")
prop("C16", "check_mask leaves out no domain that sees a wet (or land) point",
     "check_mask on an ocean grid (mosaic with topography, or old-style grid file with wet) that is closed, cyclic in x, in y, in both, or folded at the north edge, with any halo up to the grid size: for the given layout, or for every number of processes from --min_pe to --max_pe with the layout FMS chooses for it, the domains are the FMS domains, and a domain is listed in the mask table exactly when no point in it or within the halo of it - across cyclic edges, their corners and the fold - is deeper than --sea_level. For --model land on a cubed sphere a domain of a tile is listed exactly when neither its cells nor the cells one step beyond it, across the edges of the cube where they are, have land area in any exchange file. There is one table per layout with something to leave out, named mask_table.<number>.<layout>, holding the number, the layout (and six tiles) and each domain once; layouts that do not fit the grid give none, inputs are untouched, and missing topography, an unknown model or a model that does not fit the grid file is refused.",
     ["inputs", "configurations"], "every mask, boundary condition, halo, layout and range of process counts",
     "Tests run one ocean grid without looking at the table.",
     ["src/check-mask/check_mask.c", "lib/libfrencutils/mpp_domain.c", "lib/libfrencutils/read_mosaic.c"],
     [("ocean masks", "src/check-mask/check_mask.c:check_ocean_mask"), ("land masks", "src/check-mask/check_mask.c:check_land_mask"), ("cube edges", "src/check-mask/check_mask.c:update_cubic_halo"), ("layout", "lib/libfrencutils/mpp_domain.c:mpp_define_layout")], state=[("wet", "mask with its halo filled", "src/check-mask/check_mask.c")],
     observe=["mask tables", "exit status"],
     technique="TLA+ spec Masks (with Fms: layouts and extents): TLC exhaustive over small grids, boundaries, halos and layouts (no kept domain without and no dropped domain with a point in reach); TLC-enumerated and random masks run through check_mask, every table validated against the spec by TLC",
     note="One ocean tile up to 16 x 10, six land tiles up to 6 x 6. Open boundaries (--nobc) not covered.")
prop("C17", "make_hgrid's cubed-sphere tiles close to a sphere and nests fit their parents",
     "make_hgrid --grid_type gnomonic_ed with any even --nlon n: the six tiles are the faces of a cube in the FMS arrangement - points on a common edge or corner of two or three tiles are the same point on the sphere and all others differ - at the equal-distance gnomonic positions, turned west by 180/--shift_fac degrees, or Schmidt-transformed or cube-transformed with the given stretch factor and target; supergrid midpoints lie halfway between model points. area is the area of each cell, adding up to the sphere; dx and dy are the distances between neighbouring points, the same from both tiles along a common edge; angle_dx and angle_dy are the direction of the grid line through the neighbouring points of the tile against east (0 in nests). A nest (or several, also inside each other) has refine_ratio supergrid cells per parent supergrid cell over istart..iend, jstart..jend, its points meet the parent's model points there, lie equally spaced on the parent's grid lines, and its cells have together exactly the area of the parent cells they refine. With --out_halo 1 each field has a ring of the values the neighbouring tiles hold there, missing at the corners. Odd sizes, nests that do not start and end at model cells or come closer than --halo to the edge of their parent, and missing or unknown options are refused.",
     ["inputs", "configurations"], "every size, transformation, set of nests and halo",
     "Tests check that make_hgrid runs and compare two or three grids with stored copies.",
     ["src/make-hgrid/make_hgrid.c", "src/make-hgrid/create_gnomonic_cubic_grid.c", "lib/libfrencutils/mosaic_util.c"],
     [("tiles", "src/make-hgrid/create_gnomonic_cubic_grid.c:create_gnomonic_cubic_grid"), ("nests", "src/make-hgrid/create_gnomonic_cubic_grid.c:setup_aligned_nest"), ("halo ring", "src/make-hgrid/make_hgrid.c:fill_cubic_grid_halo"), ("angles", "src/make-hgrid/create_gnomonic_cubic_grid.c:calc_rotation_angle2")], state=[("x, y, dx, dy, area", "all tiles and nests one after another, with an offset per tile and kind of point", "src/make-hgrid/create_gnomonic_cubic_grid.c")],
     observe=["tile files", "exit status"],
     technique="TLA+ spec Hgrid (with Cube: faces of a cube and what lies beyond their edges; nests): TLC exhaustive over sizes and nests (closed surface, symmetric neighbours, nests cover their parent cells); TLC-enumerated and random grids made with make_hgrid, every point identified with its place on the cube and every field validated against the spec by TLC",
     note="Supergrids of 2 to 10 cells per edge (stretched ones with convex cells), nests up to 24 cells; conformal cubic grids and global refinement (parent_tile 0) not covered.")
HL = "src/make-hgrid/create_lonlat_grid.c"
TU = "lib/libfrencutils/tool_util.c"
prop("C18", "make_hgrid's one-tile grids follow the axes asked for",
     "make_hgrid for regular_lonlat, tripolar, f_plane, beta_plane, simple_cartesian, spectral and (text) from_file grids: x and y have the sizes asked for, begin and end at the first and last bound, increase, and reach every inner bound after exactly its number of supergrid cells (--nlon/--nlat, monotone cubic interpolation; for --center c_cell cell corners halfway between centers, for t_cell centers halfway between corners; --dlon/--dlat: cosine change of resolution between the bounds), evenly spaced for one region, at the Gaussian latitudes for spectral grids. A tripolar grid is regular up to the supergrid row nearest to --lat_join, beyond it the bipolar cap whose poles lie at the first longitude and 180 degrees from it and whose top row folds onto itself. dx, dy, area and angle_dx are those of these points (with the cosine of --f_plane_latitude on planes, --simple_dx and --simple_dy on simple_cartesian grids, great-circle areas with --great_circle_algorithm), cap areas adding up to the cap; numbers of bounds, cells or resolutions that do not match, odd cell counts with a center, fractional cells and both kinds of axes at once are refused without writing a file.",
     ["inputs", "configurations"], "every list of bounds, cell counts or resolutions, center, join latitude and grid type",
     "The tests make a few fixed grids and check the exit status or one reference file.",
     [HL, TU, "lib/libfrencutils/interp.c", "src/make-hgrid/make_hgrid.c", "src/make-hgrid/create_grid_from_file.c"], [("axis", TU + ":compute_grid_bound, compute_grid_bound_legacy"), ("monotone cubic", "lib/libfrencutils/interp.c:cubic_spline_sp"), ("cap", HL + ":create_tripolar_grid, " + TU + ":tp_trans, bipolar_dist")],
     observe=["grid file", "exit status"],
     technique="TLA+ spec Lonlat (with Axis: both axis algorithms in exact fixed point): TLC exhaustive over bounds, counts and centers; TLC-enumerated and random grids made with make_hgrid, axes validated against the spec by TLC and everything else by its residuals",
     note="Axes are computed by the specification; what is transcendental (cap, lengths, areas, Gaussian latitudes) is measured as residual against independent formulas.")
prop("C19", "make_vgrid's levels follow the regions asked for",
     "make_vgrid writes GRIDNAME.nc with zeta of exactly the number of supergrid points asked for: with --nz the levels begin and end at the first and last of --bnds, increase, and reach every inner bound after its number of cells along the monotone cubic through the bounds (--center t_cell: middles halfway between interfaces, c_cell: interfaces halfway between middles); with --dbnds the cell thickness changes from bound to bound along a cosine in a whole number of cells per region, and with --stretch the last region holds as many of the stretched cells as fit. Counts that do not match --nbnds, odd numbers with a center, fractional cells, unknown centers and --stretch with t_cell are refused without writing a file.",
     ["inputs", "configurations"], "every list of bounds and cell numbers or thicknesses, center and stretching",
     "The tests make one fixed vertical grid.",
     ["src/make-vgrid/make_vgrid.c", "src/make-vgrid/create_vgrid.c", TU, "lib/libfrencutils/interp.c"], [("axis", TU + ":compute_grid_bound, compute_grid_bound_legacy"), ("monotone cubic", "lib/libfrencutils/interp.c:cubic_spline_sp")],
     observe=["grid file", "exit status"],
     technique="TLA+ spec Lonlat/Axis (both axis algorithms in exact fixed point): TLC exhaustive over regions, counts, centers and stretching; TLC-enumerated and random axes made with make_vgrid and validated against the spec by TLC",
     note="Every level is compared with the one the specification computes.")
prop("C20", "runoff_regrid delivers all runoff to the nearest ocean cells",
     "runoff_regrid (and runoff_regrid_parallel on any number of processes its layout fits) writes, for every record, on every ocean cell (depth above --sea_level) the runoff that falls on it plus that of the land cells nearest to it, divided by its area, and zero on land: the ocean receives exactly what the non-missing input cells give over the area of the ocean grid, continued to the south pole, with nothing lost, doubled or carried from record to record. grid_x_T and grid_y_T are the cell middles, Time with its attributes and the field's attributes are those of the input, --output_file and --output_fld_name name the results and no input file changes. Grids of several tiles or odd supergrid size, a topography of another size, a missing field or option, and runoff with no ocean cell to go to are refused.",
     ["inputs", "configurations", "schedules"], "every runoff field, input grid, ocean grid, land mask, number of records and processes",
     "The test regrids one file and checks only the exit status.",
     ["src/runoff-regrid/runoff_regrid.c", "lib/libfrencutils/create_xgrid.c"], [("collect", "src/runoff-regrid/runoff_regrid.c:setup_remap, create_xgrid_1dx2d_order1"), ("move", "src/runoff-regrid/runoff_regrid.c:nearest, process_data")],
     observe=["output file", "exit status"],
     technique="TLA+ spec Runoff (collect, move dry cells to a nearest wet cell, write, per record): TLC exhaustive over masks, grids and ties for conservation and dry land; TLC-enumerated and random fields run through runoff_regrid with 1 to 4 processes, every cell bounded by the spec with TLC",
     note="Equal distances may be decided either way, so a wet cell is bounded by what it surely and what it possibly receives.")
prop("C21", "fregrid from cubed spheres conserves, stays in range and is second order",
     "fregrid (and fregrid_parallel on any number of processes up to the rows of an output tile) from a six-tile cubed sphere to a region, a longitude-latitude grid or another cubed sphere: the overlaps fill every output cell and, for global outputs, every input cell; conserve_order1 gives the area mean of the non-missing sources; conserve_order2 and conserve_order2_monotonic conserve the global total on one or several output tiles, reduce to that mean where every source has a missing neighbour, reproduce smooth fields with an error that shrinks with the square of the cell width, and reproduce a field on its own grid; conserve_order2_monotonic never leaves the range of the sources and their neighbours across tile edges; bilinear stays in the range of the data. A cell is missing exactly when it has no source. Saved weights and any number of processes give the same result; no input file changes.",
     ["inputs", "configurations", "schedules"], "every cubed sphere, output grid, field with missing cells, number of records and processes",
     "The tests compare file names and a few sums for one grid; values next to holes, at the corners of the cube or on several output tiles are never looked at.",
     ["src/fre-grid/conserve_interp.c", "src/fre-grid/bilinear_interp.c", "src/fre-grid/fregrid_util.c", "lib/libfrencutils/gradient_c2l.c", "lib/libfrencutils/create_xgrid.c"],
     [("slopes across tiles", "src/fre-grid/fregrid_util.c:update_halo, init_halo; lib/libfrencutils/gradient_c2l.c:grad_c2l"), ("remapping", "src/fre-grid/conserve_interp.c:do_scalar_conserve_interp, setup_conserve_interp"), ("bilinear", "src/fre-grid/bilinear_interp.c:setup_bilinear_interp, do_scalar_bilinear_interp")],
     observe=["output files", "remap files", "exit status"],
     technique="TLA+ spec Cubic over Cube (pieces added in any order; neighbourhoods folded across the edges of the cube): TLC exhaustive for conservation, range and mutual neighbourhoods; TLC-enumerated and random runs of fregrid with 1 to 4 processes, saved weights and outputs validated cell by cell against the spec with TLC",
     note="Second order values are bounded by the specification (total, moments, range, smooth fields), not recomputed.")
prop("C22", "make_quick_mosaic divides every cell into land and ocean and lists both",
     "make_quick_mosaic puts atmosphere, land and ocean on the tiles of one mosaic. A cell's land share is all or nothing by depth and --sea_level (ocean when deeper), by area_frac of the topography (ocean only when 1), the given share with --land_frac_file/--land_frac_field, or the sum of the land pieces of a coupled input mosaic (more than the cell is refused). Every tile's aXl lists exactly the cells with land, aXo and lXo exactly those with ocean, each once, with its own area, both together the whole cell; land_mask and ocean_mask hold the shares. The mosaic file (--mosaic_name) names the copied solo mosaic, the exchange files and the topography, all present in the working directory; grid files are copied unchanged and no input changes. Run on its own result the tool gives the same division. Inputs of other sizes or kinds are refused.",
     ["inputs", "configurations"], "every mosaic, topography, land fraction and coupled mosaic",
     "The tests run two inputs and look at the exit status.",
     ["src/make-quick-mosaic/make_quick_mosaic.c"], [("division", "src/make-quick-mosaic/make_quick_mosaic.c:main (land_area, ocean_area)"), ("writing", "src/make-quick-mosaic/make_quick_mosaic.c:main")],
     observe=["exchange grid files", "mask files", "mosaic file", "exit status"],
     technique="TLA+ spec Quick (tiles divided, then written): TLC exhaustive over depths, fractions and land pieces for completeness and idempotence; TLC-enumerated and random inputs run through make_quick_mosaic, once and again on its own output, every list validated against the spec with TLC",
     note="Cells with a pole strictly inside are out of scope.")
prop("C23", "make_regional_mosaic cuts the region of the output file out of its tile",
     "make_regional_mosaic takes the tile from the .tileN.nc in the name of the regional file and the cells from its grid_xt_sub01 and grid_yt_sub01 axes (consecutive cell numbers counted from 1, whatever their type or rounding), and writes regional_grid.tileN.nc with exactly the grid points of those cells (corners, sides and middles, values unchanged) and regional_mosaic.nc with that one tile, its name and --grid_descriptor. fregrid on the regional mosaic and file gives what it gives on the global mosaic with everything outside the region missing. Cells outside the tile, gaps, a file name without tile number or with one the mosaic does not have, and missing axes are refused; no input file changes.",
     ["inputs", "configurations"], "every global mosaic, tile and region",
     "The test runs one region and looks at the exit status.",
     ["src/make-regional-mosaic/make_regional_mosaic.c"], [("cut", "src/make-regional-mosaic/make_regional_mosaic.c:main"), ("use", "src/fre-grid/fregrid_util.c:get_input_grid")],
     observe=["grid file", "mosaic file", "fregrid output", "exit status"],
     technique="TLA+ spec Regional (look, cut row by row, write): TLC exhaustive over tiles and axes that every cell keeps its nine points; TLC-enumerated and random regions run through make_regional_mosaic, every point validated against the spec with TLC, and remapped with fregrid regionally and globally",
     note="Decreasing or repeated axis values are out of scope.")
prop("C24", "make_topog gives every ocean cell the depth and levels its options describe",
     "Realistic topography is the source itself (--on_grid) or the mean of the wet source over each cell by area (missing and non-positive depths are land; a cell without wet source is land); --filter_topog smooths the interior with the 1-2-1 filter, land neighbours counting as the cell itself, never changing the land mask nor, unless allowed, deepening a cell; --fill_first_row closes the first row of the grid. With a vertical grid depth and num_levels agree in every cell (a depth between two level bottoms has a partial bottom cell, less than the minimum thickness beyond a level ends with it, deeper than the last level is cut to it), full cells and flat bottom as asked; adjusted, no cell remains that no corner with four open cells reaches (across cyclic boundaries too, the folded row excepted; land mask kept on request), no bottom cell is thinner than its fraction, and no ocean column has fewer than kmt_min levels (rounded, filled or deepened as asked). Basin and channel topographies are exact, and the result is the same on any number of processes. Contradictory or impossible options are refused; no input file changes.",
     ["inputs", "configurations", "schedules"], "every grid, source topography, vertical grid, combination of options and number of processes",
     "The tests run two topographies and look at the exit status.",
     ["src/make-topog"], [("steps", "src/make-topog/topog.c:create_realistic_topog"), ("levels", "src/make-topog/topog.c:process_topo"), ("sweep", "src/make-topog/topog.c:remove_isolated_cells"), ("options", "src/make-topog/make_topog.c:main")],
     observe=["depth", "num_levels", "exit status"],
     technique="TLA+ spec Topog (read, filter pass by pass, first row, levels, in-place sweep cell by cell, thin bottoms, shallow columns): TLC exhaustive over small grids and options that depth and level always agree and that the in-place sweep is an opening independent of its order; TLC-enumerated and random sources and options run through make_topog on 1 to 4 processes, every cell validated against the spec with TLC",
     note="Depths in 256ths of a metre; gaussian, bowl, idealized and dome shapes only for independence of the number of processes.")
# @@MORE@@

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 harness/build.py", "checks": [], "not_applicable": [],
         "notes": "TLA+ specifications in spec/, checked with TLC; conformance machinery in harness/ and checks/. No hooks in /repo: everything is observed at the tools' interface (files, exit status, system calls)."}
    for p in P:
        if p["_na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
                                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_t"], "level": "model_checking", "level_note": p["_n"]})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

if __name__ == "__main__":
    main()
