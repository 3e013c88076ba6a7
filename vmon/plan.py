"""number of cases per tier and what makes a case count as non-trivial"""
PLAN = {}


def plan(pid, quick, thorough, rule):
    PLAN[pid] = {"quick": quick, "thorough": thorough, "rule": rule}


SCENE = ("random grid (structured, thin, Voronoi, triangle, hexagon, quadtree or irregular blob; structured/vertex/"
         "unstructured container; renumbered, rotated, offset, layered, closed polygons) x elevation family; ")
plan("C01", 12000, 120000, SCENE + "non-trivial: at least one cell was raised; distinct by elevations, method and increment")
plan("C02", 12000, 120000, SCENE + "non-trivial: a depression exists; distinct by elevations")
plan("C03", 12000, 120000, SCENE + "non-trivial: at least one cell was raised; distinct by elevations, method and increment")
plan("C04", 12000, 120000, SCENE + "non-trivial: at least one cell was raised; distinct by elevations, method and increment")
plan("C05", 12000, 120000, SCENE + "with a stream mask (outlet, scattered cells, lines); non-trivial: a cell was raised; distinct by elevations, mask, method and increment")
plan("C06", 12000, 120000, SCENE + "with missing values; non-trivial: a missing value could be filled; distinct by elevations and statistic")
plan("F01", 7500, 60000, SCENE + "raw, flat-filled, drained, nodata and terminal cells; every case is non-trivial; distinct by elevations, terminal cells and threshold")
plan("F02", 7500, 60000, SCENE + "raw, flat-filled, drained, nodata; non-trivial: some cell has a lower neighbour; distinct by elevations and threshold")
plan("F03", 7500, 60000, SCENE + "conditioned so that every cell but the outlets has a lower neighbour; distinct by elevations and terminal cells")
plan("F04", 7500, 60000, SCENE + "any surface; non-trivial: a confluence exists; distinct by elevations and directions")
plan("F05", 7500, 60000, SCENE + "any surface, three pour points; non-trivial: a watershed of more than one cell; distinct by directions and sizes")
plan("F06", 7500, 60000, SCENE + "any surface, 1-40 outlets; non-trivial: nested outlets; distinct by directions and outlets")
plan("F07", 6000, 50000, SCENE + "any surface; non-trivial: a cell drains to another; distinct by elevations and directions")
plan("F08", 6000, 50000, SCENE + "any surface; non-trivial: a cell drains to another; distinct by directions")
NET = SCENE + "drained surface, stream network by threshold (optionally inside a basin), set by the user, or passed as argument (int, bool, small integer, float, pre-numbered; connected or arbitrary cells); "
plan("S01", 6000, 50000, NET + "non-trivial: some but not all cells are streams; distinct by accumulation, thresholds and basin")
plan("S02", 6000, 50000, NET + "non-trivial: a stream cell drains to another; distinct by directions and stream cells")
plan("S03", 4500, 40000, NET + "every case with a stream is non-trivial; distinct by directions and stream cells")
plan("S04", 6000, 50000, NET + "non-trivial: more than one segment; distinct by directions, stream cells and grouping")
plan("S05", 4500, 40000, NET + "structured grids; non-trivial: more than one segment; distinct by directions, stream cells and grouping")
plan("S06", 6000, 50000, NET + "non-trivial: some cell is not a stream; distinct by directions, stream cells and grouping")
plan("S07", 6000, 50000, NET + "non-trivial: more than one line; distinct by directions, stream cells and grouping")
plan("S08", 6000, 50000, NET + "non-trivial: a stem longer than its control point; distinct by directions and points")
plan("S09", 6000, 50000, NET + "whole grid or a catchment; distinct by directions, stream cells and active area")
plan("S10", 6000, 50000, NET + "whole grid or a catchment; non-trivial: a cell with several targets; distinct by directions, stream cells and active area")
plan("S11", 4500, 40000, NET + "cascade and stream objects with overridden parameters; distinct by directions, stream cells and options")
plan("G01", 4500, 30000, SCENE + "the same terrain on a second grid object (other container, renumbered, moved, rotated, layered, closed polygons) through the whole pipeline; non-trivial: the second grid differs; distinct by elevations and variant")
plan("H01", 3750, 20000, SCENE + "random sequences of calls on shared objects, each result compared with a fresh object's; distinct by elevations and sequence")
plan("H02", 3000, 16000, SCENE + "hostile surfaces (flat, islands, all missing, moats, plateaus, sentinel values) through every operation, and streams of more than a thousand reaches; distinct by elevations")
plan("S12", 4000, 20000, NET + "tables written to MODFLOW 6 / MODFLOW-2005 files and read back; non-trivial: a stream cell drains to another; distinct by directions, stream cells and grouping")
plan("S13", 3750, 25000, NET + "the same streams through Sfr6, Sfr2005 and PrmsStreams; non-trivial: a stream cell drains to another; distinct by directions and stream cells")
plan("P01", 9000, 60000, SCENE + "with missing cells, through fill_nan_values, fill_sinks, flow directions, accumulation and streams; distinct by elevations, missing cells, method and increment")
plan("E01", 6000, 40000, SCENE + "objects that get requests they must refuse in between, compared with twins that do not; distinct by elevations and refused requests")
