REGISTRY = {
    "G01": ("sdf", "primitive shapes evaluate to their signed functions", 6),
    "G02": ("sdf", "boolean combinations follow set algebra", 10),
    "G03": ("sdf", "transformed shapes: values and bounding boxes agree", 10),
    "S01": ("sizing", "sizes are clamped between hmin and hmax", 3),
    "S02": ("sizing", "the Courant limit is exact", 3),
    "S03": ("sizing", "wavelength and gradient rules", 3),
    "S04": ("sizing", "lookup grid, padding and box are consistent", 3),
    "S05": ("sizing", "model layout and units", 3),
    "P06": ("sizing", "only the root process touches files", 3),
    "M02": ("mesh", "mesh cleaning", 3),
    "M06": ("mesh", "Laplacian smoothing", 3),
    "M07": ("mesh", "deletion of poor and overlapping cells", 3),
    "M08": ("mesh", "edge, facet, boundary and adjacency tables", 3),
    "M09": ("mesh", "geometric measures", 3),
    "M01": ("meshing", "cells index the vertices they are returned with", 3),
    "M03": ("meshing", "every exit returns a cleaned mesh", 3),
    "M04": ("meshing", "the triangulation holds the current points", 3),
    "M05": ("meshing", "fixed points stay fixed", 3),
    "U03": ("meshing", "options and defaults take effect", 3),
    "U06": ("meshing", "the number of rounds is the budget", 3),
    "P01": ("parcheck", "messages pair up and cannot deadlock", 3),
    "P02": ("parcheck", "every rank takes part in the same collectives", 3),
    "P03": ("parcheck", "ghost vertices are removed at the end of each round", 3),
    "P04": ("parcheck", "the decomposition and the neighbour boxes", 3),
    "P05": ("parcheck", "aggregation of the ranks' meshes", 3),
    "U01": ("usage", "data of callers is never written to", 3),
    "U04": ("usage", "messages follow the verbosity", 3),
    "U02": ("calls", "wrong calls are rejected", 100),
    "U05": ("usage", "the same call gives the same mesh", 3),
    "K01": ("kernels", "compiled kernels return the documented formula", 20),
    "K02": ("kernels", "compiled kernels stay inside their arrays", 100),
    "K03": ("kernels", "the gradient limiter", 20),
    "K04": ("kernels", "triangulation handles", 20),
    "K05": ("kernels", "points exported to the neighbouring ranks", 4),
}
