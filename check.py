#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on the current tree of /repo"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from t8sa import extract, model, report

REG = {
    "P01": ("tables", "constant tables of the reference elements equal the tables derived from the corner coordinates of the reference elements and the published numbering"),
    "P02": ("tables", "constant refinement tables equal those derived from containment of half-size copies in each element type"),
    "P04": ("wire", "the typed item sequence written by each pack function equals the one its unpack function reads, covers every data member, and fits the announced size"),
    "P11": ("forward", "a wrapper calls the operation it is named after, passes each parameter in its place, selects the scheme of the given tree class and returns the result"),
    "P28": ("lifetime", "an address of a local variable is not left in, or handed for keeping to, an object that outlives the call; a saved and replaced field is put back on every path"),
    "P06": ("requests", "on every path from a nonblocking MPI operation (through callers and callees) its request is completed, and until then its buffer is neither released, nor out of scope, nor touched"),
    "P09": ("idwidth", "no 64-bit id is converted to a narrower type unless it is relative or bounded; no product, shift or power is formed in 32 bits and then used as an id"),
    "P10": ("fortran", "each bind(c) interface names an existing C function with the same number, order, width, kind and passing mode of arguments and the same result"),
    "P08": ("debugonly", "code present only in debug builds writes nothing that release code reads and does not divert control flow"),
    "P21": ("state", "no function writes a global or static variable that survives the call, except the listed settings; clock and random values reach only profiles and log messages"),
    "P03": ("examples", "constant propagation of the example mesh generators: every tree has one class, its vertex count and positive volume; every join names free existing faces of equal shape that coincide (or are translates), with the orientation their corners dictate"),
    "P12": ("alias", "with input and output the same element, no member is read through the input after it got a new value through the output"),
    "P13": ("purity", "no write reaches memory behind a const parameter, a const method's object or the object of a query function, through any call chain"),
    "P14": ("resources", "on every path out of a function what it acquired is released, returned, stored or handed on, and not used after release; what a member of an object owns is released when the object is destroyed"),
    "P15": ("optional", "on every path an argument, member, result, lookup or optional value that may be absent is used only after a test that it is there"),
    "P16": ("fileinput", "every conversion of file text matches its variable and is bounded; a value read from a file is used only after the read was checked and, as an index or size, was compared with its bound; every failing reader step is reported to the caller"),
    "P24": ("sizes", "every container is accessed as the type it was made for; every memory copy, comparison and text output counts in the units of its operands and stays inside them; no index of a counting loop or constant index exceeds the array"),
    "P07": ("collective", "under every outcome of a condition that may differ between processes a function goes through the same collective operations in the same order; all rooted operations of one exchange have the same root, the process treated separately"),
    "P27": ("attributes", "every store of a tree attribute gives the size in bytes of the values it stores, every key is stored and read with one type, every key that is read is stored, and families of keys do not overlap"),
    "P31": ("order", "every ordering function is evaluated over all orders of the compared parts and must be a lexicographic order, sorted containers are searched in the order they are sorted, a hash value depends only on what equality compares, and the key of an entry is set before and not changed after it is put into a table"),
    "P32": ("corners", "coordinates, types and levels are propagated as polynomial forms through the element functions; corners, inner points, face neighbours, children and extruded faces must lie where the reference geometry of anchor, type and level puts them"),
    "P30": ("batch", "every function that takes a batch of points treats each point by the same code on its own data: complete loops, one stride per array, nothing carried over, the whole batch handed on, and a result for each point on every path"),
    "P05": ("mpi", "every MPI buffer argument has the element width and kind of the MPI datatype it is passed with; every message tag is sent and received with equal datatypes"),
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, rule = REG[prop]
    rep = report.Report(prop, rule)
    try:
        P = model.program()
        m = importlib.import_module("t8sa.checks." + mod)
        getattr(m, "run_" + prop)(P, rep)
        if rep.total() == 0:
            raise report.NoAnswer(prop + ": nothing to analyse")
    except report.NoAnswer as e:
        print("ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR the analysis itself failed; no answer")
        return 3
    analysed = {"translation_units": len(P.tus), "functions": len(P.all), "tree": os.path.basename(P.dir)}
    return report.finish(rep, tier, seed, analysed)


if __name__ == "__main__":
    sys.exit(main())
