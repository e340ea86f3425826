"""Source of properties.jsonl and MANIFEST.json (run meta/gen.py after editing)."""
INP, HIS, CON, SCH, FLT = "inputs", "histories", "configurations", "schedules", "fault_sequences"
CLAIMED = []
NA = []


def claim(id, title, statement, over, qtext, why, files, mech, technique, note):
    CLAIMED.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                        technique=technique, note=note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


BASE_NOTE = ("Decides the named structural rule for every instance found in the current source; trusts clang 18's parse, the "
             "extractor in /verif/tool and the stated oracle. ")

claim("P01", "Reference element tables describe the published reference elements",
      "The constant tables that describe the reference elements (dimension, corner, edge and face counts and shapes per element class; "
      "corner coordinates; the corners, edges and faces incident to each edge and face and the inverse relations; facet normals; the corner "
      "numbering used for VTK output; tree-face orientation and face-neighbour tables) are mutually consistent and agree with the geometry of "
      "the published reference elements. Every entry a user can address through the documented class, face, edge and corner numbering is correct, "
      "for every element class.",
      [INP, CON], "every table, every element class, every face, edge, corner index",
      "The tests sample a few classes and combinations; most of these tables are read only in paths no test that builds here reaches.",
      ["src/t8_eclass/t8_eclass.c", "src/t8_eclass/t8_eclass.h", "src/t8_element/t8_element_shape.c", "src/t8_element/t8_element.cxx"],
      [("constant tables of t8_eclass", "src/t8_eclass/t8_eclass.c"), ("element shape tables", "src/t8_element/t8_element_shape.c")],
      "constant-table evaluation against geometric oracle",
      BASE_NOTE + "The tables are evaluated by clang's constant evaluator and each entry compared with the value derived from the corner coordinates; no code is run.")

claim("P02", "Refinement tables of the element classes encode a valid refinement",
      "The constant lookup tables that drive refinement of triangles, tetrahedra, prisms, pyramids and lines (child types, child positions along the "
      "space-filling curve, parent types, face-corner relations, face-child and face-neighbour relations) are exactly those given by cutting each element "
      "type into half-size copies. Tables that are inverse to each other really are inverse for every index, so parent, child and sibling lookups agree.",
      [INP, CON], "every refinement table, every element type, every child / cube / face index",
      "Tests walk a few levels of uniform refinement from a few start types; wrong rows for rare type and position pairs are not visited.",
      ["src/t8_schemes/t8_default/t8_default_tri/t8_dtri_connectivity.c", "src/t8_schemes/t8_default/t8_default_tet/t8_dtet_connectivity.c",
       "src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c", "src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_connectivity.c"],
      [("connectivity tables", "src/t8_schemes/t8_default/*/*_connectivity.c")],
      "constant-table evaluation against geometric oracle",
      BASE_NOTE + "Oracle: containment of half-size copies of every type in the parent, computed exactly on integer coordinates.")

claim("P03", "The built-in example meshes are valid meshes",
      "Every example mesh whose description is fixed in the source gives each tree exactly one class, trees numbered without gaps, as many vertices as its class has corners and a positive volume. "
      "Every face connection names existing, unconnected faces of equal shape that lie on each other (or are translates of each other where the mesh is periodic) with the orientation that the meeting corners dictate, "
      "and no two coinciding faces are left unconnected.",
      [INP, CON], "every example mesh generator with constant description, every combination of its flags and element classes, every tree and face",
      "Tests only commit these meshes; a wrong orientation or a missing connection stays unnoticed until elements are exchanged across exactly that face.",
      ["src/t8_cmesh/t8_cmesh_examples.cxx", "src/t8_cmesh/t8_cmesh_examples.h"],
      [("example mesh generators", "src/t8_cmesh/t8_cmesh_examples.cxx")],
      "constant propagation of mesh descriptions against geometric oracle",
      BASE_NOTE + "Meshes whose size is a run-time argument are judged on the constant part only; walks that rest on undecided conditions are not judged; tet_orientation_test and bigmesh are documented as purely topological and exempt from the geometric part.")

claim("P04", "Elements and messages are unpacked exactly as they were packed",
      "Whatever is packed into a message (elements of every class, mesh-construction records, ghost records) is unpacked item by item in the same order, with the "
      "same types and counts, into the same data members. The packed items cover every data member of the record that the receiver needs, and the "
      "announced buffer size is large enough for the packed items, for every element and record.",
      [INP, CON], "every pack / unpack / size triple, every data member",
      "Message exchange needs more than one process; the tests that build here run on a single process and never transmit an element.",
      ["src/t8_schemes", "src/t8_cmesh", "src/t8_forest/t8_forest_ghost.cxx"],
      [("pack, unpack and pack_size operations of element classes", "src/t8_schemes/t8_default/*"), ("raw-byte message layout of coarse mesh partition and ghost exchange", "src/t8_cmesh/t8_cmesh_partition.cxx, src/t8_forest/t8_forest_ghost.cxx")],
      "dataflow sequence comparison of packer and unpacker",
      BASE_NOTE + "Sequences are extracted from the type-checked AST with helper inlining and loop summaries; run-time counts are compared as expressions.")

claim("P05", "Messages carry the element type and size they declare",
      "In every point-to-point or collective communication the buffer handed over consists of elements of exactly the width and kind of the declared "
      "message datatype, and sizes counted in bytes are counted in bytes. A message tag that is sent with one datatype is received with the same datatype.",
      [INP, SCH, CON], "every communication call and every message tag",
      "A width mismatch corrupts data only with several processes or large counts, neither of which the tests here reach.",
      ["src/t8_cmesh", "src/t8_forest", "src/t8_data"],
      [("MPI calls", "src/t8_cmesh/*, src/t8_forest/*, src/t8_data/t8_shmem.c")],
      "type analysis of call sites",
      BASE_NOTE + "Each buffer argument is traced through casts and locals to its declared element type.")

claim("P06", "Nonblocking communication is completed and its buffers stay intact until then",
      "Every nonblocking send or receive that is started is completed on every path, by its starter or by a caller that receives its request. "
      "Until completion the buffer handed over is not released, not resized, not out of scope and not overwritten.",
      [SCH, INP, HIS], "every nonblocking operation, every path to its completion",
      "Whether a message is still in flight depends on the schedule and size; a test on one process never has one in flight.",
      ["src/t8_forest", "src/t8_cmesh"],
      [("nonblocking MPI operations", "src/t8_forest/t8_forest_ghost.cxx, src/t8_forest/t8_forest_partition.cxx, src/t8_cmesh/t8_cmesh_partition.cxx")],
      "typestate / ownership dataflow over the CFG and call graph",
      BASE_NOTE + "Path-sensitive only to the extent of the CFG: conditions guarding start and completion are matched as expressions.")

claim("P11", "Every interface layer passes a request through unchanged",
      "An element operation requested through any interface layer (scheme object, C interface, mesh handle, extended or convenience variant) reaches the same operation of the "
      "implementation for the given element class, with every argument in its own position, and its result is returned. No layer drops, exchanges or replaces an argument or calls a different operation.",
      [INP, CON], "every wrapper of every layer, every argument",
      "Several hundred wrappers exist; tests call a few of them with symmetric arguments.",
      ["src/t8_schemes/t8_scheme.hxx", "src/t8_schemes/t8_scheme.cxx", "src/t8_forest", "mesh_handle"],
      [("element operation dispatch", "src/t8_schemes/t8_scheme.hxx"), ("C interface", "src/t8_schemes/t8_scheme.cxx")],
      "argument-origin dataflow through wrappers",
      BASE_NOTE + "Origins of arguments are traced through casts and once-assigned locals.")

claim("P28", "No object keeps a pointer to memory that is already gone",
      "No function stores the address of one of its own local variables in an object that outlives the call, or returns such an address or reference. "
      "A field of a longer-lived object that is replaced temporarily during a call is restored on every path out of it.",
      [INP, HIS], "every function, every path",
      "A dangling pointer usually still reads the old value in a test; only a later unrelated call overwrites it.",
      ["src", "mesh_handle"],
      [("search user data, temporary scheme and mesh replacement", "src/t8_forest/*")],
      "escape analysis and path-sensitive typestate",
      BASE_NOTE + "Covers addresses of named locals, not pointers to released heap memory.")

claim("P09", "Global element and tree numbers keep their full 64-bit range",
      "Global element counts and ids, global tree ids of distributed meshes and space-filling-curve indices are never stored in, passed through or returned as a 32-bit quantity; only "
      "differences to a local start, remainders and tree numbers of a mesh that one process holds as a whole may be narrowed. Products, shifts and powers that form such numbers are evaluated in 64 bits.",
      [INP, CON], "every conversion and every arithmetic expression whose value is used as such a number",
      "Only meshes with more than two billion elements or deep refinement levels show a truncation; tests use a few thousand elements.",
      ["src/t8_forest", "src/t8_schemes", "src/t8_cmesh", "src/t8_vtk"],
      [("curve index computation", "src/t8_schemes/t8_default/*/*_bits.c"), ("partition offsets", "src/t8_forest/t8_forest_partition.cxx, src/t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.c")],
      "width dataflow over typed expressions",
      BASE_NOTE + "Relative values are recognised structurally (difference, remainder, widened 32-bit value), through locals, parameters and callees.")

claim("P10", "The Fortran interface declares the C functions it calls as they are",
      "Every Fortran procedure bound to a C function names a function that exists and has the same number and order of arguments, each of the same width and kind and passed "
      "the same way (by value, by reference, as pointer or function pointer), and the same result. Callbacks implemented in Fortran have the signature the library calls them with.",
      [INP, CON], "every bound procedure, every argument",
      "Nothing checks the two languages against each other at build time; a width mismatch shows only for particular register contents or large values.",
      ["api/t8_fortran_interface/t8_fortran_interface_mod.f90", "api/t8_fortran_interface/t8_fortran_interface.h"],
      [("bind(c) interfaces", "api/t8_fortran_interface/t8_fortran_interface_mod.f90")],
      "cross-language signature comparison",
      BASE_NOTE + "The Fortran side is parsed by the check itself; default kinds are those of gfortran on x86-64. Two known findings are listed.")

claim("P13", "Asking a question does not change the mesh or the element asked about",
      "An operation that only reads its operands by its interface (inputs declared constant, constant member functions, queries for counts, ids, kinds and relations of elements, trees, coarse meshes and forests) leaves "
      "them unchanged, on every path and through every function it calls. A mesh that a new mesh is derived from (by copying, adapting or partitioning) keeps its content; only evaluation caches, allocation pools, collective "
      "offset tables computed on demand, run time statistics and reference counts may change.",
      [INP, HIS], "every read-only operand of every function, every path and every callee",
      "A query that writes shows only in the next operation on the same object; tests rarely ask twice or compare the operand before and after.",
      ["src", "mesh_handle"],
      [("element operations", "src/t8_schemes"), ("mesh queries", "src/t8_forest/t8_forest.cxx, src/t8_cmesh/t8_cmesh.cxx")],
      "interprocedural side-effect (mod) analysis",
      BASE_NOTE + "Field-sensitive access paths up to three fields; library functions are modelled by their constness; user callbacks are assumed not to write the handle they are given.")

claim("P08", "Debug and release builds compute the same results",
      "Code that exists only in debug builds (assertions and debug regions) has no effect on anything the release code reads: it changes no element, mesh, array or variable that survives it, on any path and "
      "through any function it calls, and it does not divert the control flow of the surrounding code. Setting fresh elements to a valid state, filling on-demand offset tables and stricter validity predicates are the only debug extras.",
      [INP, CON], "every assertion and every debug-only region",
      "The test suite runs in one build configuration only, so a difference between configurations is invisible to it.",
      ["src", "mesh_handle"],
      [("assertions and debug regions", "src/**")],
      "side-effect analysis of configuration-dependent code",
      BASE_NOTE + "Regions with an explicit alternative branch for release builds are not compared with that branch.")

claim("P21", "Results depend on the arguments only, not on earlier calls",
      "Apart from the package registration and the log function a program sets once, the library keeps no state between calls: no function leaves a changed global or static variable behind, and a guard that is set during a call is "
      "cleared on every path out of it. Clock readings end only in run time statistics and log messages, and random numbers or the environment are used only where a function is documented to be random.",
      [INP, HIS, CON], "every function, every global and static variable, every path",
      "A test calls a function a few times in one order; hidden state shows only in other call histories.",
      ["src", "mesh_handle"],
      [("recursion guard of the commit check", "src/t8_cmesh/t8_cmesh.cxx"), ("package id and log function", "src/t8.c")],
      "global-state effect analysis and path typestate",
      BASE_NOTE + "State kept inside the meshes and elements a caller passes in is the subject of other properties.")

claim("P12", "Element operations may be used in place",
      "Where the interface allows it (copy, parent, sibling and face transformation of every element class, and the ancestor, face neighbour, nearest common ancestor and children operations "
      "documented so), or where the library itself passes the same element as input and output, the operation gives the same result as with two distinct elements: "
      "no member of the input is read after the output's member of the same name was given its new value, on any path.",
      [INP], "every in-place operation and every call with identical elements, every path",
      "Tests pass distinct elements almost everywhere; an overwritten input shows only for particular types and orientations.",
      ["src/t8_schemes/t8_default"],
      [("element operations", "src/t8_schemes/t8_default/*/*_bits.c, src/t8_schemes/t8_default/*/*.cxx")],
      "path-sensitive read-after-write alias dataflow",
      BASE_NOTE + "Members are compared by access path and subscript expression; array elements with equal subscript text are the same place.")

claim("P14", "Everything acquired is released exactly once",
      "On every path out of a function, including every error path, each block of memory, file, array, hash table, temporary element, communicator or mesh it acquired has been released, returned, stored "
      "in an object or handed to a function that takes it over, and nothing is used or released again after its release. When an object is destroyed, everything its members own is released; "
      "a member whose target is released earlier is reset.",
      [INP, HIS, FLT], "every acquisition, every path, every owning member",
      "Tests follow the successful paths and do not count allocations on error paths; a leaked or doubly released block has no visible effect in a short run.",
      ["src", "api"],
      [("readers and their error paths", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx"), ("destruction of meshes", "src/t8_cmesh/t8_cmesh.cxx, src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx, src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c, src/t8_forest/t8_forest.cxx, src/t8_forest/t8_forest_ghost.cxx")],
      "path-sensitive ownership dataflow with callee summaries",
      BASE_NOTE + "Equal conditions on one path are taken to have equal outcomes; a loop that hands a resource on is taken to run at least once; a function that keeps a pointer counts as having taken it over. One known finding is listed.")

claim("P15", "What may be missing is never used without asking",
      "An argument that may be left out by its documentation, by its function's own tests or by a call inside the library, a lookup or file operation whose result may be empty, and an optional part of a mesh or geometry "
      "(profile, geometry handler, analytic callbacks) is only dereferenced on paths on which it is known to be present, also through the functions it is handed to. Where it is missing, the function does the rest of its work or reports an error.",
      [INP, FLT], "every optional argument, result and member, every path",
      "Tests pass the optional arguments or leave them out in a few combinations, and rarely provoke failing lookups; a missing test crashes only then.",
      ["src", "api"],
      [("element operations with optional outputs", "src/t8_schemes/t8_default"), ("geometry callbacks", "src/t8_geometry"), ("writers and readers", "src/t8_vtk, src/t8_cmesh/t8_cmesh_io")],
      "path-sensitive nullness dataflow",
      BASE_NOTE + "Optional arguments are recognised from the documentation comments, from tests for NULL inside the function and from NULL literals in calls; equal conditions on one path have equal outcomes.")

claim("P16", "Malformed mesh files are reported, never silently misread",
      "Whatever bytes a mesh file contains, every value taken from it is used only on paths on which reading that value succeeded, is stored in a variable of the width and kind the conversion expects without "
      "overrunning it, and is compared with the size of the array it indexes or sizes. Each step of a reader is carried out in order, and when a step fails the reader reports the failure to its caller instead of returning a mesh.",
      [INP, FLT], "every file content, every read, conversion, index and reader step; also every formatted message",
      "Tests read a handful of well-formed files and a few missing ones; truncated lines, wrong counts and out-of-range numbers each need their own file.",
      ["src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx", "src/t8_openfoam/t8_openfoam_reader.cxx", "src/t8_vtk"],
      [("Gmsh reader", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx"), ("OpenFOAM reader", "src/t8_openfoam/t8_openfoam_reader.cxx")],
      "path-sensitive taint dataflow",
      BASE_NOTE + "Conversions are matched against the resolved argument types; a value counts as checked when the path passed a comparison of the conversion count (or stream state) that implies it was read; bounds facts come from comparisons on the path. Values that depend on each other only through arithmetic are not related.")

claim("P24", "Memory is sized and addressed by the type of what it holds",
      "Every container, memory pool and shared array is filled and read with the element type it was created for, and tables with one entry per process have the room that is written to them, including the end entry. "
      "Copying, comparing and clearing memory covers the objects or elements named in the call and never more than the destination has. "
      "Constant subscripts and the counters of counting loops stay within the fixed or allocated array they index, and text written to a buffer is limited by that buffer's size.",
      [INP, CON], "every container, every memory operation, every subscripted array with a visible extent",
      "An overrun by one element or a too small element size usually hits padding or unused memory; it needs particular counts and process numbers to show.",
      ["src", "mesh_handle", "api"],
      [("offset tables with one entry per process", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx, src/t8_forest/t8_forest_partition.cxx"), ("containers", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c, src/t8_data")],
      "element-type inference and symbolic extent comparison",
      BASE_NOTE + "Extents are compared as polynomials over values that do not change in between; an access whose extent is not visible in the function, its constructor or its container is not judged.")

claim("P07", "All processes take part in the same collective operations",
      "In every call of a function that communicates collectively, all processes of its communicator go through the same collective operations in the same order, whatever their rank, their share of the mesh "
      "and their local data are, also on error paths. The rooted operations of one exchange use one root, the process that is treated separately in it, and all communication goes over the communicator that was handed in or that belongs to the mesh.",
      [INP, SCH, FLT], "every function with collective communication, every condition that may differ between processes, every path",
      "The tests run on one process or a few with similar shares of the mesh; a skipped collective call deadlocks only where a process is empty, fails alone or is not the root.",
      ["src", "mesh_handle"],
      [("broadcast and partition of coarse meshes", "src/t8_cmesh/t8_cmesh.cxx, src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx, src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c, src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx"), ("forest algorithms", "src/t8_forest"), ("readers", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx")],
      "interprocedural collective-trace comparison with process-dependence dataflow",
      BASE_NOTE + "A value counts as process-dependent when it derives from the rank, from local counts, from files read by one process or from received data that was not reduced or broadcast; paths are compared up to loop iterations.")

claim("P30", "Every point of a batch is treated like a single point",
      "Where an operation takes a number of points and arrays with their coordinates (evaluating geometries and their derivatives, reference coordinates of elements, tests whether points lie in an element), "
      "the result for each point depends only on that point's own input and is the same as if the point had been passed alone. "
      "Exactly as many inputs are read and results written as points were announced, each at the place its position in the batch and the number of coordinates per point give it.",
      [INP], "every operation on batches of points, every number of points, every position in the batch",
      "Tests mostly pass one point at a time; a mixed-up stride or a value shared between points shows only for the second point of a batch and for particular dimensions.",
      ["src/t8_geometry", "src/t8_schemes", "src/t8_forest"],
      [("geometries", "src/t8_geometry/t8_geometry_helpers.c, src/t8_geometry/t8_geometry_implementations, src/t8_geometry/t8_geometry_with_vertices.cxx"), ("reference coordinates of elements", "src/t8_schemes/t8_default/*/*_bits.c*, src/t8_forest/t8_forest.cxx")],
      "symbolic stride and loop-carried dependence dataflow",
      BASE_NOTE + "Batches are recognised from the documented parameter names and from calls that hand a batch on; offsets are compared as polynomials over the point counter, the dimension and constants.")

claim("P27", "Data attached to a tree is read back as it was stored",
      "Every kind of data that is attached to a tree of a coarse mesh (vertex coordinates, global vertices, geometry, linkage to surfaces and curves and their parameters) is stored completely, with its size in bytes and the end of texts, "
      "is read under the key it was stored under and as values of the type that was stored. "
      "Keys of different data, also those that are numbered through for the edges or faces of a tree, never coincide, and nothing is looked up that is never stored.",
      [INP], "every store and every lookup of tree data in the library, every key",
      "Tests attach one kind of data to few trees and mostly compare only its first values; a wrong size or key shows for particular tree classes, or corrupts the data stored behind it.",
      ["src/t8_cmesh", "src/t8_geometry", "src/t8_vtk"],
      [("stores", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx, src/t8_cmesh/t8_cmesh_geometry.cxx, src/t8_cmesh/t8_cmesh.cxx"), ("keys", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h"), ("lookups", "src/t8_cmesh/t8_cmesh_mesh_deformation/t8_cmesh_mesh_deformation.cxx, src/t8_geometry/t8_geometry_implementations/t8_geometry_cad.cxx")],
      "whole-program agreement of stores and lookups per key",
      BASE_NOTE + "Only data of the library's own package is matched between stores and lookups; sizes that come from tables filled at run time are not judged.")

claim("P31", "Orderings are consistent; sorted and hashed containers find what they hold",
      "Every function that orders or compares entries of the library's containers or elements of one shape defines a consistent order: equal entries compare equal, swapping the entries swaps the result, and no entries that differ are taken for equal. "
      "Containers are sorted by what their users rely on (attributes by tree, package and key; ghosts by global, then by local index; vertices by tree and number) before they are searched in that order. "
      "The hash value of an entry depends only on what its equality compares, so that equal entries, also with their parts in another order where that is irrelevant, are found again; the key of an entry is set before it is searched or inserted and does not change while it is in a table.",
      [INP, HIS], "every ordering, equality and hash function handed to a container or defined for elements, over all orders of the compared parts; every search and insertion",
      "Tests sort and look up few entries whose ties and reversed orders never occur; an inconsistent order or hash only loses entries for particular combinations of keys or when entries arrive in another order.",
      ["src/t8_cmesh", "src/t8_schemes/t8_default", "src/t8_forest"],
      [("order of the stash", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c"), ("attribute search, ghost tables", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx, src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx"), ("faces and nodes of a mesh file", "src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx"), ("vertex connectivity", "src/t8_cmesh/t8_cmesh_vertex_connectivity"), ("elements", "src/t8_schemes/t8_default")],
      "abstract interpretation of comparison functions over the order of the compared parts; effect analysis of hash functions; typestate of table entries",
      BASE_NOTE + "Comparison functions with loops or with ranges (two of the forest) are not judged; that the space-filling curve index itself is correct is not part of this property.")

claim("P32", "Corners, children, parents and neighbours of elements lie where they must",
      "For every element class and type and on every level, the corners and inner points an element reports are those its anchor, type and level determine, and the neighbour across a face has the same level and shares exactly that face, under the face number reported for it. "
      "Every child lies inside its parent, is one level finer and differs from its siblings; the parent, child id and siblings computed from a child lead back to the element and number it came from, the children and descendants at a face or corner lie there, and only the complete set of children in order is a family. "
      "An element of a face of the tree and the element of the tree it belongs to determine each other and occupy the same points.",
      [INP], "every element function that computes coordinates or relatives of an element, for every class, type, face, corner and child number; anchors and levels unknown",
      "Tests compare a few levels and types of one class; a wrong sign or type in one case of one function shows only for elements of that type at that face.",
      ["src/t8_schemes/t8_default"],
      [("line", "src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c"), ("triangle and tetrahedron", "src/t8_schemes/t8_default/t8_default_tri/t8_dtri_bits.c"), ("prism", "src/t8_schemes/t8_default/t8_default_prism/t8_dprism_bits.c"), ("pyramid", "src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c"), ("face elements", "src/t8_schemes/t8_default")],
      "dataflow of polynomial forms over unknown coordinates, lengths and levels (with the bits below the length of the element), compared with the reference geometry of each class and type",
      BASE_NOTE + "Paths whose conditions depend on the position of the element in the tree (which shape a pyramid face meets, boundary of the tree) are followed both ways or left out; functions of p4est are trusted; relatives over more than one level are not judged.")

# ---------------------------------------------------------------- stated, not decided here
na("P40", "The space-filling curve is a bijection that refinement preserves",
   "For every element class and level, enumerating the elements by their linear id visits every element exactly once; the linear id of an element, the element with a given linear id, successor and comparison agree. "
   "The descendants of an element form one contiguous range of ids on every finer level.",
   [INP], "all elements of all classes on all levels", "There are up to 8^21 elements per tree; tests enumerate levels up to 5 or so.",
   ["src/t8_schemes/t8_default"], [("linear ids", "src/t8_schemes/t8_default/*/*_bits.c")],
   "An arithmetic fact about loops over the coordinate bits for all levels: it needs induction over symbolic bit vectors (a prover or solver), not a dataflow or syntactic argument. The tables these loops read are decided in P02, the comparison functions' order properties in P31, the 64-bit arithmetic in P09.")
na("P41", "Balance establishes the 2:1 condition and changes nothing else",
   "After balancing, leaf elements that share a face differ by at most one level, no element of the input was coarsened, and the result is the coarsest forest with these properties.",
   [INP], "all forests", "Forests of a few trees and levels are tested.",
   ["src/t8_forest/t8_forest_balance.cxx"], [("balance", "src/t8_forest/t8_forest_balance.cxx")],
   "A fixed-point property of run-time element data; no static bound on levels of neighbouring leaves follows from the code's structure.")
na("P42", "Partition distributes every element to exactly one process and keeps their order",
   "After repartitioning, the sequence of all leaf elements over the processes in rank order is the sequence before, and the numbers of elements of two processes differ by at most one (or by the weights or family rule requested).",
   [INP, SCH], "all forests, all process counts", "Only one process runs in the test suite here.",
   ["src/t8_forest/t8_forest_partition.cxx"], [("partition", "src/t8_forest/t8_forest_partition.cxx")],
   "Depends on run-time offsets; the statically decidable parts (same collective operations, message types, buffers, 64-bit offsets, release of everything) are P04 to P09 and P14.")
na("P43", "The ghost layer is complete and exact",
   "The ghost layer of a process consists of exactly the leaf elements of other processes that share a face with one of its leaf elements, and the exchange gives each ghost the data of its owner.",
   [INP, SCH], "all forests, all process counts", "Needs several processes and irregular refinement.",
   ["src/t8_forest/t8_forest_ghost.cxx"], [("ghost", "src/t8_forest/t8_forest_ghost.cxx")],
   "Completeness is a geometric fact about run-time leaf sets. The record formats, requests and tables of the ghost code are decided in P04, P06, P24, P31.")
na("P44", "Search visits every matching leaf exactly once",
   "A search with callbacks that never reject a parent of a match reports each matching leaf exactly once, each query with it, and leaves that lie below a rejected element are not visited.",
   [INP], "all forests, callbacks and queries", "Callbacks are arbitrary user code.",
   ["src/t8_forest/t8_forest_search"], [("search", "src/t8_forest/t8_forest_search/t8_forest_search.cxx")],
   "Depends on the split of run-time leaf arrays by binary search over linear ids and on user callbacks.")
na("P45", "Adaptation replaces complete families only and keeps the forest a tiling",
   "After adaptation each element was kept, replaced by all its children, or its whole family replaced by the parent, as the callback asked; the result covers each tree exactly once.",
   [INP], "all forests, callbacks", "Callbacks are arbitrary user code.",
   ["src/t8_forest/t8_forest_adapt.cxx"], [("adapt", "src/t8_forest/t8_forest_adapt.cxx")],
   "The invariant ties loop counters, queue contents and callback results at run time together; a sound static argument would be a functional proof.")
na("P46", "Geometries evaluate to the exact map up to rounding",
   "Every geometry maps reference points to the physical points of the documented map up to rounding error, its Jacobian is the derivative of that map, and neighbouring trees agree on their common face.",
   [INP], "all points of all trees", "Real-valued input.",
   ["src/t8_geometry"], [("geometries", "src/t8_geometry/t8_geometry_implementations")],
   "Numerical accuracy is not a property of the code's structure; addressing, strides, optional parts and inputs of the maps are decided in P24, P30, P15.")
na("P47", "Element relations are mutually inverse",
   "parent(child(e,i)) is e, the child id of child i is i, the face neighbour across a face has the element as its neighbour across the dual face, and first and last descendants bound the descendants, for all elements.",
   [INP], "all elements of all classes", "Tests sample low levels.",
   ["src/t8_schemes/t8_default"], [("element operations", "src/t8_schemes/t8_default")],
   "Bit arithmetic over symbolic coordinates and levels for all elements; the tables involved are proved inverse in P02 and the wrappers in P11, in-place use in P12.")
na("P48", "A repartitioned coarse mesh describes the same mesh",
   "After a coarse mesh is partitioned each process holds exactly the trees of its range and their face neighbours as ghosts, with unchanged classes, connections and attributes.",
   [INP, SCH], "all coarse meshes, all process counts and ranges", "Only one process runs in the test suite here.",
   ["src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx"], [("partition", "src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx")],
   "Depends on run-time ranges and neighbour ids; message layout, sizes, requests and id widths of that code are decided in P04 to P07, P09, P24.")
na("P49", "Written VTK files show the mesh",
   "A VTK file written from a forest or coarse mesh contains one cell per leaf or tree with its corners at their physical coordinates in VTK order and the data values of its element.",
   [INP], "all meshes and data fields", "File contents are compared for few meshes.",
   ["src/t8_vtk"], [("writers", "src/t8_vtk")],
   "The content of the file is run-time data. Corner numbering tables are decided in P01, buffer types in P24, files and error paths in P14 and P15, clashing ids in P09.")
