#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
I="include/heffte_"; S="src/heffte_"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Distributed forward transform equals the three-dimensional DFT",
  "After a forward complex-to-complex (or real-to-complex through the complex interface) transform, the outputs of all ranks together are the unnormalised DFT with kernel exp(-2 pi i k n/N) of the array the ranks hold together: every frequency appears exactly where the rank's output box and its memory order say. This holds for every disjoint cover of the index space by input boxes and by output boxes, every box memory order, every combination of plan options, back end, precision and index type.",
  ["inputs","configurations"],
  "all world sizes (including extents 1, primes and mixed radix), numbers of ranks, box partitions (bricks, pencils, slabs, irregular) and orders for input and output, plan options (reorder, pencils/slabs, four redistribution algorithms, sub-ranks), back ends fftw/mkl/stock, float/double, int/long long",
  "The tests transform two or three fixed meshes on fixed processor grids with default orders and compare against one random vector; which planner branch, executor dimension, permutation and radix is used depends on the partition and options, and almost all combinations are never run.",
  [I+"fft3d.h",S+"compute_transform.cpp",S+"plan_logic.cpp",S+"reshape3d.cpp",I+"backend_stock.h",I+"backend_fftw.h",I+"backend_mkl.h"],
  [("fft3d::forward / standard_transform","include/heffte_fft3d.h"),("compute_transform","src/heffte_compute_transform.cpp"),("plan_operations","src/heffte_plan_logic.cpp"),("executors","include/heffte_backend_*.h")],
  [("stage","which directions are transformed and how the data is distributed between two redistributions","shaper[0..3], executor[0..2]")],
  ["user input and output arrays of every rank","data handed to each 1-D engine through a symbolic back end"])
p("C02","Backward transform inverts forward, with the scaling that was asked for",
  "The backward transform is the unnormalised inverse DFT with kernel exp(+2 pi i k n/N), so that backward after forward multiplies every element of the input by the number of indexes of the world. Asking for full scaling multiplies the result by exactly one over the number of indexes, for symmetric scaling by one over its square root, and no scaling by one - in either direction, wherever the caller puts the scale.",
  ["inputs","configurations"],
  "all configurations of C01 with every scaling applied in either direction and batch; world sizes with unequal extents and different sizes on different ranks",
  "The tests use the one pair (full forward, none backward) or (none, full) on a couple of meshes; symmetric scaling and scale applied per rank with empty or unequal boxes is hardly exercised, and the sign of the kernel is only seen through a round trip.",
  [I+"fft3d.h",S+"compute_transform.cpp",I+"common.h"],
  [("fft3d::backward","include/heffte_fft3d.h"),("get_scale_factor","include/heffte_fft3d.h"),("data_scaling","include/heffte_backend_data_transfer.h, heffte_backend_vector.h"),("apply_scale","include/heffte_fft3d.h")])
p("C03","Real-to-complex transforms give the non-redundant half of the DFT and invert",
  "The real-to-complex transform reduced along one chosen direction returns exactly the frequencies 0..N/2 of that direction of the full DFT, laid out in the reduced output boxes; the complex-to-real transform is its inverse up to the number of real indexes, for odd and even extents. Scaling is relative to the real world size.",
  ["inputs","configurations"],
  "all choices of the reduced direction 0,1,2, odd and even extents including 1 and 2, all partitions and orders of the real input and the reduced output, all plan options, back ends, precisions, batches",
  "Tests use a handful of even meshes with fixed grids, one or two ranks per direction; odd extents, tiny extents, permuted orders, batches with partially active redistributions are not run.",
  [I+"fft3d_r2c.h",S+"compute_transform.cpp",S+"plan_logic.cpp",I+"geometry.h"],
  [("fft3d_r2c::forward/backward","include/heffte_fft3d_r2c.h"),("compute_transform for real data","src/heffte_compute_transform.cpp"),("box3d::r2c","include/heffte_geometry.h"),("*_executor_r2c","include/heffte_backend_*.h")])
p("C04","Redistribution moves every element exactly once to where it belongs",
  "Moving data from one distribution to another puts in every rank's destination array exactly the element that belongs at each index of its destination box, at the position given by that box's memory order, each exactly once, with no element lost, duplicated or altered. All four communication algorithms give the same result, in place or out of place, for any batch size and element type.",
  ["inputs","configurations","schedules"],
  "all pairs of partitions of a world on any number of ranks (including empty boxes and ranks with nothing to send or receive), all source/destination orders (transposing or not), four algorithms, element types of 4/8/16 bytes, batches, and arrival orders",
  "test_reshape3d covers a few brick-to-brick moves; overlap maps, send/receive ordering, transposing unpackers and padding depend on the pair of partitions, which is combinatorial.",
  [S+"reshape3d.cpp",I+"reshape3d.h",I+"pack3d.h"],
  [("compute_overlap_map_*","src/heffte_reshape3d.cpp"),("reshape3d_alltoall(v)/pointtopoint::apply_base","src/heffte_reshape3d.cpp"),("direct_packer, transpose_packer","include/heffte_pack3d.h")],
  [("send/recv maps","for each peer: offset, size, proc and pack plan","reshape3d_* members")])
p("C05","No schedule of ranks and messages changes a result, deadlocks or misuses MPI",
  "Whatever the relative speed of the ranks, the order in which messages arrive or complete and whether a blocking send buffers or waits, every collective operation of the library terminates on all ranks with the same result. Every receive is matched by exactly one send of the same size, no buffer is touched while a message still owns it, and no message or request is left over.",
  ["schedules","configurations"],
  "all interleavings of ranks, message delivery orders, completion orders and eager/rendezvous behaviours, over all algorithms, partitions and batches; plan construction and destruction as well as transforms",
  "An MPI run samples the one schedule the shared-memory transport happens to produce, where small sends always buffer; the tests cannot make a send block or a message arrive late.",
  [S+"reshape3d.cpp",I+"reshape3d.h",I+"utils.h"],
  [("reshape3d_pointtopoint::apply_base","src/heffte_reshape3d.cpp"),("reshape3d_alltoall(v)::apply_base","src/heffte_reshape3d.cpp"),("new_comm_from_group","include/heffte_utils.h")])
p("C06","Every plan is a correct and consistent decomposition of the transform",
  "For any valid input and output distribution and options, the plan all ranks compute consists of distributions that each cover the index space exactly once, transforms every direction exactly once and only where each rank holds the complete direction, starts at the given input and ends at the given output distribution and order. Every rank computes the same plan, the backward plan is the forward one reversed, and memory orders are honoured (fastest direction first when reordering was asked for).",
  ["inputs","configurations"],
  "all worlds, rank counts, input/output partitions and orders, all option combinations, complex and real-to-complex",
  "The planner's branches are chosen by properties of the partitions (is it pencils, slabs, in which direction, how many ranks, does the order fit); tests touch a few of the branches and only through end-to-end numbers.",
  [S+"plan_logic.cpp",I+"plan_logic.h",I+"geometry.h"],
  [("plan_operations","src/heffte_plan_logic.cpp"),("plan_pencil_reshapes, plan_slab_reshapes","src/heffte_plan_logic.cpp"),("next_pencils_shape / next_slab","src/heffte_plan_logic.cpp")])
p("C07","Domain splitting and process grids partition the index space",
  "Splitting a world over a process grid yields one box per rank (rank to grid position with the first direction fastest), the boxes are disjoint and cover the world, and their extents in a direction differ by at most one. The suggested process grids have exactly the requested number of ranks: the two-dimensional one is the closest to a square, and the three-dimensional minimum-surface grid has the least surface (of a box, by whole indexes per rank) among the grids that leave no rank without indexes, whenever one exists. Deciding whether boxes fill a world, are pencils, slabs or equal, and rearranging them, is right for every family of boxes.",
  ["inputs"],
  "all worlds and numbers of processes and grids, and world boxes not starting at zero",
  "The unit tests check three or four worlds; divisibility, extents smaller than the grid, and primes matter.",
  [I+"geometry.h",S+"plan_logic.cpp"],
  [("split_world","include/heffte_geometry.h"),("make_procgrid, proc_setup_min_surface","include/heffte_geometry.h"),("make_pencils, make_slabs, maximize_overlap, reorder","include/heffte_geometry.h"),("find_world, world_complete, match, get_layout","include/heffte_geometry.h")])
p("C08","A batch of transforms equals the transforms done one by one",
  "Transforming a batch of arrays stored one after the other gives, for every item, what transforming that item alone gives, for forward, backward, complex, real-to-complex and sine/cosine transforms. This holds when ranks hold boxes of different sizes and when some ranks need no communication in some stage.",
  ["inputs","configurations"],
  "all batch sizes, all configurations of C01-C03, caller-supplied or internal workspace",
  "Batches are tested with one grid and two option sets; offsets into the shared buffers depend on which stages communicate, on uneven boxes and on the branch taken.",
  [S+"compute_transform.cpp",S+"reshape3d.cpp",I+"fft3d.h",I+"fft3d_r2c.h"],
  [("compute_transform","src/heffte_compute_transform.cpp"),("batched reshape3d apply","src/heffte_reshape3d.cpp"),("batch overloads","include/heffte_fft3d.h")])
p("C09","Transforms touch only the memory they were given",
  "A transform never writes outside the output array and workspace as sized by the library's own queries, never modifies a const input, and never reads an element it or the caller did not write. Passing the same array as input and output gives the same result as different arrays, and passing a workspace of the advertised size gives the same result as not passing one.",
  ["inputs","configurations"],
  "all configurations of C01-C03, all batch sizes, in place and out of place, own or internal workspace, ranks with empty or larger output than input boxes",
  "Overruns and use of uninitialised workspace are invisible to value comparisons on fresh memory, and the workspace arithmetic depends on the plan.",
  [S+"compute_transform.cpp",I+"fft3d.h",I+"fft3d_r2c.h",S+"reshape3d.cpp",I+"r2r_executor.h"],
  [("get_workspace_size","include/heffte_reshape3d.h / heffte_common.h"),("get_max_box_size","include/heffte_common.h"),("compute_transform","src/heffte_compute_transform.cpp")])
p("C10","Limiting the transform to fewer ranks changes who computes, not the result",
  "With the number of sub-ranks limited to m, results are identical to the unrestricted transform for any input and output distribution, while at most m ranks take part in the intermediate distributions and the one-dimensional transforms. Ranks outside the sub-set still send their input, receive their output and never deadlock. When a sub-communicator is given instead of a number, the same holds with its ranks as the ones that compute.",
  ["configurations","inputs"],
  "every m from 1 to the number of ranks and beyond, every partition including ones where idle ranks own large boxes, all algorithms, c2c and r2c",
  "test_subcomm uses one mesh on four to eight ranks with two or three values of m.",
  [S+"plan_logic.cpp",I+"plan_logic.h"],
  [("plan_options::use_num_subranks","include/heffte_plan_logic.h"),("plan_operations","src/heffte_plan_logic.cpp")])
p("C11","Inconsistent geometry and wrong sizes are rejected, valid ones never are",
  "With the library's assertions enabled (the default build), creating a transform whose input or output boxes overlap, leave gaps or do not start at index zero fails with std::invalid_argument on every rank, and input and output worlds that differ (up to the real-to-complex reduction) are never accepted. Passing a container smaller than the box to the container interface throws std::invalid_argument before any data is touched or sent, and larger containers are accepted. Every valid request is accepted: boxes in any order, empty boxes, any options; only a world with too few indexes for the number of ranks is declined, by an exception, on all ranks.",
  ["inputs"],
  "all families of boxes, in particular near misses of partitions (one box shifted, shrunk, duplicated, grown, as many cells too many in one place as missing in another), all world mismatches, all container sizes, all back ends and options",
  "There is a unit test for one overlapping pair and one missing brick; the validity test compares counts and pairwise intersections and must hold for every family of boxes.",
  [S+"plan_logic.cpp",I+"geometry.h",I+"fft3d.h",I+"fft3d_r2c.h"],
  [("plan_operations","src/heffte_plan_logic.cpp"),("world_complete","include/heffte_geometry.h"),("container overloads of forward/backward","include/heffte_fft3d.h")])
p("C12","A plan can be reused in any order and frees what it takes",
  "Any sequence of transforms on any number of live plans - forward and backward, different data, scales, batches and workspaces, moved plans - gives for every call the result a fresh plan would give. Destroying a plan releases every communicator it created and destroys nothing of the caller's, even when another plan is still alive.",
  ["histories"],
  "all finite histories of create, transform, move and destroy over several plans sharing a communicator",
  "Each test creates a plan, runs forward then backward once and exits; state kept between calls (buffers, cached engine plans, requests, communicators) is never observed.",
  [I+"fft3d.h",I+"fft3d_r2c.h",S+"reshape3d.cpp",I+"backend_fftw.h",I+"backend_mkl.h"],
  [("executors' cached plans","include/heffte_backend_*.h"),("workspace_buffer / shapers","include/heffte_fft3d.h"),("reshape3d_* constructors and destructors","src/heffte_reshape3d.cpp")],
  [("plans, requests, communicators","created once and reused by later calls","fft3d members")])
p("C13","Sine and cosine transforms compute the documented kernels and invert",
  "The cosine and sine transforms of types the back ends offer compute, along each direction, the documented DCT/DST sums on the whole distributed array, and the backward transform inverts the forward one up to the factor that get_scale_factor reports; full scaling makes the inverse exact. Results do not depend on the back end, distribution or order.",
  ["inputs","configurations"],
  "all lengths including odd and prime, all partitions, orders and options, backends fftw/mkl/stock with types II/III and I, batches, float and double",
  "test_cos has one fixed vector of 3 x 4 x 5-like meshes per transform and one brick grid.",
  [I+"r2r_executor.h",I+"fft3d.h",I+"backend_fftw.h",I+"backend_mkl.h",I+"backend_stock.h"],
  [("real2real_executor","include/heffte_r2r_executor.h"),("cpu_cos_pre_pos_processor, cpu_sin_..., cpu_cos1_...","include/heffte_r2r_executor.h"),("fftw_r2r_executor","include/heffte_backend_fftw.h"),("compute_transform real to real","src/heffte_compute_transform.cpp")])
p("C14","The C interface does what the C++ interface does and reports errors",
  "A transform created and executed through the C interface computes exactly what the C++ interface computes for the same boxes, options, precision and scaling, and the size queries return the same numbers. An invalid back end, option or geometry is reported by a non-zero status and never by an exception, a crash or a leaked or dangling plan.",
  ["histories","inputs"],
  "all call sequences of the C functions over c2c and r2c plans, single and double precision, forward/backward variants including buffered and batched ones, invalid arguments",
  "test_c.c does two transforms per precision on two ranks with default boxes; dispatch tables over back end, kind and direction are mostly unexecuted.",
  [S+"c.cpp",I+"c.h",I+"c_defines.h"],
  [("heffte_plan_create*, heffte_forward/backward_*","src/heffte_c.cpp"),("heffte_set_default_options","src/heffte_c.cpp")])
p("C15","The built-in one-dimensional engine computes the DFT of every length",
  "For every length N >= 1, stride, batch layout, direction and precision, the stock engine computes the DFT of each line: products of small primes, powers of two and three, primes, and lengths with large prime factors alike. Real-input and real-output variants agree with the complex one.",
  ["inputs"],
  "all lengths (composite with every factor, prime, prime powers), strides and distances, forward and backward, vectorised and scalar builds",
  "test_units_stock checks a list of small lengths of each radix; the factor tree composition depends on the full factorisation.",
  ["include/stock_fft/heffte_stock_algos.h","include/stock_fft/heffte_stock_tree.h","include/stock_fft/heffte_stock_complex.h","include/stock_fft/heffte_stock_vec_types.h",I+"backend_stock.h"],
  [("factor, init_fft_tree","include/stock_fft/heffte_stock_tree.h"),("composite_FFT, DFT, rader_FFT, pow2_FFT, pow3_FFT, pow4_FFT","include/stock_fft/heffte_stock_algos.h"),("plan_stock_fft","include/heffte_backend_stock.h")])
p("C16","Node-local engines transform the requested directions for any box layout",
  "A one-, two- or three-dimensional executor of any back end transforms exactly the requested directions of a local box and nothing else, whatever the box's size, position and memory order, in both directions, in and out of place where offered. The real-to-complex executor maps a box to its reduced box with the same memory order.",
  ["inputs","configurations"],
  "all box sizes and the six memory orders, all one/two/three direction choices, back ends fftw/mkl/stock, float/double, r2c and c2c, repeated use",
  "Unit tests use a 2x3x4 box in default order for a few directions; stride/distance/block arithmetic depends on the order and on which direction is asked for.",
  [I+"backend_fftw.h",I+"backend_mkl.h",I+"backend_stock.h",I+"common.h"],
  [("fftw_executor, mkl_executor, stock_fft_executor and *_r2c","include/heffte_backend_*.h"),("fft1d_get_howmany, fft1d_get_stride","include/heffte_common.h"),("make_executor","include/heffte_common.h / heffte_fft3d.h")])
p("C17","Tracing observes the computation without changing it",
  "Switching tracing on around any program changes no result and no communication. Every traced interval since the last initialisation (begun and ended after it) is recorded exactly once on the rank where it happened, with a start not before the initialisation, a non-negative duration and proper nesting within the other intervals of that rank. Finalisation writes one log per rank holding exactly those intervals in order, and a new initialisation starts from an empty record.",
  ["histories"],
  "all sequences of init/traced work/finalise on any number of ranks, including repeated and nested use, empty logs",
  "test_trace runs one session and looks at one file.",
  [I+"trace.h"],
  [("init_tracing, add_trace, finalize_tracing","include/heffte_trace.h")],
  [("event_log","deque of recorded intervals","include/heffte_trace.h")])
p("C18","The Python interface computes the same transforms and refuses wrong calls",
  "A plan made by heffte.fft3d or heffte.fft3d_r2c for any family of boxes (any order) on any mpi4py communicator reports the sizes of its boxes, and forward, backward, forward_buffered and backward_buffered put into the output array exactly the discrete Fourier transform (real-to-complex where asked) of the input array with the requested scaling, for every engine and both precisions; input arrays and memory around the arrays stay untouched. A call is carried out exactly when the lengths of the arrays are those of the boxes of its direction, the element types belong together (same precision, complex spectrum, real data for an r2c plan), the workspace is complex of that precision and at least size_workspace() long, and the scaling is one of heffte.scale; every other call, an unknown engine or r2c direction, and every plan the library declines raise heffte_input_error and change nothing, on every rank, and never crash. proc_setup gives a grid of the given number of ranks with the least surface, and split_world disjoint boxes of that grid that tile the world and have its order.",
  ["inputs","histories"],
  "all boxes, communicators, engines, element types, lengths, workspaces and scalings, in any sequence of plans and calls",
  "The two CPU scripts run one complex plan on one box layout with buffered calls only, and the pinned build does not even run those.",
  ["python/heffte.py"],
  [("fft3d, fft3d_r2c, heffte_fft_plan","python/heffte.py"),("proc_setup, split_world, box3d","python/heffte.py"),("heffte_plan_create, heffte_forward_*, heffte_backward_*","src/heffte_c.cpp")])
p("C19","The Fortran interface computes the same transforms and its variables own their plans",
  "A plan made through any constructor of the Fortran classes heffte_fft3d_<backend> and heffte_fft3d_r2c_<backend> (corners with or without orders, with or without options) for any family of boxes on any communicator reports the sizes and scale factors of its boxes, and every overload of forward and backward (real or complex, single or double precision, with or without batch, workspace and scaling) puts into the output exactly what the C++ plan would: the discrete Fourier transform with the requested scaling; input and surrounding memory stay untouched. A plan lives exactly as long as the variable it was made for keeps it: it is destroyed, with its communicators, once, when that variable is released, given a new plan or assigned another variable; assigning a variable to another makes the target a second name for the same plan and never affects any other plan; a call through a variable without plan sets ierr, touches nothing and does not crash.",
  ["inputs","histories"],
  "all boxes, communicators, overloads and engines, and all sequences of making, assigning, using and releasing variables",
  "The Fortran test makes one complex double precision plan on two ranks; assignment of variables, r2c, batches, workspaces and orders are never used.",
  ["fortran/generated/heffte_fftw.f90","fortran/generated/heffte_fftwFORTRAN_wrap.cxx","fortran/heffte.cmake.i"],
  [("constructors, forward, backward, release","fortran/generated/heffte_fftw.f90"),("_wrap_*, SWIG_assign","fortran/generated/heffte_fftwFORTRAN_wrap.cxx")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
