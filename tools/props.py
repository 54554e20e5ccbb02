"""source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None, claimed=True, na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), note))
    if na:
        NA.append(dict(property=id, reason=na))

prop('C01', 'Block-cyclic distribution index maps are exact and mutually inverse',
     'For every dimension length, tile size, number of tiles per distribution block, number of ranks, source rank and offset: every element belongs to exactly one tile and every tile to exactly one rank, and the maps between global index, owner, local index and position in the tile are exact inverses of each other. A rank that does not own a tile is told so and never given a local index. "The next local tile" at or after a global tile is the local index of the first tile at or after it that this rank owns, and local tiles are numbered in increasing global order without gaps.',
     ['inputs', 'configurations'], 'all tile indices, element indices, block sizes, tiles per block, grid sizes, ranks, source ranks, offsets in the stated integer ranges',
     'test_util_distribution samples a handful of (grid, block, offset) tuples; the statement quantifies over all of them and over pairs of ranks',
     ['include/dlaf/matrix/util_distribution.h'],
     [('element/tile maps', 'include/dlaf/matrix/util_distribution.h: tile_from_element, tile_element_from_element, element_from_tile_and_tile_element'),
      ('owner', 'rank_global_tile'), ('local index', 'local_tile_from_global_tile, global_tile_from_local_tile, next_local_tile_from_global_tile')],
     'nonlinear integer VCs over the LLVM IR of the real functions, all inputs in the stated ranges (sizes < 2^40, ranks < 2^20)')
prop('C02', 'Distributions partition a matrix exactly; all ways to build one agree',
     'For every size, tile size, block size (a multiple of the tile size), process grid, source rank, offset and rank, a Distribution gives every element exactly one tile, one position and one owner, dealing whole blocks round robin from the source rank; its numbers of global and local tiles and blocks and its local sizes count exactly what each rank owns (nothing for an empty matrix), tiles are not empty and cover the matrix without gaps, and global and local indices of tiles and elements are inverse to each other, on the own and on any other rank. Whole blocks of offset only rotate the source rank, and all constructors, and slicing a sub-matrix out of another distribution, give the same distribution as building it directly, so that indices in a sub-matrix refer to the same tile, position and owner as in the matrix. Distances between tiles, linear tile numbers and the view of blocks as tiles agree with these; copies are equal, and moved-from distributions are empty.',
     ['inputs', 'configurations'], 'all sizes, tile and block sizes, grids, ranks, source ranks, offsets, elements, tiles and sub-matrices in the stated integer ranges',
     'test_distribution samples some dozens of literal parameter tuples; the statement quantifies over all of them, and over pairs of ranks and sub-matrices',
     ['include/dlaf/matrix/distribution.h', 'src/matrix/distribution.cpp', 'include/dlaf/matrix/distribution_extensions.h', 'include/dlaf/matrix/util_distribution.h'],
     [('construction', 'src/matrix/distribution.cpp: Distribution constructors, compute_global_nr_tiles, compute_local_nr_tiles_and_local_size, normalize_source_rank_and_offset'), ('index maps and sizes', 'include/dlaf/matrix/distribution.h: 1D helpers, nr_blocks, local_nr_blocks'), ('other ranks, sub-distributions, distances', 'include/dlaf/matrix/distribution_extensions.h'), ('blocks as tiles', 'src/matrix/distribution.cpp: create_single_tile_per_block_distribution')],
     'nonlinear integer VCs over the LLVM IR of the real classes with a ghost mixed-radix description of an arbitrary distribution; joins justified by proved closed forms (sizes < 2^40, tiles and ranks < 2^20)')
prop('C03', '2D indices, sizes and index ranges enumerate a grid exactly once, in order',
     'Linear and 2D coordinates of a grid are inverse bijections in both orderings, for every grid whose coordinates fit the index type, including grids whose number of cells does not fit it. Iterating over a 2D range visits every index of the half-open box exactly once, in column-major order, and visits nothing else. Comparisons, containment, transposition and arithmetic of indices and sizes are component-wise.',
     ['inputs', 'programs'], 'all coordinates, sizes, ranges and orderings of the 32- and 64-bit index types',
     'tests use grids of a few cells; overflow, empty dimensions and non-origin ranges are only reached for all-input reasoning',
     ['include/dlaf/common/index2d.h', 'include/dlaf/common/range2d.h'],
     [('linear <-> 2D', 'include/dlaf/common/index2d.h: computeCoords, computeLinearIndex, computeLinearIndexColMajor/RowMajor'), ('ranges', 'include/dlaf/common/range2d.h: iterate_range2d, IterableRange2D'), ('index algebra', 'include/dlaf/common/index2d.h: Index2D, Size2D, basic_coords')],
     'range arithmetic on 64-bit intermediates; iterator step proved as an induction step (position k -> k+1)')
prop('C04', 'Integer conversions and index helpers are exact or rejected',
     'Converting an integer to another integer type yields the same mathematical value, or the program is stopped: no conversion silently wraps, truncates or changes sign. Rounded-up division, and the sums and products of sizes, give the mathematical result whenever it is representable and are rejected when it is not. Converting a percentage of a range to an index never leaves the range.',
     ['inputs'], 'all values of the 8- to 64-bit signed and unsigned types',
     'tests check a few boundary values per type pair',
     ['include/dlaf/types.h', 'include/dlaf/util_math.h'],
     [('conversions', 'include/dlaf/types.h: to_signed, to_unsigned, integral_cast, to_int, to_uint, to_SizeType, to_sizet'), ('rounding and checked arithmetic', 'include/dlaf/util_math.h: ceilDiv, sum, mul')],
     'bit-precise integer semantics, every value of each type')
prop('C05', 'Interleaved split points are exactly the block boundaries of the two partitions',
     'Given a length, a block size and the first-block sizes of two partitions of the same interval, the computed split points start at 0, end at the length, increase strictly, and contain a point if and only if it is a block boundary of at least one of the two partitions.',
     ['inputs'], 'all lengths, block sizes and offsets, any number of split points',
     'tests compare four literal vectors; the number of points is unbounded',
     ['include/dlaf/matrix/util_distribution.h', 'include/dlaf/util_math.h'],
     [('split points', 'interleaveSplits')],
     'loop invariant with ghost state over the sequence of appended points; std::vector growth operations replaced by contracts')
prop('C06', 'Strided data is described, copied and buffered element by element',
     'A description of (possibly strided) memory keeps the pointer, number, size and distance of its blocks; it is reported contiguous exactly when its elements are adjacent, and copying between any two layouts moves logical element i to logical element i for every i, writing nothing between the blocks. Temporary buffers have room for every element, are only used for non-contiguous data, and are released exactly once.',
     ['inputs', 'histories'], 'all block counts, block sizes, strides and both layouts of source and destination',
     'tests copy a few small arrays; the property is about every element of every layout and about the bytes in between',
     ['include/dlaf/common/data.h', 'include/dlaf/common/data_descriptor.h'],
     [('description', 'include/dlaf/common/data_descriptor.h: DataDescriptor'), ('copy', 'include/dlaf/common/data.h: copy'), ('buffers', 'include/dlaf/common/data_descriptor.h: Buffer, create_temporary_buffer, make_contiguous')],
     'pointwise memory contract of the copy proved with loop invariants for an arbitrary element and an arbitrary gap byte')
prop('C07', 'Messages select exactly the described elements and leak no MPI datatype',
     'The address, count and datatype handed to MPI for a piece of data select exactly its elements, with the MPI type of their C++ type; sizes that do not fit the MPI interface are rejected, never truncated. Every derived datatype is committed before use, is freed exactly once, and never before the last message that uses it, under any sequence of construction, move and destruction; basic datatypes are never freed. A failing MPI call stops the program and is never ignored.',
     ['inputs', 'histories', 'fault_sequences'], 'all layouts, all sequences of moves, any MPI call failing',
     'test_message checks a few layouts with a real MPI that tolerates leaks and never fails',
     ['include/dlaf/communication/message.h', 'include/dlaf/communication/type_handler.h', 'include/dlaf/communication/datatypes.h', 'src/communication/datatypes.cpp', 'include/dlaf/communication/error.h'],
     [('message', 'include/dlaf/communication/message.h: Message'), ('datatype ownership', 'include/dlaf/communication/type_handler.h'), ('type map', 'src/communication/datatypes.cpp'), ('error check', 'include/dlaf/communication/error.h')],
     'ghost model of MPI_Type_* states the MPI contract; ownership invariant proved operation by operation')
prop('C08', 'Communicator handles keep rank, size and ownership straight',
     'A communicator handle and all its copies report the rank, size and MPI communicator they were created from; a null handle has no ranks. A managed communicator is freed exactly once, when the last of its handles disappears, in whatever order they do; a wrapped one is never freed, and the world and null communicators can never be managed. A clone is a new communicator with the same ranks and its own lifetime.',
     ['histories', 'inputs', 'fault_sequences'], 'all ranks and sizes, all orders of copy, assignment, move and destruction, any MPI call failing',
     'test_communicator runs on 4 ranks with one history each, and MPI does not report a double free or leak of a communicator handle reliably',
     ['include/dlaf/communication/communicator.h', 'src/communication/communicator.cpp', 'src/communication/communicator_impl.cpp', 'src/communication/communicator_impl.h'],
     [('handle', 'src/communication/communicator.cpp'), ('ownership', 'src/communication/communicator_impl.cpp: CommunicatorImpl_Managed')],
     'ghost model of MPI_Comm_*; std::shared_ptr executed as compiled')
prop('C09', 'Blocking reductions deliver every element and touch nothing else',
     'After a blocking reduction, in place or not, every element of the output at the root (at every rank for an all-reduce) holds the reduction of that element over the ranks, whatever the strides of the operands; memory between the blocks, inputs, and outputs of non-root ranks are unchanged. Exactly one collective call is made, with all the elements, the operation, the root and the communicator asked for; a root outside the communicator is rejected. Point-to-point transfers send and receive exactly the described elements, and temporaries are always released.',
     ['inputs', 'configurations', 'fault_sequences'], 'all layouts of input and output, all communicator sizes, ranks and roots, any MPI call failing',
     'these wrappers have no test that runs here, and a test samples a few layouts and ranks',
     ['include/dlaf/communication/sync/reduce.h', 'include/dlaf/communication/sync/all_reduce.h', 'include/dlaf/communication/sync/basic.h', 'include/dlaf/common/data.h', 'include/dlaf/common/data_descriptor.h'],
     [('reduce', 'include/dlaf/communication/sync/reduce.h'), ('all-reduce', 'include/dlaf/communication/sync/all_reduce.h'), ('send/receive', 'include/dlaf/communication/sync/basic.h')],
     'ghost MPI collectives with the MPI contract; strided copies by contract, the contract proved by the same check')
prop('C10', 'Communicator grids connect exactly the right processes',
     'For every number of processes and grid shape, a communicator grid gives every position to exactly one process, in the requested order; its row, column and full communicators connect exactly the processes of that row, of that column and of the grid, numbered as rankFullCommunicator and the positions say. Every pipeline works on its own duplicate of its communicator, knows the position and size of the grid, and is used in turn; processes outside get an empty grid but take part in all collective calls, and a grid with more positions than processes is rejected. All communicators made for a grid are released exactly once with it and no failed MPI call is ignored.',
     ['inputs', 'configurations', 'fault_sequences'], 'all process counts and grid shapes representable in int, all ranks, both orderings, any MPI call failing',
     'the grid tests need 6 MPI ranks and fixed shapes; wrong neighbours for other shapes appear as hangs or wrong results far away',
     ['include/dlaf/communication/communicator_grid.h', 'src/communication/communicator_grid.cpp', 'include/dlaf/communication/communicator_pipeline.h', 'include/dlaf/common/round_robin.h', 'include/dlaf/common/pipeline.h', 'include/dlaf/sender/transform_mpi.h'],
     [('grid construction', 'src/communication/communicator_grid.cpp'), ('pipelines of communicators', 'include/dlaf/communication/communicator_pipeline.h'), ('turns', 'include/dlaf/common/round_robin.h')],
     'two arbitrary processes of one grid compared (relational proof) over ghost MPI_Comm_split calls; pipelines per communicator bounded by 2; pika replaced by the sequential stand-in of /verif/stubs')
prop('C11', 'Memory is released exactly once and views refer to the right elements',
     'Every memory chunk that was allocated is large enough for its elements and is released exactly once, when the last view (or chunk) referring to it goes, however views are copied, moved, assigned or made read-only; memory handed in by the user is never released. A subview of n elements at offset o refers to exactly the elements o..o+n-1 of its view, for nested views too, and a subview that exceeds its view is rejected. Views and chunks without elements have no memory, and moving leaves the source empty.',
     ['inputs', 'histories'], 'all sizes, offsets and indices below 2^40 elements, element types of 1, 4, 8 and 16 bytes, all chains of copy, move, assignment and conversion written down in the proofs',
     'tests use a few sizes and cannot see leaks, double frees or accesses just outside the memory',
     ['include/dlaf/memory/memory_chunk.h', 'include/dlaf/memory/memory_view.h', 'src/memory/memory_chunk.cpp'],
     [('chunk', 'include/dlaf/memory/memory_chunk.h'), ('view', 'include/dlaf/memory/memory_view.h')],
     'symbolic sizes and offsets; lifetimes checked by the verifier heap model; the umpire allocator is trusted (stubs/umpire)')
prop('C13', 'Tiles and subtiles address the right elements and keep exclusive access',
     'Element (i, j) of a tile is at position i + ld*j of its memory, different elements have different positions inside it, and element (i, j) of a subtile at (oi, oj) is element (oi+i, oj+j) of its tile, for nested subtiles too; tiles that do not fit their memory, subtiles that do not fit their tile and overlapping disjoint subtiles are rejected. Moving a tile leaves an empty one. Subtiles and read-only shares of a requested tile become available exactly when the tile would have, and the next access to the tile waits until all of them are gone, in whatever order that happens.',
     ['inputs', 'schedules', 'histories'], 'all tile shapes, leading dimensions and subtile positions below 2^24; all orders of starting and releasing three subtiles',
     'tests use a handful of shapes, and a lost dependency only shows as a rare race',
     ['include/dlaf/matrix/tile.h', 'src/matrix/tile.cpp', 'include/dlaf/matrix/internal/tile_pipeline.h', 'include/dlaf/memory/memory_view.h'],
     [('element addresses', 'include/dlaf/matrix/tile.h'), ('subtiles', 'include/dlaf/matrix/tile.h'), ('access chain', 'include/dlaf/matrix/internal/tile_pipeline.h')],
     'addresses for symbolic shapes; access chains on the sequential stand-in for pika with 3 subtiles (bounded), all release orders')
prop('C12', 'Every tile of a matrix has its own place in memory, of the right size',
     'Whatever the allocation layout and leading dimension asked for, every local tile of a matrix has the size its distribution says and a leading dimension large enough, lies inside memory allocated for the matrix, and no two tiles share an element; in the column-major layout local element (i, j) is at position i + ld*j, in the other layouts every tile or block is stored by itself. A matrix over memory of the user uses exactly that memory, as the layout says, and neither allocates nor releases any. Memory allocated for a matrix is released with it, and invalid leading dimensions, layouts of another size and distributions with an offset are rejected.',
     ['inputs', 'configurations'], 'all matrix and tile sizes below 2^24 per dimension, numbers of processes, ranks and offsets, leading dimensions below 2^25',
     'tests fix small shapes; two tiles overlapping for others silently corrupts data',
     ['include/dlaf/matrix/matrix.h', 'include/dlaf/matrix/col_major_layout.h', 'src/matrix/col_major_layout.cpp', 'include/dlaf/matrix/allocation.h', 'include/dlaf/matrix/create_matrix.h'],
     [('column-major layout', 'include/dlaf/matrix/col_major_layout.h'), ('allocation', 'include/dlaf/matrix/matrix.h: set_up_non_preallocated_tiles'), ('user memory', 'include/dlaf/matrix/create_matrix.h')],
     'loop invariants over the tiles created; the layout by blocks only bounded (up to 4x2 tiles of fixed sizes)')
prop('C14', 'Accesses to the tiles of a matrix are granted in program order',
     'An access to a tile is granted when, and only when, all conflicting accesses to the same tile requested before it (through the matrix, a reference to it or a sub-pipeline) are over: reads share a tile, writes are exclusive, accesses to different tiles never wait for each other, and every granted access refers to the memory of the tile asked for. Accesses through a sub-pipeline, retiled or not, come after those requested before it was made and before those requested later, whatever the order in which they are actually started; an unused sub-pipeline or dropped access blocks nothing. Waiting for the local tiles returns only after all accesses are over, and tiles marked as done or that do not exist cannot be accessed; sub-pipelines have the distribution and layout of their matrix.',
     ['schedules', 'histories'], 'all orders of starting and releasing up to three accesses (four with sub-pipelines) of any kind to a 2x2-tile matrix',
     'a missing or superfluous dependency shows only under some schedules, as a race or a deadlock',
     ['include/dlaf/matrix/matrix.h', 'include/dlaf/matrix/matrix_base.h', 'include/dlaf/matrix/matrix_ref.h', 'include/dlaf/matrix/internal/tile_pipeline.h', 'include/dlaf/matrix/tile.h'],
     [('accesses', 'include/dlaf/matrix/matrix.h'), ('sub-pipelines', 'include/dlaf/matrix/matrix.h: set_up_sub_pipelines'), ('retiled', 'include/dlaf/matrix/matrix.h: set_up_retiled_sub_pipelines')],
     'histories of bounded length over the sequential stand-in for pika; every order of requests, starts and releases explored symbolically')
prop('C15', 'References to and views of a part of a matrix have exactly its elements',
     'A view of a matrix (SubMatrixView, SubPanelView) iterates over exactly the local tiles with elements not before its corner, and gives for each of them exactly the elements of the view in it: every element of the part is in exactly one of the subtiles, none outside the part is, and no subtile reaches out of its tile. The same holds for a reference to a sub-matrix: the tile it gives for its element (i, j) holds the element (i, j) counted from the origin of the reference.',
     ['inputs', 'configurations'], 'all distributions (sizes, tiles, blocks of tiles, offsets, grids, ranks) below 2^40 / 2^20, all corners and sizes',
     'algorithms on trailing parts take everything from views; an element dropped or taken twice for an unusual offset gives silently wrong results',
     ['include/dlaf/matrix/views.h', 'include/dlaf/matrix/matrix_ref.h', 'include/dlaf/matrix/distribution.h'],
     [('sub-matrix view', 'include/dlaf/matrix/views.h: SubMatrixView'), ('panel view', 'include/dlaf/matrix/views.h: SubPanelView'), ('reference', 'include/dlaf/matrix/matrix_ref.h')],
     'one dimension at a time, the other one with fixed sizes')
prop('C16', 'Panels keep exactly the tiles of their range, and tiles from outside until reset',
     'A panel (Panel, all axes and storages) made for a distribution accepts exactly the local tiles in its range, gives for each of them a tile of the size of the tile of the matrix (less the part before its first element, and of the width or height that was set) and keeps different tiles in different memory; resetting it restores the full sizes. A tile set from outside is what a reader gets until the reset, and only until then does the panel hold it; no tile from outside is written to, replaced, or set after the own tile was used. Accesses to the same tile are granted in program order.',
     ['inputs', 'histories'], 'ranges and sizes: all distributions without offset below 2^40 / 2^20 and all ranges; histories: panels of three tiles, bounded',
     'all distributed algorithms keep the tiles they broadcast and update in panels; stale offsets, sizes or tiles give silently wrong results in the following steps',
     ['include/dlaf/matrix/panel.h'],
     [('ranges and sizes', 'include/dlaf/matrix/panel.h: Panel (setRange, setRangeStart, setWidth, tileSize)'), ('tiles from outside', 'include/dlaf/matrix/panel.h: setTile, read, readwrite, reset')],
     'ranges and sizes are proved for all distributions; setTile/reset histories are bounded (three tiles)')
#INSERT
if __name__ == '__main__':
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for p, _ in P:
            f.write(json.dumps(p) + '\n')
    na = {x['property'] for x in NA}
    checks = []
    for p, note in P:
        if p['id'] in na:
            continue
        checks.append(dict(property=p['id'], quick_cmd='engine/check ' + p['id'], thorough_cmd='VERIF_TIER=thorough engine/check ' + p['id'],
                           technique='contract-based deductive verification of the compiled C++ (LLVM IR VCs discharged by z3/cvc5)', level='proof', level_note=note,
                           evidence_file='evidence/%s.json' % p['id']))
    json.dump(dict(version=1, setup_cmd='engine/setup', checks=checks, not_applicable=NA,
                   notes='No hooks: the contracts live in /verif/harness and are bound to the real functions by symbol; see DESIGN.md.'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
    for p, _ in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
