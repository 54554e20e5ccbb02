//@property: C12
//@stubs: 1
//@assume: bounded: matrices with blocks of 2x2 tiles and up to 4x2 tiles in all, tiles of 3x2 elements (block layout)
// Where the tiles of a matrix allocated by blocks are stored.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <matrix/tile.cpp>
#include <matrix.cpp>
#include <tune.cpp>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/communicator_grid.cpp>
#include "c02_common.h"
using namespace dlaf::matrix;
namespace tt = pika::this_thread::experimental;
using T = double;

template <long R, long C> static void blocks(int kind, long w, long v, long ld) {
  // the tile sizes are fixed: 3x2 tiles
  const long nb = 3, mb = 2;
  vc_join("Tile<|TileData<|_tile_element");
  const Distribution d(GlobalElementSize((R - 1) * nb + w, (C - 1) * mb + v), GlobalElementSize(2 * nb, 2 * mb), TileElementSize(nb, mb), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0));
  vc_cover("any");
  using A = umpire::Allocator;
  A::record = true;
  const int first = A::count;
  const long heap = vc_live_heap();
  {
    Matrix<T, Device::CPU> m(d, AllocationSpec(AllocationLayout::Blocks, kind == 0 ? LdSpec(Ld::Compact) : LdSpec(ld)));
    vc_assert(m.allocation_layout() == AllocationLayout::Blocks, "layout");
    vc_assert(A::count - first == ((R + 1) / 2) * ((C + 1) / 2), "one region for each block");
    for (long j = 0; j < C; ++j)
      for (long i = 0; i < R; ++i) {
        auto t = tt::sync_wait(m.read(LocalTileIndex(i, j)));
        const long rows = i + 1 < R ? nb : w, cols = j + 1 < C ? mb : v;
        vc_assert(t.get().size() == TileElementSize(rows, cols), "size of the tile");
        const long bi = i / 2, bj = j / 2;
        const long brows = 2 * bi + 1 < R ? nb + (2 * bi + 2 < R ? nb : w) : w, bcols = 2 * bj + 1 < C ? mb + (2 * bj + 2 < C ? mb : v) : v;
        const long bld = kind == 0 ? brows : ld;
        vc_assert(t.get().ld() == bld, "leading dimension");
        const int b = first + (int) (bi + bj * ((R + 1) / 2));
        vc_assert(vc_same(t.get().ptr(), (const T*) A::all[b] + ((i % 2) * nb + bld * ((j % 2) * mb))), "place of the tile in its block");
        vc_assert(A::sizes[b] >= (brows + bld * (bcols - 1)) * sizeof(T), "enough memory for the block");
        vc_assert(vc_alive(t.get().ptr()), "memory in use");
      }
  }
  vc_assert(vc_live_heap() == heap, "all memory is released with the matrix");
}
VC_PROOF(blocks_1_1, "") { blocks<1, 1>(0, 2, 1, 0); }
VC_PROOF(blocks_2_2, "") { blocks<2, 2>(0, 1, 2, 0); }
VC_PROOF(blocks_3_3, "") { blocks<3, 3>(0, 2, 1, 0); }
VC_PROOF(blocks_4_2, "") { blocks<4, 2>(0, 3, 1, 0); }
VC_PROOF(blocks_ld_2_3, "") { blocks<2, 3>(1, 3, 1, 7); }
VC_PROOF(blocks_ld_3_2, "") { blocks<3, 2>(1, 1, 2, 6); }
VC_PROOF(blocks_ld_1_4, "") { blocks<1, 4>(1, 1, 1, 9); }
