// Helpers of the harnesses that work with matrices on the task runtime stand-in.
#pragma once
#include "vf.h"
#include <pika/mini.hpp>
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/allocation.h>
#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/create_matrix.h>
namespace mx {
using namespace dlaf;
using matrix::Distribution;
template <class T> using Mat = matrix::Matrix<T, Device::CPU>;
namespace tt = pika::this_thread::experimental;
// visit all the elements stored on this rank: f(i, j, reference)
template <class T, class F> void each(Mat<T>& m, F f) {
  const auto& d = m.distribution();
  for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
      auto t = tt::sync_wait(m.readwrite(LocalTileIndex(i, j)));
      const GlobalTileIndex g = d.global_tile_index(LocalTileIndex(i, j));
      for (SizeType b = 0; b < t.size().cols(); ++b)
        for (SizeType a = 0; a < t.size().rows(); ++a)
          f(d.template global_element_from_global_tile_and_tile_element<Coord::Row>(g.row(), a), d.template global_element_from_global_tile_and_tile_element<Coord::Col>(g.col(), b), t({a, b}));
    }
}
}
