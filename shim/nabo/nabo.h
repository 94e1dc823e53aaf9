// Stand-in for libnabo (not installed): exact brute-force nearest neighbours.
#pragma once
#include <Eigen/Dense>
#include <limits>
#include <utility>
#include <vector>
#include <algorithm>
namespace Nabo {
template <typename T, typename Cloud = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>
struct NearestNeighbourSearch {
  typedef Eigen::Matrix<T, Eigen::Dynamic, 1> Vector;
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> Matrix;
  typedef int Index;
  typedef Eigen::Matrix<Index, Eigen::Dynamic, Eigen::Dynamic> IndexMatrix;
  enum SearchType { BRUTE_FORCE, KDTREE_LINEAR_HEAP, KDTREE_TREE_HEAP };
  enum SearchOptionFlags { ALLOW_SELF_MATCH = 1, SORT_RESULTS = 2 };
  static constexpr Index InvalidIndex = -1;
  static constexpr T InvalidValue = std::numeric_limits<T>::infinity();
  Matrix cloud;
  Index dim;
  virtual ~NearestNeighbourSearch() {}
  template <class M>
  static NearestNeighbourSearch* create(const M& c, Index d = 3, SearchType = KDTREE_LINEAR_HEAP) {
    auto* n = new NearestNeighbourSearch;
    n->cloud = c;
    n->dim = d;
    return n;
  }
  template <class Q, class IM, class DM>
  unsigned long knn(const Q& q, IM& ids, DM& dists, Index k = 1, T = 0, unsigned = 0) const {
    for (int i = 0; i < q.cols(); i++) {
      std::vector<std::pair<T, int>> v;
      for (int j = 0; j < cloud.cols(); j++) {
        T d = 0;
        for (int r = 0; r < dim; r++) {
          T e = q(r, i) - cloud(r, j);
          d += e * e;
        }
        v.push_back({d, j});
      }
      std::sort(v.begin(), v.end());
      for (int a = 0; a < k; a++) {
        ids(a, i) = a < (int)v.size() ? v[a].second : InvalidIndex;
        dists(a, i) = a < (int)v.size() ? v[a].first : InvalidValue;
      }
    }
    return 0;
  }
};
template <typename T, typename C>
constexpr typename NearestNeighbourSearch<T, C>::Index NearestNeighbourSearch<T, C>::InvalidIndex;
template <typename T, typename C>
constexpr T NearestNeighbourSearch<T, C>::InvalidValue;
}  // namespace Nabo
