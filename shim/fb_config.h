// Another configuration of FBTree (its config.h with other documented values), chosen by FB_CFG.
#ifndef INDEXRESEARCH_CONFIG_H
#define INDEXRESEARCH_CONFIG_H
#include <string>
namespace FeatureBTree {
enum CompareMode { SIMD512, SIMD256, SIMD128 };
struct Config {
#if FB_CFG == 1      // small nodes, one feature byte
  static constexpr CompareMode kCmpMode = SIMD128; static constexpr int kFeatureSize = 1, kInnerSize = 16, kLeafSize = 16, kAlignSize = 32; static constexpr bool kExtentOpt = false;
#elif FB_CFG == 2    // small nodes, anchors in extents
  static constexpr CompareMode kCmpMode = SIMD128; static constexpr int kFeatureSize = 2, kInnerSize = 16, kLeafSize = 16, kAlignSize = 64; static constexpr bool kExtentOpt = true;
#elif FB_CFG == 3    // middle-sized inner nodes, wide features
  static constexpr CompareMode kCmpMode = SIMD256; static constexpr int kFeatureSize = 8, kInnerSize = 32, kLeafSize = 32, kAlignSize = 32; static constexpr bool kExtentOpt = false;
#endif
  static constexpr int kInnerMergeSize = kInnerSize / 2, kLeafMergeSize = kLeafSize / 2;
  static constexpr bool kNodePrefetch = true; static constexpr int kPrefetchSize = 4, kSpinInit = 3, kSpinInc = 2, kExtentSize = 2048;
};
inline std::string compare_mode() { return "other"; }
}  // namespace FeatureBTree
#endif
