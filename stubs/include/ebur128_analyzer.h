#pragma once
#include <cstdint>
#include <optional>
#include <vector>
namespace loudness {
class EbuR128Analyzer {
 public:
  enum SampleFormat { S16, S32, FLOAT, DOUBLE };
  enum SampleLayout { INTERLEAVED, PLANAR_CONTIGUOUS, PLANAR_NON_CONTIGUOUS };
  EbuR128Analyzer(int32_t, const std::vector<float>&, int32_t, bool);
  void Process(const void*, int64_t, SampleFormat, SampleLayout);
  std::optional<float> GetRelativeGatedIntegratedLoudness() const;
  float digital_peak_dbfs() const; float true_peak_dbfs() const;
};
}
