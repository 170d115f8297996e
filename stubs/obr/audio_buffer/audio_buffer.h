#pragma once
#include <cstddef>
namespace obr {
class AudioBuffer {
 public:
  class Channel { public: float& operator[](size_t); const float& operator[](size_t) const; size_t size() const; float* begin(); float* end(); const float* begin() const; const float* end() const; };
  AudioBuffer(); AudioBuffer(size_t, size_t);
  size_t num_channels() const; size_t num_frames() const;
  Channel& operator[](size_t); const Channel& operator[](size_t) const;
};
}
