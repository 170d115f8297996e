#pragma once
#include "absl/status/status.h"
#include "obr/audio_buffer/audio_buffer.h"
#include "obr/renderer/audio_element_type.h"
namespace obr { class ObrImpl { public: ObrImpl(int, int); absl::Status AddAudioElement(AudioElementType); void Process(const AudioBuffer&, AudioBuffer*); size_t GetNumberOfInputChannels() const; size_t GetNumberOfOutputChannels() const; }; }
