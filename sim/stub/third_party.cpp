// Stand-ins for the parts of the tools whose third-party libraries (dr_wav, iir1, dj_fft) are not
// installed here: WAV input is refused, WAV output is written through a plain C++ stream.
#include <Encoder/include/PcmEncoder.h>
#include <Tools/include/WavParser.h>
#include <cstdlib>
#include <fstream>

namespace haptics::encoder {
auto PcmEncoder::encode(std::string &, EncodingConfig &, unsigned int, types::Perception &) -> int {
  return EXIT_FAILURE;
}
} // namespace haptics::encoder
namespace haptics::tools {
auto WavParser::saveFile(const std::string &filename, const std::vector<std::vector<double>> &buff, int sampleRate)
    -> bool {
  std::ofstream out(filename, std::ios::binary);
  out << "WAVE " << buff.size() << " channels " << sampleRate << " Hz\n";
  for (const auto &c : buff) {
    out.write(reinterpret_cast<const char *>(c.data()), (std::streamsize)(c.size() * sizeof(double)));
  }
  out.close();
  return out.good();
}
} // namespace haptics::tools
