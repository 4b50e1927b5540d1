// Independent JPEG generator: builds byte streams of baseline / extended
// sequential / progressive Huffman JPEGs from a seed. Shares no code with the
// library under test (stock tables/markers come from the pinned snapshot).
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "rng.h"

struct GenOptions {
  int max_blocks = 600;      // upper bound on total number of 8x8 blocks
  bool photo = false;        // force photo-like content, standard layout
  bool legal = false;        // only emit streams within the JPEG specification
                             // and free of exotic byte-level quirks
  bool big = false;          // prefer large images
  bool tiny = false;
  bool simple_meta = false;  // few metadata bytes
  int force_progressive = -1;
  int force_ncomp = 0;
  bool groups_friendly = false;  // sampling factors are powers of two
  int fixed_w = 0, fixed_h = 0;
  int style = -1;            // coefficient style (see Coeffs)
  int period = 0;            // of the blocks left empty by style 10
  bool no_breaks = false;    // no random outlier blocks
  size_t meta_bytes = 0;     // at least so many bytes of APP segments
  int redefine_tables = 0;   // so many extra definitions of Huffman tables
  bool quant_extremes = false;
  bool max_eob_runs = false;
  double garbage = 0;        // share of markers preceded by garbage bytes
  int shadow_segments = 0;   // n>0: place n APP/COM payloads holding markers
};

struct GenInfo {
  int width = 0, height = 0, ncomp = 0, nscans = 0, blocks = 0;
  bool progressive = false;
  std::vector<std::string> features;   // labels for coverage evidence
  void F(const std::string& s) { features.push_back(s); }
  // segment boundaries (offsets of each marker in the output)
  std::vector<size_t> marks;
};

std::string GenJpeg(uint64_t seed, const GenOptions& opt, GenInfo* info);

// Mutates JPEG bytes (marker aware and blind).
std::string MutateJpeg(const std::string& in, Rng* rng);
