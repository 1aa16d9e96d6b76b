#pragma once
#include "sym.h"
#include <vector>
#include <string>
#include <cstring>
#include <array>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <sstream>
#include <iostream>
#include <fstream>
#include <memory>
#include <iomanip>
#include <iterator>
#include <functional>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <chrono>
#include <thread>
#include <random>
#include <set>
#include <utility>
#include <stack>
#include <limits>
#define private public
#define protected public
#include "init.hpp"
#include "position.hpp"
#include "generateMoves.hpp"
#include "usi.hpp"
#undef private
#undef protected
#define NOINLINE __attribute__((noinline))
#define HARNESS extern "C" __attribute__((used, noinline)) void

// ---- coordinates used by the reference rules (file 0..8 = 1..9, rank 0..8 = a..i)
static inline int SQ(int f, int r) { return f * 9 + r; }
static inline int FL(int sq) { return sq / 9; }
static inline int RK(int sq) { return sq % 9; }
static inline bool ON(int f, int r) { return f >= 0 && f < 9 && r >= 0 && r < 9; }
// Bitboard from/to 81-bit sets, using only the documented layout: 63 squares low, 18 high.
struct Set81 { uint64_t w[2]; };
static inline uint64_t bbit(const uint64_t w[2], int sq) { return (sq < 63 ? w[0] >> sq : w[1] >> (sq - 63)) & 1; }
#define BASIC_INIT extern "C" __attribute__((used, noinline)) void sym_init() { initTable(); Position::initZobrist(); }
