// Model of the operating-system calls random/randombytes.c may make; every answer is a choice point.
#pragma once
#include "core.hpp"
namespace os {
struct Explorer {                       // stateless search over answer sequences, bounded deviations from the ideal answer
    std::vector<int> choice, alts;      // decisions of this run and how many alternatives each had
    size_t at = 0; int deviations = 0, bound = 3; bool overflow = false;
    std::string log;
    void begin() { at = 0; deviations = 0; log.clear(); overflow = false; }
    int pick(int n, const char *what);  // 0 = ideal answer
    bool next();                        // advance to the next answer sequence; false when all were explored
};
extern bool active; extern Explorer ex;
struct World {
    Bytes delivered; uint8_t *buf = nullptr; size_t len = 0; int unsupported = 0; bool ioctl_seen = false, fatal = false, tolerate = false; std::string bad; int entropy = -1; uint64_t calls = 0;
    std::vector<std::pair<int, std::string>> open_fds; int streams = 0; int next_fd = 700; bool big = false, noent = false, zeroes = false; std::vector<uintptr_t> handles; bool unavailable = false; uint64_t delivered_big = 0;
};
extern World w;
void reset(uint8_t *buf, size_t len);
uint8_t byte_at(uint64_t i);
}
