// Scenario registry, violations, and what a run reports.
#pragma once
#include "kernel.hpp"
#include <functional>
#include <string>
#include <vector>

namespace sim {

struct Violation {
  std::vector<std::string> props; // properties this observation refutes
  std::string category;           // stable, for minimisation
  std::string message;
};
extern std::vector<Violation> violations;
extern std::string focus;   // property being decided
extern std::string tier;
extern std::string extra_props; // added to every violation of the run

// props: space separated property ids
void violation(const std::string& props, const std::string& category, const std::string& message);

struct Scenario {
  std::string name;
  std::function<void()> run;
};
std::vector<Scenario>& scenarios();
struct Register {
  Register(std::string name, std::function<void()> fn) { scenarios().push_back({ std::move(name), std::move(fn) }); }
};

// draws the fault profile: fault-free with probability 1/4, otherwise each
// kind in `kinds` enabled with probability 1/2
void draw_profile(std::initializer_list<std::pair<std::uint32_t Profile::*, std::vector<std::uint32_t>>> kinds);

std::string show(std::string_view s, std::size_t max = 60);
std::uint64_t hash_bytes(std::string_view s);
// deterministic content: n bytes derived from key
std::string blob(std::uint64_t key, std::size_t n);
std::string text_blob(std::uint64_t key, std::size_t n);
} // namespace sim
