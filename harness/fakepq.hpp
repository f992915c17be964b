#pragma once
#include <map>
#include <optional>
#include <string>
#include <vector>
namespace fakepq {
using Row = std::map<std::string, std::optional<std::string>>; using Table = std::vector<Row>;
extern Table table; extern std::vector<std::string> log; extern std::string port; extern bool down;
}
