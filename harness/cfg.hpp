// Configuration trees from JSON text, through the library's own JSON configuration.
#pragma once
#include <sstream>
#include <blackhole/config/factory.hpp>
#include <blackhole/config/json.hpp>
#include <blackhole/config/node.hpp>
#include <blackhole/config/option.hpp>
static inline std::unique_ptr<blackhole::config::factory_t> cfg(const std::string& text) { std::istringstream is(text); return blackhole::config::factory_traits<blackhole::config::json_t>::construct(is); }
