#pragma once
#include <pika/mini.hpp>
#include <pika/program_options.hpp>
namespace pika {
struct init_params { program_options::options_description desc_cmdline{""}; std::vector<std::string> cfg; };
void start(int argc, const char* const* argv, const init_params& p = init_params());
inline void finalize() {}
int stop();
}
