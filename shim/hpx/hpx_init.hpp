#pragma once
#include "_all.hpp"
#include <boost/program_options.hpp>

int hpx_main(boost::program_options::variables_map &vm) __attribute__((weak));
int hpx_main(int argc, char **argv) __attribute__((weak));
int hpx_main() __attribute__((weak));

#ifdef VP_TICK
void vp_phase(const char *); // virtual time: starting and stopping the runtime takes some
#else
#define vp_phase(x) ((void)0)
#endif
namespace hpx {
namespace program_options { using namespace boost::program_options; }
inline int finalize() { return 0; }
inline int finalize(double, double) { return 0; }
inline int disconnect() { return 0; }
inline int stop() { return 0; }
inline int resume() { return 0; }
inline int suspend() { return 0; }
namespace detail {
inline int run_main(boost::program_options::options_description const &desc, int argc, char **argv) {
  namespace po = boost::program_options;
  po::variables_map vm;
  bool worker = false, everywhere = false;
  try {
    std::vector<std::string> args;
    for (int i = 1; i < argc; i++) {
      if (std::strncmp(argv[i], "--hpx:", 6) != 0) args.push_back(argv[i]);
      if (!std::strcmp(argv[i], "--hpx:worker")) worker = true;
      if (!std::strcmp(argv[i], "--hpx:run-hpx-main")) everywhere = true;
    }
    po::options_description all(desc);
    po::command_line_parser parser(args);
    po::parsed_options parsed = parser.options(all).allow_unregistered().run();
    po::store(parsed, vm);
    po::notify(vm);
  } catch (std::exception const &e) {
    std::cerr << "hpx::init: std::exception caught: " << e.what() << "\n";
    return -1;
  }
  if (worker && !everywhere) return 0; // serves the root until the run is over
  if (!(static_cast<int (*)(po::variables_map &)>(&::hpx_main))) return -1;
  state_ptr<int> s(new state<int>);
  vp_phase("init");
  struct AtEnd { ~AtEnd() { vp_phase("shutdown"); } } at_end;
  run_task<int>(s, [&vm] { return ::hpx_main(vm); }, worker ? 1 : 0);
  future<int> f(s);
  try {
    return f.get();
  } catch (std::exception const &e) {
    std::cerr << "{what}: " << e.what() << "\n";
    mc::fail("uncaught exception in hpx_main terminates the program: %s", e.what());
  }
}
}
inline int init(boost::program_options::options_description const &desc, int argc, char **argv) { return detail::run_main(desc, argc, argv); }
inline int init(boost::program_options::options_description const &desc, int argc, char **argv, std::vector<std::string> const &) { return detail::run_main(desc, argc, argv); }
inline int init(int argc, char **argv) { return detail::run_main(boost::program_options::options_description(), argc, argv); }
inline int init(int argc, char **argv, std::vector<std::string> const &) { return init(argc, argv); }
inline bool start(boost::program_options::options_description const &, int, char **) { return true; }
inline bool start(int, char **) { return true; }
}
