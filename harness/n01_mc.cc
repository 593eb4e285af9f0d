// N01: every interleaving, up to a number of deviations, of the threads with which the server answers a query.
#define N01_NO_MAIN
#include "n01.cc"
#include "mcrt.h"
int main(int argc, char **argv) {
  vx::parse(argc, argv);
  std::string scn = vx::arg(argc, argv, "scn");
  int bound = atoi(vx::arg(argc, argv, "bound", "1").c_str());
  mc::detect_races = vx::arg(argc, argv, "races", "0") == "1";
  mc::policy = atoi(vx::arg(argc, argv, "policy", "0").c_str());
  std::vector<Model> models;
  mc::Scenario s;
  s.name = scn;
  std::cout.rdbuf(nullptr);
  counting = false;
  s.setup = [&] {
    models.clear();
    models.push_back(build("one", {{"a1", "x y z x"}, {"b-2", "y x x"}, {"c", "z z"}}));
    models.push_back(build("two", {{"d", "y y x"}, {"e", "x y z"}}));
  };
  s.body = [&] {
    auto server = server_for(&models, {});
    Sim sim;
    sim.models = &models;
    sim.key = scn;
    report = [&](const std::string &key, const std::string &what) { mc::fail(key, what); };
    std::vector<Request> c;
    if (scn == "bad") // no collection can parse it
      c = {query("(^ x", false), query("y"), next("q0")};
    else
      c = {query("(^ x y)"), next("q0"), next("q0"), next("q0"), next("q0")};
    play(server.get(), &sim, {c}, {READ_ALL});
    mc::outcome("answered");
    server = nullptr;
    for (auto &m : models)
      m.warren->end();
    mc::drain();
    models.clear();
  };
  mc::explore(s, bound, vx::opt.budget_s ? vx::opt.budget_s : 600);
  return 0;
}
