// Drives one of the C++ planners of /repo/cpp/src/hub/solver on small domains given as tables.
// One case per line on stdin, one line per operation on stdout, "." at the end of each case.
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <sys/time.h>
#include <unistd.h>

#ifdef VP_PARALLEL
#include "interleave.hh"
#endif
#include "spdlog/spdlog.h"

#if defined(VP_ASTAR)
#include "hub/solver/astar.hh"
#elif defined(VP_AOSTAR)
#include "hub/solver/aostar.hh"
#elif defined(VP_ILAOSTAR)
#include "hub/solver/ilaostar.hh"
#elif defined(VP_LRTDP)
#include "hub/solver/lrtdp.hh"
#elif defined(VP_BFWS)
#include "hub/solver/bfws.hh"
#elif defined(VP_IW)
#include "hub/solver/iw.hh"
#elif defined(VP_RIW)
#include "hub/solver/riw.hh"
#elif defined(VP_MCTS)
#include "hub/solver/mcts.hh"
#endif

using namespace skdecide;

#ifdef VP_PARALLEL
typedef ParallelExecution Execution;
#else
typedef SequentialExecution Execution;
#endif

[[noreturn]] static void misuse(const std::string& what) {
    std::fprintf(stderr, "VP-MISUSE %s\n", what.c_str());
    std::fflush(stderr);
    _exit(97);
}

struct Outcome { double p; int next; double cost; };
struct Info { bool goal; bool terminal; double h; std::vector<int> features;
              std::vector<std::vector<Outcome>> actions; };

// a callback of the domain: other threads may run here
static void jitter() {
#ifdef VP_PARALLEL
    interleave::point();
#endif
}

struct Domain {
    struct State {
        int id = -1;
        State(int i = -1) : id(i) {}
        std::string print() const { return "s" + std::to_string(id); }
        // several states share a bucket on purpose
        struct Hash { std::size_t operator()(const State& s) const { return (std::size_t) (s.id / 2); } };
        struct Equal { bool operator()(const State& a, const State& b) const { return a.id == b.id; } };
    };
    struct Event {
        int id = -1;
        Event(int i = -1) : id(i) {}
        std::string print() const { return "a" + std::to_string(id); }
        struct Hash { std::size_t operator()(const Event& e) const { return (std::size_t) e.id; } };
        struct Equal { bool operator()(const Event& a, const Event& b) const { return a.id == b.id; } };
    };
    typedef Event Action;
    struct ActionSpace {
        std::vector<Event> elements;
        std::mt19937* g = nullptr;
        const std::vector<Event>& get_elements() const { return elements; }
        Event sample() const {
            if (elements.empty()) misuse("sampling an empty action space");
            return elements[(*g)() % elements.size()];
        }
    };
    struct Value {
        State s; double p;
        const State& state() const { return s; }
        double probability() const { return p; }
    };
    struct NextStates {
        std::vector<Value> values;
        const std::vector<Value>& get_values() const { return values; }
    };
    struct TransitionOutcome {
        State s; double r = 0; bool t = false;
        const State& state() const { return s; }
        double reward() const { return r; }
        bool terminal() const { return t; }
    };

    std::vector<Info> states;
    std::size_t capacity = 1;
    std::mt19937 gen;
    int start = 0;
    std::vector<int> current;       // state of each simulated environment
    std::mutex lock;

    const Info& info(const State& s) const {
        jitter();
        if (s.id < 0 || s.id >= (int) states.size()) misuse("unknown state " + std::to_string(s.id));
        return states[s.id];
    }
    const std::vector<Outcome>& outcomes(const State& s, const Event& a) const {
        const Info& i = info(s);
        if (a.id < 0 || a.id >= (int) i.actions.size())
            misuse("action " + std::to_string(a.id) + " applied in state " + std::to_string(s.id));
        return i.actions[a.id];
    }
    ActionSpace get_applicable_actions(const State& s, const std::size_t* = nullptr) {
        jitter();
        ActionSpace sp;
        sp.g = &gen;
        for (std::size_t a = 0 ; a < info(s).actions.size() ; a++) sp.elements.push_back(Event((int) a));
        return sp;
    }
    State get_next_state(const State& s, const Event& a, const std::size_t* = nullptr) {
        jitter();
        return State(outcomes(s, a)[0].next);
    }
    NextStates get_next_state_distribution(const State& s, const Event& a, const std::size_t* = nullptr) {
        jitter();
        NextStates n;
        for (const auto& o : outcomes(s, a)) n.values.push_back(Value{State(o.next), o.p});
        return n;
    }
    double get_transition_cost(const State& s, const Event& a, const State& n, const std::size_t* = nullptr) {
        jitter();
        for (const auto& o : outcomes(s, a)) if (o.next == n.id) return o.cost;
        misuse("cost asked for an impossible transition");
    }
    double get_transition_reward(const State& s, const Event& a, const State& n, const std::size_t* = nullptr) {
        return -get_transition_cost(s, a, n);
    }
    bool is_goal(const State& s, const std::size_t* = nullptr) { return info(s).goal; }
    bool is_terminal(const State& s, const std::size_t* = nullptr) { return info(s).terminal; }
    std::size_t get_parallel_capacity() const { return capacity; }

    TransitionOutcome sample(const State& s, const Event& a, const std::size_t* = nullptr) {
        const auto& os = outcomes(s, a);
        if (states[s.id].terminal) misuse("action tried in the terminal state " + std::to_string(s.id));
        double r;
        {
            std::lock_guard<std::mutex> g(lock);
            r = std::uniform_real_distribution<>(0, 1)(gen);
        }
        const Outcome* picked = &os.back();
        for (const auto& o : os) { if (r < o.p) { picked = &o; break; } r -= o.p; }
        TransitionOutcome to;
        to.s = State(picked->next); to.r = -picked->cost; to.t = states[picked->next].terminal;
        return to;
    }
    void reset(const std::size_t* t) { current.resize(std::max<std::size_t>(capacity, 1)); current[t ? *t : 0] = start; }
    TransitionOutcome step(const Event& a, const std::size_t* t) {
        std::size_t i = t ? *t : 0;
        if (i >= current.size()) misuse("step before reset");
        TransitionOutcome to = sample(State(current[i]), a);
        current[i] = to.s.id;
        return to;
    }
};

typedef Domain::State State;
typedef Domain::Event Event;
typedef std::vector<int> Features;

static void on_timer(int) {
    static const char m[] = "VP-HANG no answer within the CPU time given to a case\n";
    (void) !write(2, m, sizeof(m) - 1);
    _exit(98);
}

struct Params { double discount, epsilon; long max_tip, cycles, labels, time_budget, rollouts, depth, garbage,
                ordering, debug, capacity, start; double exploration, ucb; long seed, schedule, rarity; };

template <typename Solver>
static void operations(Solver& solver, Domain& d, std::istringstream& in) {
    int n; in >> n;
    for (int i = 0 ; i < n ; i++) {
        std::string op; in >> op;
        std::ostringstream out; out.precision(17);
        try {
            if (op == "S") { int s; in >> s; out << "S"; solver.solve(State(s)); }
            else if (op == "C") { out << "C"; solver.clear(); }
            else if (op == "B") { int s; in >> s; Event a = solver.get_best_action(State(s)); out << "B " << a.id; }
            else if (op == "F") { int s; in >> s; bool b = solver.is_solution_defined_for(State(s)); out << "F " << b; }
            else if (op == "V") { int s; in >> s; double v = solver.get_best_value(State(s)); out << "V " << v; }
#if defined(VP_ILAOSTAR) || defined(VP_LRTDP) || defined(VP_MCTS) || defined(VP_RIW)
            else if (op == "P") {
                auto p = solver.policy();
                out << "P";
                for (const auto& e : p) out << " " << e.first.id << " " << e.second.first.id << " " << e.second.second;
            }
#endif
#if defined(VP_LRTDP) || defined(VP_RIW)
            else if (op == "N") { out << "N " << solver.get_nb_of_explored_states() << " " << solver.get_nb_rollouts(); }
#elif defined(VP_MCTS)
            else if (op == "N") { out << "N " << solver.nb_of_explored_states() << " " << solver.nb_rollouts(); }
#elif defined(VP_ILAOSTAR)
            else if (op == "N") { out << "N " << solver.get_nb_of_explored_states() << " " << solver.best_solution_graph_size(); }
#elif defined(VP_IW)
            else if (op == "N") {
                out << "N " << solver.get_nb_of_explored_states() << " " << solver.get_nb_of_pruned_states();
                for (const auto& t : solver.get_intermediate_scores()) out << " " << std::get<1>(t) << " " << std::get<2>(t);
            }
#endif
#if defined(VP_LRTDP) || defined(VP_RIW) || defined(VP_MCTS)
            else if (op == "E") { // an episode: plans and acts from a state until a terminal one, at most k times
                int s, k; in >> s >> k;
                out << "E";
                d.start = s;
                std::vector<int> taken;
                for (int j = 0 ; j < k && !d.states[s].terminal ; j++) {
                    solver.solve(State(s));
                    Event a = solver.get_best_action(State(s));
#if defined(VP_MCTS)
                    std::size_t kept = solver.nb_of_explored_states();
#else
                    std::size_t kept = solver.get_nb_of_explored_states();
#endif
                    out << " " << s << " " << a.id << " " << kept;
                    s = d.sample(State(s), a).s.id;
                }
                out << " " << s;
            }
#endif
            else if (op == "R") { int s; in >> s; d.start = s; out << "R"; }
            else misuse("operation " + op);
        } catch (const std::exception& e) {
            out << " X " << e.what();
        }
        std::cout << out.str() << std::endl;
    }
}

static void run(const std::string& line) {
    std::istringstream in(line);
    Domain d;
    int n; in >> n;
    for (int s = 0 ; s < n ; s++) {
        Info i; int g, t, nf, na; in >> g >> t >> i.h >> nf;
        i.goal = g; i.terminal = t;
        i.features.resize(nf);
        for (auto& f : i.features) in >> f;
        in >> na;
        i.actions.resize(na);
        for (auto& a : i.actions) {
            int no; in >> no; a.resize(no);
            for (auto& o : a) in >> o.p >> o.next >> o.cost;
        }
        d.states.push_back(i);
    }
    Params p;
    in >> p.discount >> p.epsilon >> p.max_tip >> p.cycles >> p.labels >> p.time_budget >> p.rollouts >> p.depth
       >> p.garbage >> p.ordering >> p.debug >> p.capacity >> p.start >> p.exploration >> p.ucb >> p.seed >> p.schedule >> p.rarity;
    if (!in) misuse("malformed case");
#ifdef VP_PARALLEL
    interleave::chooser.seed(p.schedule);
    interleave::rarity = (unsigned) p.rarity;
#endif
    d.capacity = p.capacity; d.start = p.start; d.gen.seed(p.seed);
    auto goal = [](Domain& d, const State& s) { return d.info(s).goal; };
    auto heuristic = [](Domain& d, const State& s) { return d.info(s).h; };
    auto goal_t = [](Domain& d, const State& s, const std::size_t*) { return d.info(s).goal; };
    auto heuristic_t = [](Domain& d, const State& s, const std::size_t*) { return d.info(s).h; };
    auto features = [](Domain& d, const State& s) { return std::make_unique<Features>(d.info(s).features); };
    auto features_t = [](Domain& d, const State& s, const std::size_t*) { return std::make_unique<Features>(d.info(s).features); };
    (void) goal; (void) heuristic; (void) goal_t; (void) heuristic_t; (void) features; (void) features_t;
#if defined(VP_ASTAR)
    AStarSolver<Domain, Execution> solver(d, goal, heuristic, p.debug);
    operations(solver, d, in);
#elif defined(VP_AOSTAR)
    AOStarSolver<Domain, Execution> solver(d, goal, heuristic, p.discount, p.max_tip, p.cycles, p.debug);
    operations(solver, d, in);
#elif defined(VP_ILAOSTAR)
    ILAOStarSolver<Domain, Execution> solver(d, goal, heuristic, p.discount, p.epsilon, p.debug);
    operations(solver, d, in);
#elif defined(VP_LRTDP)
    LRTDPSolver<Domain, Execution> solver(d, goal_t, heuristic_t, p.labels, p.time_budget, p.rollouts, p.depth,
                                          p.discount, p.epsilon, p.garbage, p.debug);
    operations(solver, d, in);
#elif defined(VP_BFWS)
    if (p.ordering == 0) {
        BFWSSolver<Domain, Features, DomainStateHash, Execution> solver(d, features, heuristic, goal, p.debug);
        operations(solver, d, in);
    } else {
        BFWSSolver<Domain, Features, StateFeatureHash, Execution> solver(d, features, heuristic, goal, p.debug);
        operations(solver, d, in);
    }
#elif defined(VP_IW)
    std::function<bool (const double&, const std::size_t&, const std::size_t&,
                        const double&, const std::size_t&, const std::size_t&)> order = nullptr;
    if (p.ordering / 2 == 1)
        order = [](const double&, const std::size_t& an, const std::size_t&, const double&, const std::size_t& bn, const std::size_t&) { return an > bn; };
    else if (p.ordering / 2 == 2)
        order = [](const double&, const std::size_t&, const std::size_t& ad, const double&, const std::size_t&, const std::size_t& bd) { return ad > bd; };
    if (p.ordering % 2 == 0) {
        IWSolver<Domain, Features, DomainStateHash, Execution> solver(d, features, order, p.time_budget, p.debug);
        operations(solver, d, in);
    } else {
        IWSolver<Domain, Features, StateFeatureHash, Execution> solver(d, features, order, p.time_budget, p.debug);
        operations(solver, d, in);
    }
#elif defined(VP_RIW)
    if (p.ordering == 0) {
        RIWSolver<Domain, Features, DomainStateHash, SimulationRollout, Execution> solver(
            d, features_t, p.time_budget, p.rollouts, p.depth, p.exploration, p.discount, p.garbage, p.debug);
        operations(solver, d, in);
    } else if (p.ordering == 1) {
        RIWSolver<Domain, Features, StateFeatureHash, SimulationRollout, Execution> solver(
            d, features_t, p.time_budget, p.rollouts, p.depth, p.exploration, p.discount, p.garbage, p.debug);
        operations(solver, d, in);
    } else if (p.ordering == 2) {
        RIWSolver<Domain, Features, DomainStateHash, EnvironmentRollout, Execution> solver(
            d, features_t, p.time_budget, p.rollouts, p.depth, p.exploration, p.discount, p.garbage, p.debug);
        operations(solver, d, in);
    } else {
        RIWSolver<Domain, Features, StateFeatureHash, EnvironmentRollout, Execution> solver(
            d, features_t, p.time_budget, p.rollouts, p.depth, p.exploration, p.discount, p.garbage, p.debug);
        operations(solver, d, in);
    }
#elif defined(VP_MCTS)
    if (p.ordering == 0) {
        MCTSSolver<Domain, Execution, DistributionTransitionMode> solver(
            d, p.time_budget, p.rollouts, p.depth, p.discount, p.garbage, p.debug);
        operations(solver, d, in);
    } else if (p.ordering == 1) {
        MCTSSolver<Domain, Execution, SampleTransitionMode> solver(
            d, p.time_budget, p.rollouts, p.depth, p.discount, p.garbage, p.debug);
        operations(solver, d, in);
    } else {
        MCTSSolver<Domain, Execution, StepTransitionMode> solver(
            d, p.time_budget, p.rollouts, p.depth, p.discount, p.garbage, p.debug);
        operations(solver, d, in);
    }
#endif
}

int main() {
    std::signal(SIGPROF, on_timer);
    std::string line;
    while (std::getline(std::cin, line)) {
        itimerval t{}; t.it_value.tv_sec = 6;
        setitimer(ITIMER_PROF, &t, nullptr);
        run(line);
        itimerval z{};
        setitimer(ITIMER_PROF, &z, nullptr);
        std::cout << "." << std::endl;
    }
    return 0;
}
