// FLAGS: -fsanitize=thread -g
// trace collector: cap, order, report, scopes left normally and by exceptions, concurrent use (run under ThreadSanitizer)
#include "common.hpp"
#include <atomic>
#include <cstring>
#include <map>
#include <thread>
#include <sys/syscall.h>
#include <unistd.h>
#include "mini_opt/tracing.hpp"
#include <nlohmann/json.hpp>
using json = nlohmann::json;

static json report(trace_collector& c) {
  const std::string s = c.get_trace_json();
  json j = json::parse(s, nullptr, false);
  context("report begins with\n" + s.substr(0, 600));
  check(!j.is_discarded() && j.contains("traceEvents") && j["traceEvents"].is_array(), "the report is not JSON with a traceEvents list");
  return j["traceEvents"];
}
static void compare(const json& e, const trace_event& x) {
  context("entry " + e.dump() + "\nevent name " + std::string(x.name) + " ts " + str(x.ts) + " pid " + str(x.pid) + " tid " + str(x.tid) + " dur_ns " + str(x.dur_ns));
  check(e.at("name").get<std::string>() == x.name && e.at("ph") == "X" && e.at("ts").get<std::int64_t>() == x.ts && e.at("pid").get<std::uint32_t>() == x.pid &&
            e.at("tid").get<std::uint32_t>() == x.tid && e.at("dur").get<std::int64_t>() == x.dur_ns / 1000, "entry of an event");
}
static trace_event gen(std::int64_t k) {
  static const char* const names[] = {"Solve", "Linearize", "a b", "", "x_1"};
  return trace_event{names[ri(0, 4)], k, static_cast<std::uint32_t>(rng()), static_cast<std::uint32_t>(rng()), static_cast<std::int64_t>(rng() % (rb() ? 5000 : 40000000000000ull))};
}
// names the destructor of a scope may not keep
struct SubmitsInDestructor {
  ~SubmitsInDestructor() { scoped_trace t("in destructor"); }
};
static std::size_t count(const char* name, std::uint32_t tid = 0) {
  std::size_t n = 0;
  for (const auto& e : report(*trace_collector::get_instance()))
    n += e.at("name").get<std::string>() == name && (tid == 0 || e.at("tid").get<std::uint32_t>() == tid);
  return n;
}
static void scopes() {
  const std::size_t a = count("left normally"), b = count("left by exception"), c = count("in destructor"), d = count("inner");
  { scoped_trace t("left normally"); }
  context("scope left normally");
  check(count("left normally") == a + 1, "a scope left normally submits one event");
  try {
    scoped_trace t("left by exception");
    throw 1;
  } catch (int) {
  }
  context("scope left by an exception");
  check(count("left by exception") == b, "a scope left by an exception submits nothing");
  try {
    SubmitsInDestructor s;
    throw 1;
  } catch (int) {
  }
  context("scope entered and left normally in a destructor that runs while an exception unwinds the stack");
  check(count("in destructor") == c + 1, "such a scope submits one event");
  try {
    throw 1;
  } catch (int) {
    scoped_trace t("inner");
  }
  context("scope inside a catch clause");
  check(count("inner") == d + 1, "such a scope submits one event");
  using clk = std::chrono::high_resolution_clock;
  const auto us = [](clk::time_point t) { return std::chrono::duration_cast<std::chrono::microseconds>(t.time_since_epoch()).count(); };
  const std::int64_t t0 = us(clk::now());
  {
    scoped_trace t("timed");
    std::this_thread::sleep_for(std::chrono::milliseconds(3));
  }
  const std::int64_t t1 = us(clk::now());
  const json all = report(*trace_collector::get_instance());
  const json e = all.back();
  context("entry " + e.dump() + " of a scope that lasted from " + str(t0) + " to " + str(t1) + " microseconds");
  check(e.at("name") == "timed", "the last event is the last scope");
  check(e.at("ts").get<std::int64_t>() >= t0 && e.at("ts").get<std::int64_t>() + e.at("dur").get<std::int64_t>() <= t1 + 1 && e.at("dur").get<std::int64_t>() >= 2900, "start and duration of the scope");
  check(e.at("pid").get<std::uint32_t>() == static_cast<std::uint32_t>(getpid()) && e.at("tid").get<std::uint32_t>() == static_cast<std::uint32_t>(syscall(SYS_gettid)), "process and thread of the scope");
}
static void sequential() {
  trace_collector& c = *new trace_collector;  // not destructible outside tracing.cc
  std::vector<trace_event> all;
  for (int i = ri(0, 3); i > 0; --i) { all.push_back(gen(static_cast<std::int64_t>(all.size()))); c.submit_event(all.back()); }
  const json j = report(c);
  check(j.size() == all.size(), "one entry per event: " + str(j.size()) + " instead of " + str(all.size()));
  for (std::size_t i = 0; i < all.size(); ++i) compare(j[i], all[i]);
}
static void cap(int extra) {
  trace_collector& c = *new trace_collector;  // not destructible outside tracing.cc
  const int n = 100000 + extra;
  for (int i = 0; i < n; ++i) c.submit_event(trace_event{"e", i, 1, 2, 3});
  const json j = report(c);
  const int want = n < 100000 ? n : 100000;
  context(str(n) + " events submitted");
  check(static_cast<int>(j.size()) == want, str(j.size()) + " events kept");
  for (int i = 0; i < want; ++i) if (j[i].at("ts").get<std::int64_t>() != n - want + i) check(j[i].at("ts").get<std::int64_t>() == n - want + i, "entry " + str(i) + " is event " + str(j[i].at("ts")));
}
static void concurrent() {
  trace_collector& c = *new trace_collector;  // not destructible outside tracing.cc
  const int nt = ri(2, 6), each = ri(10, 400);
  std::atomic<bool> stop{false};
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    ts.emplace_back([&, t] { for (int i = 0; i < each; ++i) c.submit_event(trace_event{"e", i, 1, static_cast<std::uint32_t>(t), 3}); });
  std::vector<std::string> seen;
  std::thread r([&] { while (!stop && seen.size() < 40) seen.push_back(c.get_trace_json()); });
  for (auto& t : ts) t.join();
  stop = true;
  r.join();
  seen.push_back(c.get_trace_json());
  std::size_t last = 0;
  for (const auto& s : seen) {
    const json j = json::parse(s, nullptr, false);
    context(str(nt) + " threads submitting " + str(each) + " events each while another one reports");
    check(!j.is_discarded(), "a report is not JSON");
    std::map<int, int> next;
    for (const auto& e : j.at("traceEvents")) check(next[e.at("tid").get<int>()]++ == e.at("ts").get<int>(), "events of a thread are lost or out of order");
    check(j.at("traceEvents").size() >= last, "events disappear");
    last = j.at("traceEvents").size();
  }
  check(last == static_cast<std::size_t>(nt * each), str(last) + " of " + str(nt * each) + " events kept");
}
static void ids() {
  std::vector<std::thread> ts;
  std::vector<std::uint32_t> tid(4);
  std::atomic<int> ready{0};
  for (int t = 0; t < 4; ++t)
    ts.emplace_back([&, t] {
      tid[t] = static_cast<std::uint32_t>(syscall(SYS_gettid));
      { scoped_trace s("thread"); }
      ++ready;
      while (ready < 4) std::this_thread::yield();
    });
  for (auto& t : ts) t.join();
  for (int t = 0; t < 4; ++t) {
    const std::size_t n = count("thread", tid[t]);
    context("scopes traced in 4 threads at once");
    check(n >= 1, "no event carries the id of thread " + str(tid[t]));
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  scopes();
  ids();
  cap(0);
  cap(ri(1, 300));
  while (more()) {
    for (int i = 0; i < 5; ++i) sequential();
    concurrent();
    scopes();
  }
  return 0;
}
