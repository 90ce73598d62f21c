// Two (or more) parties in one program: each runs in a thread of its own over the real in-memory links.
#pragma once
#include "vf.h"
#include <functional>
#include <stdexcept>
#include <thread>
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
using fbpcf::engine::communication::IPartyCommunicationAgent;
using fbpcf::engine::communication::InMemoryPartyCommunicationAgentHost;
inline void runParties(std::vector<std::function<void()>> fs) {
  std::vector<std::thread> ts;
  for (auto& f : fs) ts.emplace_back(f);
  for (auto& t : ts) t.join();
}
template <class A, class B> void runTwo(A a, B b) { runParties({a, b}); }
// factories that connect n parties with each other
inline std::vector<std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgentFactory>> mkFactories(int n) {
  using F = fbpcf::engine::communication::InMemoryPartyCommunicationAgentFactory;
  std::vector<std::map<int, std::shared_ptr<F::HostInfo>>> m(n);
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      auto h = std::make_shared<F::HostInfo>();
      h->mutex = std::make_unique<std::mutex>();
      m[i].emplace(j, h);
      m[j].emplace(i, h);
    }
  std::vector<std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgentFactory>> r;
  for (int i = 0; i < n; i++) r.push_back(std::make_unique<F>(i, std::move(m[i])));
  return r;
}
