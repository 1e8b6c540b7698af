// The simulated network behind the gRPC stand-in. Runs as part of the
// simulated process: its threads and locks are scheduled like any other's.
#include <grpcpp/grpcpp.h>
#include <map>

namespace grpc {
const Status Status::OK;
const Status Status::CANCELLED(StatusCode::CANCELLED, "");

namespace standin {
NetCfg net;
namespace {
std::mutex                     registry_m;
std::map<std::string, Server*> registry;
Clock::duration delay() { return std::chrono::nanoseconds(net.delay ? sim::draw(sim::T_FAULT, net.delay) : 0); }
// names of this machine do not matter, the port does
std::string port(const std::string& a)
{
    size_t p = a.rfind(':');
    return p == std::string::npos ? a : a.substr(p);
}
} // namespace

bool listening(const std::string& a)
{
    std::unique_lock<std::mutex> l(registry_m);
    return registry.count(port(a)) != 0;
}

void Call::break_now(const char* why)
{
    if (broken) return;
    broken = true;
    up.q.clear();
    down.q.clear();
    sim::trace("%s (method %d)", why, method);
    cv.notify_all();
}
bool Call::check_break()
{
    if (!broken && has_break && !finished && Clock::now() >= break_at) {
        sim::fault_fired("rpc_connection_lost");
        break_now("network: the connection is lost");
    }
    return broken;
}
bool Call::wait_until_change(std::unique_lock<std::mutex>& l, Clock::time_point t)
{
    if (has_break && !finished && break_at < t) t = break_at;
    if (t == Clock::time_point::max()) cv.wait(l);
    else cv.wait_until(l, t);
    return true;
}
bool Call::send(Stream& s, std::string d, std::unique_lock<std::mutex>& l, bool to_server)
{
    for (;;) {
        if (check_break()) return false;
        if (to_server && finished) return false; // the server does not read any more
        if (s.q.size() < net.window) break;
        wait_until_change(l, Clock::time_point::max());
    }
    if (sim::chance(sim::T_FAULT, net.p_break, 10000)) {
        sim::fault_fired(to_server ? "rpc_request_lost" : "rpc_reply_lost");
        break_now(to_server ? "network: a request is lost" : "network: a reply is lost");
        return true; // as gRPC: the message was accepted for sending
    }
    auto t = Clock::now() + delay();
    if (t < s.last) t = s.last;
    s.last = t;
    s.q.push_back({t, std::move(d)});
    cv.notify_all();
    return true;
}
bool Call::receive(Stream& s, std::string& d, std::unique_lock<std::mutex>& l, bool by_client)
{
    for (;;) {
        if (check_break()) return false;
        auto now = Clock::now();
        if (!s.q.empty()) {
            if (s.q.front().first <= now) {
                d = std::move(s.q.front().second);
                s.q.pop_front();
                cv.notify_all();
                return true;
            }
            wait_until_change(l, s.q.front().first);
        } else {
            if (s.done || (by_client && finished)) return false;
            wait_until_change(l, Clock::time_point::max());
        }
    }
}
Status Call::finish()
{
    std::unique_lock<std::mutex> l(m);
    for (;;) {
        if (check_break()) return Status(UNAVAILABLE, "the connection is lost");
        if (finished) {
            if (Clock::now() >= finished_at) return status;
            wait_until_change(l, finished_at);
        } else wait_until_change(l, Clock::time_point::max());
    }
}
void Call::cancel()
{
    std::unique_lock<std::mutex> l(m);
    if (!finished && !broken) break_now("network: the client cancels");
}

std::shared_ptr<Call> start(const std::string& address, int method)
{
    auto refused = [&](const char* why) {
        auto c = std::make_shared<Call>();
        c->method = method;
        std::unique_lock<std::mutex> l(c->m);
        c->break_now(why);
        return c;
    };
    if (sim::chance(sim::T_FAULT, net.p_refuse, 10000)) {
        sim::fault_fired("rpc_no_connection");
        return refused("network: no connection");
    }
    std::unique_lock<std::mutex> l(registry_m);
    auto it = registry.find(port(address));
    if (it == registry.end()) { l.unlock(); return refused("network: nobody listens"); }
    auto c = it->second->accept(method);
    l.unlock();
    return c ? c : refused("network: the server is stopping");
}
} // namespace standin

std::shared_ptr<standin::Call> Server::accept(int method)
{
    std::unique_lock<std::mutex> l(m_);
    if (down_) return nullptr;
    calls_++;
    auto c = std::make_shared<standin::Call>();
    c->method = method;
    if (sim::chance(sim::T_FAULT, standin::net.p_break_wait, 10000)) {
        c->has_break = true;
        c->break_at = standin::Clock::now() + std::chrono::nanoseconds(sim::draw(sim::T_FAULT, 4 * standin::net.delay + 1000));
    }
    std::thread([this, c] { sim::name_thread("handler"); handle(c); }).detach();
    return c;
}
void Server::handle(std::shared_ptr<standin::Call> c)
{
    Status s;
    {
        ServerContext ctx(c.get());
        try { s = services.at(0)->standin_handle(c->method, &ctx, *c); }
        catch (...) { s = Status(UNKNOWN, "Unexpected error in RPC handling"); }
    }
    {
        std::unique_lock<std::mutex> l(c->m);
        if (sim::chance(sim::T_FAULT, standin::net.p_break, 10000)) {
            sim::fault_fired("rpc_status_lost");
            c->break_now("network: a status is lost");
        }
        c->check_break();
        c->finished = true;
        c->down.done = true;
        c->status = s;
        c->finished_at = std::max(c->down.last, standin::Clock::now() + std::chrono::nanoseconds(standin::net.delay ? sim::draw(sim::T_FAULT, standin::net.delay) : 0));
        c->cv.notify_all();
    }
    c.reset();
    std::unique_lock<std::mutex> l(m_);
    calls_--;
    cv_.notify_all();
}
void Server::Shutdown()
{
    {
        std::unique_lock<std::mutex> r(standin::registry_m);
        for (auto& a : addresses) {
            auto it = standin::registry.find(standin::port(a));
            if (it != standin::registry.end() && it->second == this) standin::registry.erase(it);
        }
    }
    std::unique_lock<std::mutex> l(m_);
    down_ = true;
    cv_.wait(l, [this] { return calls_ == 0; });
    cv_.notify_all();
}
void Server::Wait()
{
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return down_ && calls_ == 0; });
}
Server::~Server() { Shutdown(); }

std::unique_ptr<Server> ServerBuilder::BuildAndStart()
{
    std::unique_ptr<Server> s(new Server);
    s->addresses = addresses_;
    s->services = services_;
    std::unique_lock<std::mutex> r(standin::registry_m);
    for (auto& a : addresses_) if (standin::registry.count(standin::port(a))) return nullptr;
    for (auto& a : addresses_) standin::registry[standin::port(a)] = s.get();
    return s;
}
} // namespace grpc
