// Stand-in for gRPC's synchronous interface: clients and servers of one
// process, over a simulated network. A call is a connection of two ordered
// streams of serialised messages. Each message takes a random time to arrive;
// a connection may break at any message, or while a handler runs.
//
// As in gRPC: every call has its own handler thread; an exception in a handler
// becomes the status UNKNOWN; a writer learns of a broken stream late and only
// from Write's result; a reader sees a broken stream as its end, and the
// client's Finish tells which it was; a client which got no status knows
// nothing of what the server did.
#pragma once
#include <sim.h>

#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace grpc {
enum StatusCode {
    OK = 0, CANCELLED, UNKNOWN, INVALID_ARGUMENT, DEADLINE_EXCEEDED, NOT_FOUND, ALREADY_EXISTS, PERMISSION_DENIED,
    RESOURCE_EXHAUSTED, FAILED_PRECONDITION, ABORTED, OUT_OF_RANGE, UNIMPLEMENTED, INTERNAL, UNAVAILABLE, DATA_LOSS,
    UNAUTHENTICATED
};
class Status
{
public:
    Status() = default;
    Status(StatusCode c, std::string m) : code_(c), message_(std::move(m)) {}
    Status(StatusCode c, std::string m, std::string) : code_(c), message_(std::move(m)) {}
    static const Status OK;
    static const Status CANCELLED;
    bool        ok() const { return code_ == StatusCode::OK; }
    StatusCode  error_code() const { return code_; }
    std::string error_message() const { return message_; }
    std::string error_details() const { return ""; }
    void        IgnoreError() const {}

private:
    StatusCode  code_ = StatusCode::OK;
    std::string message_;
};
class Service;

namespace standin {
using Clock = std::chrono::steady_clock;
struct NetCfg
{
    uint32_t p_refuse = 0, p_break = 0; // out of 10000: per call, per message
    uint32_t p_break_wait = 0;          // per call: at a random time
    uint64_t delay = 1000;              // ns at most, per message
    unsigned window = 8;                // messages in flight
};
extern NetCfg net;
bool listening(const std::string& address); // is there a server?

struct Stream
{
    std::deque<std::pair<Clock::time_point, std::string>> q;
    Clock::time_point last{};
    bool              done = false; // nothing more will be written
};
struct Call
{
    std::mutex              m;
    std::condition_variable cv;
    Stream                  up, down;
    bool                    broken = false;
    bool                    has_break = false;
    Clock::time_point       break_at{};
    bool                    finished = false; // the handler has returned
    Clock::time_point       finished_at{};
    Status                  status;
    int                     method = 0;

    // all with the mutex held
    void break_now(const char* why);
    bool check_break();
    bool wait_until_change(std::unique_lock<std::mutex>& l, Clock::time_point t);
    bool send(Stream& s, std::string d, std::unique_lock<std::mutex>& l, bool to_server);
    bool receive(Stream& s, std::string& d, std::unique_lock<std::mutex>& l, bool by_client);
    // client
    Status finish();
    void   cancel();
};
std::shared_ptr<Call> start(const std::string& address, int method);
} // namespace standin

class ChannelCredentials {};
class ServerCredentials {};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials() { return std::make_shared<ServerCredentials>(); }

class ChannelInterface
{
public:
    explicit ChannelInterface(std::string a) : standin_address(std::move(a)) {}
    virtual ~ChannelInterface() = default;
    const std::string standin_address;
};
class Channel : public ChannelInterface
{
public:
    using ChannelInterface::ChannelInterface;
};
inline std::shared_ptr<Channel> CreateChannel(const std::string& a, const std::shared_ptr<ChannelCredentials>&) { return std::make_shared<Channel>(a); }
struct StubOptions {};

class ClientContext
{
public:
    ClientContext() = default;
    ClientContext(const ClientContext&) = delete;
    ~ClientContext() { if (call_) call_->cancel(); }
    void TryCancel() { if (call_) call_->cancel(); }
    template<class T> void set_deadline(const T&) {}
    void set_wait_for_ready(bool) {}
    void AddMetadata(const std::string&, const std::string&) {}
    std::shared_ptr<standin::Call> call_;
};
class ServerContext
{
public:
    explicit ServerContext(standin::Call* c = nullptr) : call_(c) {}
    bool IsCancelled() const
    {
        std::unique_lock<std::mutex> l(call_->m);
        return call_->check_break();
    }
    std::string peer() const { return "standin"; }
    standin::Call* call_;
};

template<class W> class ClientWriterInterface
{
public:
    virtual ~ClientWriterInterface() = default;
    virtual bool Write(const W&) = 0;
    virtual bool WritesDone() = 0;
    virtual Status Finish() = 0;
};
template<class W> class ClientWriter final : public ClientWriterInterface<W>
{
public:
    template<class R> ClientWriter(std::shared_ptr<standin::Call> c, R* response) : call_(std::move(c))
    {
        parse_ = [response](const std::string& d) { return response->ParseFromString(d); };
    }
    bool Write(const W& w) override
    {
        if (busy_++) sim::fail("grpc-misuse", "two threads write to one stream at the same time");
        std::string d = w.SerializeAsString();
        bool ok;
        {
            std::unique_lock<std::mutex> l(call_->m);
            if (done_) sim::fail("grpc-misuse", "a message is written after WritesDone");
            ok = call_->send(call_->up, std::move(d), l, true);
        }
        busy_--;
        return ok;
    }
    bool WritesDone() override
    {
        std::unique_lock<std::mutex> l(call_->m);
        done_ = true;
        if (call_->check_break()) return false;
        call_->up.done = true;
        call_->cv.notify_all();
        return true;
    }
    Status Finish() override
    {
        Status s = call_->finish();
        if (!s.ok()) return s;
        std::string d;
        {
            std::unique_lock<std::mutex> l(call_->m);
            if (!call_->receive(call_->down, d, l, true)) return Status(UNKNOWN, "no response");
        }
        return parse_(d) ? s : Status(INTERNAL, "unable to parse the response");
    }

private:
    std::shared_ptr<standin::Call> call_;
    std::function<bool(const std::string&)> parse_;
    bool done_ = false;
    int busy_ = 0;
};
template<class R> class ClientReaderInterface
{
public:
    virtual ~ClientReaderInterface() = default;
    virtual bool Read(R*) = 0;
    virtual Status Finish() = 0;
};
template<class R> class ClientReader final : public ClientReaderInterface<R>
{
public:
    explicit ClientReader(std::shared_ptr<standin::Call> c) : call_(std::move(c)) {}
    bool Read(R* r) override
    {
        std::string d;
        {
            std::unique_lock<std::mutex> l(call_->m);
            if (!call_->receive(call_->down, d, l, true)) return false;
        }
        return r->ParseFromString(d);
    }
    Status Finish() override { return call_->finish(); }

private:
    std::shared_ptr<standin::Call> call_;
};
template<class R> class ServerReader
{
public:
    explicit ServerReader(standin::Call* c) : call_(c) {}
    bool Read(R* r)
    {
        std::string d;
        {
            std::unique_lock<std::mutex> l(call_->m);
            if (!call_->receive(call_->up, d, l, false)) return false;
        }
        return r->ParseFromString(d);
    }

private:
    standin::Call* call_;
};
template<class W> class ServerWriter
{
public:
    explicit ServerWriter(standin::Call* c) : call_(c) {}
    bool Write(const W& w)
    {
        if (busy_++) sim::fail("grpc-misuse", "two threads write to one stream at the same time");
        std::string d = w.SerializeAsString();
        bool ok;
        {
            std::unique_lock<std::mutex> l(call_->m);
            if (call_->finished) sim::fail("grpc-misuse", "a message is written after the end of its handler");
            ok = call_->send(call_->down, std::move(d), l, false);
        }
        busy_--;
        return ok;
    }

private:
    standin::Call* call_;
    int busy_ = 0;
};

class Service
{
public:
    virtual ~Service() = default;
    virtual Status standin_handle(int method, ServerContext*, standin::Call&) = 0;
};
class Server
{
public:
    ~Server();
    void Wait();
    void Shutdown();
    template<class T> void Shutdown(const T&) { Shutdown(); }

    std::shared_ptr<standin::Call> accept(int method); // null: not serving
    std::vector<std::string> addresses;
    std::vector<Service*>    services;

private:
    void handle(std::shared_ptr<standin::Call> c);
    std::mutex               m_;
    std::condition_variable  cv_;
    bool                     down_ = false;
    int                      calls_ = 0;
};
class ServerBuilder
{
public:
    ServerBuilder& AddListeningPort(const std::string& a, const std::shared_ptr<ServerCredentials>&, int* port = nullptr)
    {
        addresses_.push_back(a);
        if (port) *port = 1;
        return *this;
    }
    ServerBuilder& RegisterService(Service* s) { services_.push_back(s); return *this; }
    std::unique_ptr<Server> BuildAndStart();

private:
    std::vector<std::string> addresses_;
    std::vector<Service*>    services_;
};

namespace standin {
// The two services have the same shape: what protoc's gRPC plugin makes of it.
enum { SETUP, SEARCH, INSERT, BULK };
template<class Q, class P> Status unary(const std::string& a, int method, ClientContext* ctx, const Q& q, P* p)
{
    ctx->call_ = start(a, method);
    ClientWriter<Q> w(ctx->call_, p);
    w.Write(q);
    w.WritesDone();
    return w.Finish();
}
template<class Setup, class Search, class Reply, class Update, class Empty> struct Generated
{
    class Stub
    {
    public:
        explicit Stub(std::string a) : address_(std::move(a)) {}
        Status setup(ClientContext* c, const Setup& q, Empty* p) { return unary(address_, SETUP, c, q, p); }
        Status insert(ClientContext* c, const Update& q, Empty* p) { return unary(address_, INSERT, c, q, p); }
        std::unique_ptr<ClientReader<Reply>> search(ClientContext* c, const Search& q)
        {
            c->call_ = start(address_, SEARCH);
            Empty e;
            ClientWriter<Search> w(c->call_, &e);
            w.Write(q);
            w.WritesDone();
            return std::unique_ptr<ClientReader<Reply>>(new ClientReader<Reply>(c->call_));
        }
        std::unique_ptr<ClientWriter<Update>> bulk_insert(ClientContext* c, Empty* p)
        {
            c->call_ = start(address_, BULK);
            return std::unique_ptr<ClientWriter<Update>>(new ClientWriter<Update>(c->call_, p));
        }

    private:
        std::string address_;
    };
    class Service : public grpc::Service
    {
    public:
        virtual Status setup(ServerContext*, const Setup*, Empty*) { return Status(UNIMPLEMENTED, ""); }
        virtual Status search(ServerContext*, const Search*, ServerWriter<Reply>*) { return Status(UNIMPLEMENTED, ""); }
        virtual Status insert(ServerContext*, const Update*, Empty*) { return Status(UNIMPLEMENTED, ""); }
        virtual Status bulk_insert(ServerContext*, ServerReader<Update>*, Empty*) { return Status(UNIMPLEMENTED, ""); }
        Status standin_handle(int method, ServerContext* ctx, Call& c) override
        {
            Empty  e;
            Status s;
            if (method == BULK) {
                ServerReader<Update> r(&c);
                s = bulk_insert(ctx, &r, &e);
            } else {
                std::string d;
                {
                    std::unique_lock<std::mutex> l(c.m);
                    if (!c.receive(c.up, d, l, false)) return Status(StatusCode::CANCELLED, "");
                }
                Setup t; Search q; Update u;
                bool ok = method == SETUP ? t.ParseFromString(d) : method == SEARCH ? q.ParseFromString(d) : u.ParseFromString(d);
                if (!ok) return Status(INTERNAL, "unable to parse the request");
                if (method == SETUP) s = setup(ctx, &t, &e);
                else if (method == INSERT) s = insert(ctx, &u, &e);
                else {
                    ServerWriter<Reply> w(&c);
                    return search(ctx, &q, &w);
                }
            }
            if (s.ok()) {
                std::unique_lock<std::mutex> l(c.m);
                c.send(c.down, e.SerializeAsString(), l, false);
            }
            return s;
        }
    };
};
} // namespace standin
} // namespace grpc
