// A stand-in for gRPC (absent here): the synchronous C++ interface over an
// in-process transport. Messages are encoded and decoded as on the wire, each
// call runs in a thread of its own, streams are bounded queues, exceptions of
// a handler become a status. What gRPC forbids (simultaneous writes or reads
// of one stream, a context used twice) is reported to grpc::vt::on_misuse, and
// grpc::vt::plan decides which calls the network loses.
#pragma once
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <utility>

namespace grpc {

enum StatusCode {
    OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5, ALREADY_EXISTS = 6,
    PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11,
    UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15, UNAUTHENTICATED = 16
};

class Status
{
public:
    Status() = default;
    Status(StatusCode c, std::string m) : code_(c), msg_(std::move(m)) {}
    bool               ok() const { return code_ == StatusCode::OK; }
    StatusCode         error_code() const { return code_; }
    const std::string& error_message() const { return msg_; }
    static const Status& OK;

private:
    StatusCode  code_{StatusCode::OK};
    std::string msg_;
};
inline const Status  kOkStatus_;
inline const Status& Status::OK = kOkStatus_;

namespace vt {
// what the network does to one call
struct Loss
{
    bool request{false}; // never reaches the server
    bool reply{false};   // the server did the work, the client does not hear of it
    long stream{-1};     // the stream breaks after so many messages
};
inline std::function<Loss(const std::string& method)>   plan;
inline std::function<void(const char* what)>            on_misuse;
inline std::function<void(const std::string& method, const Status&)> on_status; // as the handler ended
inline void misuse(const char* w) { if (on_misuse) on_misuse(w); }

// one direction of a stream
class Pipe
{
public:
    bool push(std::string s)
    {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return broken_ || closed_ || q_.size() < 16; });
        if (broken_ || closed_) return false;
        if (left_ == 0) { broken_ = true; cv_.notify_all(); return false; }
        if (left_ > 0) left_--;
        q_.push_back(std::move(s));
        cv_.notify_all();
        return true;
    }
    bool pop(std::string& s)
    {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return broken_ || closed_ || !q_.empty(); });
        if (q_.empty()) return false;
        s = std::move(q_.front());
        q_.pop_front();
        cv_.notify_all();
        return true;
    }
    void close() { std::lock_guard<std::mutex> l(m_); closed_ = true; cv_.notify_all(); }
    void brk() { std::lock_guard<std::mutex> l(m_); broken_ = true; cv_.notify_all(); }
    void limit(long n) { left_ = n; }
    bool broken() { std::lock_guard<std::mutex> l(m_); return broken_; }

private:
    std::mutex              m_;
    std::condition_variable cv_;
    std::deque<std::string> q_;
    bool                    closed_{false}, broken_{false};
    long                    left_{-1};
};

struct Call
{
    Pipe                    up, down;
    std::mutex              m;
    std::condition_variable cv;
    bool                    done{false};
    bool                    lose_reply{false};
    Status                  status;
    void finish(Status s)
    {
        std::lock_guard<std::mutex> l(m);
        status = std::move(s);
        done   = true;
        cv.notify_all();
    }
    Status wait()
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return done; });
        return status;
    }
};

// reports two threads in one place
struct Alone
{
    std::mutex&  m;
    bool         got;
    Alone(std::mutex& mx, const char* w) : m(mx), got(mx.try_lock()) { if (!got) misuse(w); }
    ~Alone() { if (got) m.unlock(); }
};
} // namespace vt

class ServerContext
{
};

class Service
{
public:
    virtual ~Service() = default;
    virtual Status vt_dispatch(const std::string& method, vt::Call& c) = 0;
};

namespace vt {
struct Host
{
    Service*                service{nullptr};
    std::mutex              m;
    std::condition_variable cv;
    bool                    up{true};
    int                     running{0};
};
struct Net
{
    std::mutex                                   m;
    std::map<std::string, std::shared_ptr<Host>> hosts;
};
inline Net& net() { static Net n; return n; }
} // namespace vt

struct ServerCredentials {};
struct ChannelCredentials {};
inline std::shared_ptr<ServerCredentials>  InsecureServerCredentials() { return std::make_shared<ServerCredentials>(); }
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }

class ClientContext
{
public:
    ClientContext() = default;
    ClientContext(const ClientContext&) = delete;
    ~ClientContext()
    {
        // as the last reference to an unfinished call: cancelled
        if (call_) { call_->up.brk(); call_->down.brk(); }
    }
    void vt_attach(std::shared_ptr<vt::Call> c)
    {
        if (call_) vt::misuse("a client context used for two calls");
        call_ = std::move(c);
    }

private:
    std::shared_ptr<vt::Call> call_;
};

class Channel
{
public:
    explicit Channel(std::string a) : address_(std::move(a)) {}
    std::shared_ptr<vt::Call> vt_start(ClientContext* ctx, const std::string& method)
    {
        auto c = std::make_shared<vt::Call>();
        ctx->vt_attach(c);
        vt::Loss loss;
        if (vt::plan) loss = vt::plan(method);
        std::shared_ptr<vt::Host> h;
        {
            std::lock_guard<std::mutex> l(vt::net().m);
            auto it = vt::net().hosts.find(address_);
            if (it != vt::net().hosts.end()) h = it->second;
        }
        if (h) {
            std::lock_guard<std::mutex> l(h->m);
            if (!h->up) h.reset();
            else if (!loss.request) h->running++;
        }
        if (!h || loss.request) {
            c->up.brk();
            c->down.brk();
            c->finish(Status(StatusCode::UNAVAILABLE, "failed to connect"));
            return c;
        }
        c->lose_reply = loss.reply;
        if (loss.stream >= 0) { c->up.limit(loss.stream); c->down.limit(loss.stream); }
        std::thread([c, h, method] {
            Status s;
            try {
                s = h->service->vt_dispatch(method, *c);
            } catch (...) {
                s = Status(StatusCode::UNKNOWN, "Unexpected error in RPC handling");
            }
            if (vt::on_status) vt::on_status(method, s);
            if (c->up.broken() || c->down.broken()) s = Status(StatusCode::UNAVAILABLE, "broken stream");
            if (c->lose_reply) s = Status(StatusCode::UNAVAILABLE, "connection reset");
            c->down.close();
            c->up.brk(); // nobody reads any more
            c->finish(s);
            std::lock_guard<std::mutex> l(h->m);
            h->running--;
            h->cv.notify_all();
        }).detach();
        return c;
    }

private:
    std::string address_;
};
using ChannelInterface = Channel;
inline std::shared_ptr<Channel> CreateChannel(const std::string& a, const std::shared_ptr<ChannelCredentials>&)
{
    return std::make_shared<Channel>(a);
}

class Server
{
public:
    Server(std::string a, Service* s) : address_(std::move(a)), host_(std::make_shared<vt::Host>())
    {
        host_->service = s;
        std::lock_guard<std::mutex> l(vt::net().m);
        vt::net().hosts[address_] = host_;
    }
    ~Server() { Shutdown(); }
    void Shutdown()
    {
        {
            std::lock_guard<std::mutex> l(vt::net().m);
            auto it = vt::net().hosts.find(address_);
            if (it != vt::net().hosts.end() && it->second == host_) vt::net().hosts.erase(it);
        }
        std::unique_lock<std::mutex> l(host_->m);
        host_->up = false;
        host_->cv.notify_all();
        host_->cv.wait(l, [&] { return host_->running == 0; });
    }
    void Wait()
    {
        std::unique_lock<std::mutex> l(host_->m);
        host_->cv.wait(l, [&] { return !host_->up && host_->running == 0; });
    }

private:
    std::string               address_;
    std::shared_ptr<vt::Host> host_;
};

class ServerBuilder
{
public:
    ServerBuilder& AddListeningPort(const std::string& a, const std::shared_ptr<ServerCredentials>&)
    {
        address_ = a;
        return *this;
    }
    ServerBuilder& RegisterService(Service* s)
    {
        service_ = s;
        return *this;
    }
    std::unique_ptr<Server> BuildAndStart() { return std::unique_ptr<Server>(new Server(address_, service_)); }

private:
    std::string address_;
    Service*    service_{nullptr};
};

template<class W>
class ServerWriter
{
public:
    explicit ServerWriter(vt::Call& c) : c_(c) {}
    bool Write(const W& m)
    {
        vt::Alone a(mx_, "simultaneous writes of one server stream");
        return c_.down.push(m.SerializeAsString());
    }

private:
    vt::Call&  c_;
    std::mutex mx_;
};

template<class R>
class ServerReader
{
public:
    explicit ServerReader(vt::Call& c) : c_(c) {}
    bool Read(R* m)
    {
        vt::Alone   a(mx_, "simultaneous reads of one server stream");
        std::string s;
        return c_.up.pop(s) && m->ParseFromString(s);
    }

private:
    vt::Call&  c_;
    std::mutex mx_;
};

template<class R>
class ClientReader
{
public:
    explicit ClientReader(std::shared_ptr<vt::Call> c) : c_(std::move(c)) {}
    bool Read(R* m)
    {
        vt::Alone   a(mx_, "simultaneous reads of one client stream");
        std::string s;
        return c_->down.pop(s) && m->ParseFromString(s);
    }
    Status Finish() { return c_->wait(); }

private:
    std::shared_ptr<vt::Call> c_;
    std::mutex                mx_;
};

template<class W>
class ClientWriter
{
public:
    ClientWriter(std::shared_ptr<vt::Call> c, std::function<void(const std::string&)> reply) : c_(std::move(c)), reply_(std::move(reply)) {}
    bool Write(const W& m)
    {
        vt::Alone a(mx_, "simultaneous writes of one client stream");
        return c_->up.push(m.SerializeAsString());
    }
    bool WritesDone()
    {
        vt::Alone a(mx_, "simultaneous writes of one client stream");
        c_->up.close();
        return true;
    }
    Status Finish()
    {
        vt::Alone a(mx_, "a client stream finished while it is written");
        Status    s = c_->wait();
        std::string r;
        if (s.ok() && c_->down.pop(r)) reply_(r);
        return s;
    }

private:
    std::shared_ptr<vt::Call>               c_;
    std::function<void(const std::string&)> reply_;
    std::mutex                              mx_;
};

namespace vt {
// the server's side
template<class In, class Out, class F>
Status serve_unary(Call& c, F f)
{
    std::string s;
    In          in;
    Out         out;
    if (!c.up.pop(s) || !in.ParseFromString(s)) return Status(StatusCode::INTERNAL, "no request");
    ServerContext ctx;
    Status        st = f(&ctx, &in, &out);
    if (st.ok()) c.down.push(out.SerializeAsString());
    return st;
}
template<class In, class Out, class F>
Status serve_server_stream(Call& c, F f)
{
    std::string s;
    In          in;
    if (!c.up.pop(s) || !in.ParseFromString(s)) return Status(StatusCode::INTERNAL, "no request");
    ServerContext     ctx;
    ServerWriter<Out> w(c);
    return f(&ctx, &in, &w);
}
template<class In, class Out, class F>
Status serve_client_stream(Call& c, F f)
{
    Out              out;
    ServerContext    ctx;
    ServerReader<In> r(c);
    Status           st = f(&ctx, &r, &out);
    if (st.ok()) c.down.push(out.SerializeAsString());
    return st;
}
// the client's
template<class In, class Out>
Status call_unary(Channel& ch, ClientContext* ctx, const char* method, const In& in, Out* out)
{
    auto c = ch.vt_start(ctx, method);
    c->up.push(in.SerializeAsString());
    Status      s = c->wait();
    std::string r;
    if (s.ok() && c->down.pop(r)) out->ParseFromString(r);
    return s;
}
template<class In, class Out>
std::unique_ptr<ClientReader<Out>> call_server_stream(Channel& ch, ClientContext* ctx, const char* method, const In& in)
{
    auto c = ch.vt_start(ctx, method);
    c->up.push(in.SerializeAsString());
    return std::unique_ptr<ClientReader<Out>>(new ClientReader<Out>(c));
}
template<class In, class Out>
std::unique_ptr<ClientWriter<In>> call_client_stream(Channel& ch, ClientContext* ctx, const char* method, Out* out)
{
    auto c = ch.vt_start(ctx, method);
    return std::unique_ptr<ClientWriter<In>>(new ClientWriter<In>(c, [out](const std::string& r) { out->ParseFromString(r); }));
}
} // namespace vt
} // namespace grpc
