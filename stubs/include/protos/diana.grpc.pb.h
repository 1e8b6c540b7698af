// Stand-in for what protoc's gRPC plugin makes of lib/protos/diana.proto
#pragma once
#include "diana.pb.h"
#include <google/protobuf/empty.pb.h>
#include <grpcpp/grpcpp.h>
namespace sse {
namespace diana {
class Diana final
{
    using G = grpc::standin::Generated<SetupMessage, SearchRequestMessage, SearchReply, UpdateRequestMessage, google::protobuf::Empty>;

public:
    class Stub final : public G::Stub
    {
    public:
        using G::Stub::Stub;
    };
    static std::unique_ptr<Stub> NewStub(const std::shared_ptr<grpc::ChannelInterface>& c, const grpc::StubOptions& = grpc::StubOptions())
    {
        return std::unique_ptr<Stub>(new Stub(c->standin_address));
    }
    class Service : public G::Service {};
};
}
}
