"""protos/<x>.proto -> protos/<x>.grpc.pb.h, over the stand-in for gRPC."""
import re, sys

K = {(False, False): "unary", (False, True): "server_stream", (True, False): "client_stream"}


def generate(text, stem):
    text = re.sub(r"//[^\n]*", "", text)
    pkg = re.search(r"package\s+([\w.]+)\s*;", text).group(1).split(".")
    o = ["#pragma once", f'#include "protos/{stem}.pb.h"', "#include <google/protobuf/empty.pb.h>", "#include <grpcpp/grpcpp.h>"]
    o += [f"namespace {p} {{" for p in pkg]
    for m in re.finditer(r"service\s+(\w+)\s*\{", text):
        end, depth = m.end(), 1
        while depth:
            depth += {"{": 1, "}": -1}.get(text[end], 0)
            end += 1
        rpcs = []
        for r in re.finditer(r"rpc\s+(\w+)\s*\(\s*(stream\s+)?([\w.]+)\s*\)\s*returns\s*\(\s*(stream\s+)?([\w.]+)\s*\)", text[m.end():end]):
            t = [x if "." not in x else "::" + x.replace(".", "::") for x in (r.group(3), r.group(5))]
            rpcs.append((r.group(1), t[0], t[1], K[(bool(r.group(2)), bool(r.group(4)))]))
        o += [f"class {m.group(1)} final", "{", "public:", "class Service : public ::grpc::Service", "{", "public:"]
        args = {"unary": "const {i}* a, {o}* b", "server_stream": "const {i}* a, ::grpc::ServerWriter<{o}>* b",
                "client_stream": "::grpc::ServerReader<{i}>* a, {o}* b"}
        for n, i, out, k in rpcs:
            o.append(f"virtual ::grpc::Status {n}(::grpc::ServerContext* c, {args[k].format(i=i, o=out)})"
                     f" {{ (void)c; (void)a; (void)b; return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, \"\"); }}")
        o.append("::grpc::Status vt_dispatch(const std::string& method, ::grpc::vt::Call& call) override\n{")
        for n, i, out, k in rpcs:
            o.append(f'if (method == "{n}") return ::grpc::vt::serve_{k}<{i}, {out}>(call, [this](::grpc::ServerContext* c, '
                     f"{args[k].format(i=i, o=out)}) {{ return this->{n}(c, a, b); }});")
        o.append('return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, "");\n}\n};')
        o.append("class Stub final\n{\npublic:\nexplicit Stub(std::shared_ptr<::grpc::Channel> c) : c_(std::move(c)) {}")
        for n, i, out, k in rpcs:
            if k == "unary":
                o.append(f'::grpc::Status {n}(::grpc::ClientContext* c, const {i}& a, {out}* b) {{ return ::grpc::vt::call_unary(*c_, c, "{n}", a, b); }}')
            elif k == "server_stream":
                o.append(f"std::unique_ptr<::grpc::ClientReader<{out}>> {n}(::grpc::ClientContext* c, const {i}& a) "
                         f'{{ return ::grpc::vt::call_server_stream<{i}, {out}>(*c_, c, "{n}", a); }}')
            else:
                o.append(f"std::unique_ptr<::grpc::ClientWriter<{i}>> {n}(::grpc::ClientContext* c, {out}* b) "
                         f'{{ return ::grpc::vt::call_client_stream<{i}, {out}>(*c_, c, "{n}", b); }}')
        o.append("private:\nstd::shared_ptr<::grpc::Channel> c_;\n};")
        o.append("static std::unique_ptr<Stub> NewStub(const std::shared_ptr<::grpc::ChannelInterface>& c) { return std::unique_ptr<Stub>(new Stub(c)); }\n};")
    o += ["}" for _ in pkg]
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    print(generate(open(sys.argv[1]).read(), sys.argv[2]))
