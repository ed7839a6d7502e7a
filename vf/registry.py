from . import gen_cg, gen_client, gen_codec, gen_e2e, gen_errwire, gen_gate, gen_headers, gen_icpt, gen_inst, gen_life, gen_otel, gen_scope, gen_server
from .core import Suite

SERVER = Suite("server", "server", "Trace_RpcServer", gen_server.gen,
               mc=[("MC_RpcServer", "MC_RpcServer.cfg")], mc_thorough=[("MC_RpcServer", "MC_RpcServer_big.cfg")])

CLIENT = Suite("client", "client", "Trace_RpcClient", gen_client.gen,
               mc=[("MC_RpcClient", "MC_RpcClient.cfg")], mc_thorough=[("MC_RpcClient", "MC_RpcClient_big.cfg")])

GATE = Suite("gate", "gate", "Trace_HttpGate", gen_gate.gen, mc=[("MC_HttpGate", "MC_HttpGate.cfg")], mc_thorough=[("MC_HttpGate", "MC_HttpGate_big.cfg")])

E2E = Suite("e2e", "e2e", "Trace_EndToEnd", gen_e2e.gen, mc=[("MC_EndToEnd", "MC_EndToEnd.cfg"), ("MC_EndToEnd", "MC_EndToEnd_two.cfg")], mc_thorough=[("MC_EndToEnd", "MC_EndToEnd_big.cfg")])

ICPT = Suite("interceptors", "icpt", "Trace_Interceptors", gen_icpt.gen, mc=[("MC_Interceptors", "MC_Interceptors.cfg")], mc_thorough=[("MC_Interceptors", "MC_Interceptors_big.cfg"), ("MC_Interceptors", "MC_Interceptors_cut.cfg")])

HEADERS = Suite("headers", "headers", "Trace_Headers", gen_headers.gen, mc=[("MC_Headers", "MC_Headers.cfg")], mc_thorough=[("MC_Headers", "MC_Headers_big.cfg")])

LIFE = Suite("lifespan", "life", "Trace_Lifespan", gen_life.gen, mc=[("MC_Lifespan", "MC_Lifespan.cfg")], mc_thorough=[("MC_Lifespan", "MC_Lifespan_big.cfg")])

SCOPE = Suite("scopes", "scope", "Trace_ResponseScope", gen_scope.gen, mc=[("MC_ResponseScope", "MC_ResponseScope.cfg")], mc_thorough=[("MC_ResponseScope", "MC_ResponseScope_big.cfg")])

ERRWIRE = Suite("errwire", "errwire", "Trace_ErrorWire", gen_errwire.gen, mc=[("MC_ErrorWire", "MC_ErrorWire.cfg")], mc_thorough=[("MC_ErrorWire", "MC_ErrorWire_big.cfg")])

OTEL = Suite("otel", "otel", "Trace_Telemetry", gen_otel.gen, mc=[("MC_Telemetry", "MC_Telemetry.cfg")], mc_thorough=[("MC_Telemetry", "MC_Telemetry_big.cfg")])

INST = Suite("instrument", "inst", "Trace_Instrument", gen_inst.gen, mc=[("MC_Instrument", "MC_Instrument.cfg")], mc_thorough=[("MC_Instrument", "MC_Instrument_big.cfg")])

CODEC = Suite("codec", "codec", "Trace_Codec", gen_codec.gen, mc=[("MC_Codec", "MC_Codec.cfg")], mc_thorough=[("MC_Codec", "MC_Codec_big.cfg")])

CODEGEN = Suite("codegen", "codegen", "Trace_Codegen", gen_cg.gen, mc=[("MC_Codegen", "MC_Codegen.cfg")], mc_thorough=[("MC_Codegen", "MC_Codegen_big.cfg")])

CHECKS = {
    "C21": [CODEGEN],
    "C25": [INST],
    "C20": [OTEL],
    "C24": [ERRWIRE],
    "C18": [SCOPE, E2E],
    "C17": [LIFE],
    "C16": [HEADERS],
    "C14": [ICPT],
    "C05": [E2E],
    "C08": [E2E],
    "C11": [GATE, E2E],
    "C19": [E2E],
    "C26": [E2E],
    "C07": [GATE],
    "C15": [GATE, E2E],
    "C22": [CODEC, GATE, E2E],
    "C23": [GATE],
    "C02": [CLIENT],
    "C06": [CLIENT],
    "C12": [CLIENT],
    "C01": [SERVER],
    "C03": [SERVER],
    "C04": [SERVER, CLIENT],
    "C13": [SERVER],
    "C10": [SERVER, CLIENT, GATE],
    "C09": [SERVER, CLIENT, GATE, E2E, CODEC],
}

SPECS = {k: ", ".join(dict.fromkeys(m for s in v for m in ([x[0] for x in s.mc] + [s.trace]))) for k, v in CHECKS.items()}
NA = {}
