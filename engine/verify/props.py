"""The properties: which contract families decide each of them."""
from special import *
from text import *
from errors import *
from caps import *
from content import *
from meta import *
from oldenv import *
import re
import elicit, roundtrip, derived


HIT = {}


def call(c, f):
    """runs a family; in a replay of one unit, families that do not have it are left out"""
    if c.target is None:
        return f(c)
    key = (id(f), c.ver, c.prop, c.target, c.picked)
    if HIT.get(key) is False:
        return
    old, c.hit = c.hit, False
    f(c)
    HIT.setdefault(key, c.hit)
    c.hit = c.hit or old


def union(*fs):
    def run(c):
        for f in fs:
            call(c, f)
    return run


def dispatching(c):
    """everything a message's method decides"""
    for n in c.spec["untagged"]:
        untagged_de(c, n)
    for n, s in c.spec["structs"].items():
        if s["serde"] and any(isinstance(f.get("const"), str) and f["k"] in ("method", "jsonrpc", "type", "mode") for f in s["fields"]):
            struct_de(c, n)
    from_methods(c)


def strict_envelopes(c):
    for t in envs(c):
        strict_de(c, t)
        strict_ser(c, t)
    for n in ("JsonrpcRequest", "JsonrpcNotification", "JsonrpcErrorResponse", "JsonrpcError", "JsonrpcResponse", "JsonrpcResultResponse"):
        if n in c.spec["structs"] and c.spec["structs"][n]["serde"]:
            struct_de(c, n)
            struct_ser(c, n)


def result_type(c):
    if c.ver not in ("2026_07_28", "draft"):
        return
    for n, s in c.spec["structs"].items():
        if s["serde"] and any(f["k"] == "resultType" for f in s["fields"]):
            struct_de(c, n)
            struct_ser(c, n)
    for n in ("ServerResult", "ResultFromServer", "ClientResult"):
        if n in c.spec["untagged"]:
            untagged_de(c, n)
            untagged_ser(c, n)
    for n in c.spec["transparent"]:
        if n == "ResultType":
            transparent(c, n, "de")
            transparent(c, n, "ser")
    result_kinds(c)


def no_panics(c):
    c.only = {"never panics", "in reach of the verifier"}
    try:
        everything(c)
    finally:
        c.only = None


def also(src, rx):
    """the units of another property that are part of this one's statement too"""
    rx = re.compile(rx)

    def run(c):
        old, c.picked = (c.pick, c.picked), (c.picked, src, rx.pattern)
        c.pick = lambda f: bool(rx.search(f)) and (old[0] is None or old[0](f))
        try:
            for s in src.split():
                for f in PROPS[s]["own"]:
                    call(c, f)
        finally:
            c.pick, c.picked = old
    return run


def strenum_wire(c):
    for n in c.spec["strenums"]:
        also("P01 P02", r"^%s::(de)?serialize$" % n)(c)


PROPS = {}


def P(i, title, *fs, **kw):
    more = [also(*a) for a in kw.pop("more", ())]
    PROPS[i] = dict(title=title, own=fs, run=union(*fs, *more), **kw)


P("P01", "Reading", wire_reading, lambda c: [strict_de(c, t) for t in envs(c)])
P("P02", "Writing", wire_writing, lambda c: [strict_ser(c, t) for t in envs(c)])
P("P03", "Constants and constructors", constants_all, ctors_all, builders_all,
  more=[('P07 P13 P15 P16 P18 P22', r"^\w+::(new|create|with_\w+|add\w*|from_content|\w+_content|resource_link|embedded_resource|insert)$")])
P("P04", "Round trip", roundtrip.round_trip)
P("P05", "Dispatch", dispatching,
  more=[('P03', r"^\w+::(method|type_|mode|code|jsonrpc)(_name|_value)?$"),
        ('P01', r"^(Client|Server)(Jsonrpc\w+|Message)::deserialize$"),
        ('P06', r"::method$")])
P("P06", "Envelope classification", classification, rpc_accessors, inherent_accessors,
  more=[('P10', r"^(Client|Server)Message::as_|^<(Client|Server)Message as From<"),
        ('P01', r"^(Client|Server)Messages?::deserialize$|^MessageFrom(Client|Server)::deserialize$"),
        ('P03', r"^\w+::(jsonrpc|method)$")])
P("P07", "Message ids", from_messages, per_type_messages, env_new, env_of, env_into, response_new,
  more=[('P10', r"^<(Client|Server)Jsonrpc\w+ as From<|^<(Request|Notification|Result)From(Client|Server) as From<\w*Jsonrpc"),
        ('P03 P13', r"^Jsonrpc\w+::(new|create)$")])
P("P08", "Strict envelopes", strict_envelopes,
  more=[('P01 P02', r"^\w*(Request|Notification|Response|JsonrpcError|Message|JsonrpcMessage)::(de)?serialize$"),
        ('P03 P07 P13', r"^\w*Jsonrpc\w+::(new|create|jsonrpc)$"),
        ('P06', r"::jsonrpc$")])
P("P09", "Result type", result_type, vers=["2026_07_28", "draft"],
  more=[('P01 P02', r"^(\w*Result\w*)::(de)?serialize$|^ServerJsonrpcResponse::"),
        ('P03', r"^\w*Result\w*::new$"),
        ('P04', r"^\w*Result\w*(::\w+)?: written and read back$")])
P("P10", "Conversions", conversions_all, special_conversions, as_functions, from_methods,
  more=[('P07', r"From"),
        ('P15', r"::as_"),
        ('P13', r"^<CallToolResult as From<|^<RpcError as From<"),
        ('P18 P22', r"::as_\w+$")])
P("P11", "Gating", gating, task_predicates)
P("P12", "Request ids", request_id_text, roundtrip.request_ids,
  more=[('P10', r"^<RequestId as ")])
P("P13", "Errors", codes, error_ctors, error_conversions, tool_errors,
  more=[('P03', r"^\w*Error\w*::"),
        ('P10', r"<RpcError>|as From<CallToolError>")])
P("P14", "Versions", protocol_versions)
P("P15", "Batches", batches,
  more=[('P10', r"Messages\w* as From<|Batch\w* as From<"),
        ('P01 P02 P04 P21', r"^<?\w*(Messages\w*|Batch\w*)\b")])
P("P16", "Metadata", trace_context, request_meta, task_meta,
  more=[('P03', r"::with_(meta|task|input_\w+|request_state|client_info|log_level|progress_token)$|^\w*Meta\w*::"),
        ('P18 P22', r"::with_(meta|task|input_\w+|request_state)$")])
P("P17", "Elicitation schemas", elicit.schemas)
P("P18", "Content", content_blocks, tool_results,
  more=[('P03', r"^(\w*Content|\w*ResourceContents|EmbeddedResource|ResourceLink|CallToolResult)::"),
        ('P10', r"^<(\w*Content\w*|EmbeddedResourceResource|CallToolResult) as From<"),
        ('P13', r"^<CallToolResult as From<CallToolError>|^CallToolError::from_message")])
P("P20", "String enums", strenum_texts, strenum_wire)
P("P21", "Message texts", message_texts,
  more=[("P13 P14 P17", r"Error\w* as Display>"), ("P20", r"^<StringSchemaFormat as FromStr>")])
P("P22", "Input requests and lifecycle", input_requests, result_kinds, lifecycle,
  more=[('P10', r"Input(Request|Response|Required)"),
        ('P03 P16', r"^Input\w+::|::with_(input_\w+|request_state)$"),
        ('P01 P02', r"^(Input\w+|ServerResult)::")])
P("P23", "Copies, comparisons, defaults", derived.derived)


def everything(c):
    for i in ("P01", "P02", "P03", "P06", "P07", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P20", "P21", "P22", "P23"):
        for f in PROPS[i]["own"]:
            call(c, f)


P("P19", "No panics", no_panics)
