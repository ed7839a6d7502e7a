"""Independent wire helpers used by the drivers (projection only, no checking)."""
import json
import struct
import urllib.parse

CODES = ["ok", "canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "already_exists",
         "permission_denied", "resource_exhausted", "failed_precondition", "aborted", "out_of_range",
         "unimplemented", "internal", "unavailable", "data_loss", "unauthenticated"]
CTYPE = {"connect": "application/connect+", "grpc": "application/grpc+", "grpcweb": "application/grpc-web+"}
ENC_H = {"connect": "connect-content-encoding", "grpc": "grpc-encoding", "grpcweb": "grpc-encoding"}
ACC_H = {"connect": "connect-accept-encoding", "grpc": "grpc-accept-encoding", "grpcweb": "grpc-accept-encoding"}


def E(ev, **kw):
    e = {"ev": ev, "n": 0, "id": 0, "code": "", "msg": "", "kv": [], "ok": False}
    e.update(kw)
    return e


def skv(items):
    out = [[str(k).lower(), str(v)] for k, v in items]
    out.sort(key=lambda p: p[0])
    return out


def env(flag, data):
    return struct.pack(">BI", flag, len(data)) + data


def grpc_term(kv):
    """trailers -> (ok, code, msg, user kv, details-bin)"""
    st = [v for k, v in kv if k.lower() == "grpc-status"]
    ms = [v for k, v in kv if k.lower() == "grpc-message"]
    det = [v for k, v in kv if k.lower() == "grpc-status-details-bin"]
    user = [(k, v) for k, v in kv if not k.lower().startswith("grpc-")]
    if len(st) != 1 or len(ms) > 1 or len(det) > 1:
        return None
    try:
        code = CODES[int(st[0])]
    except Exception:
        return None
    return (st[0] == "0", "" if st[0] == "0" else code, urllib.parse.unquote(ms[0]) if ms else "", user,
            det[0] if det else "")


class ResponseParser:
    """Incremental parser of an enveloped response body into events."""

    def __init__(self, proto, log, intern, comps, enc):
        self.buf = bytearray()
        self.proto, self.log, self.intern, self.comps, self.enc = proto, log, intern, comps, enc

    def set_enc(self, enc):
        self.enc = enc

    def feed(self, data):
        self.buf += data
        while len(self.buf) >= 5:
            ln = int.from_bytes(self.buf[1:5], "big")
            if len(self.buf) < 5 + ln:
                return
            flag = self.buf[0]
            body = bytes(self.buf[5:5 + ln])
            del self.buf[:5 + ln]
            self.frame(flag, body)

    def frame(self, flag, body):
        bad = False
        if flag & 1:
            c = self.comps.get(self.enc) if self.enc != "identity" else None
            if c is None:
                bad = True
            else:
                try:
                    body = c.decompress(body)
                except Exception:
                    bad = True
        endbit = {"connect": 2, "grpcweb": 128}.get(self.proto, 0)
        if flag & endbit:
            if bad or flag & ~(endbit | 1):
                self.log(E("s_junk"))
                return
            try:
                if self.proto == "connect":
                    d = json.loads(body)
                    kv = [(k, v) for k, vs in d.get("metadata", {}).items() for v in vs]
                    err = d.get("error")
                    assert set(d) <= {"metadata", "error"}
                    if err is not None:
                        self.log(E("s_term", ok=False, code=err["code"], msg=err.get("message", ""), kv=skv(kv)))
                    else:
                        self.log(E("s_term", ok=True, kv=skv(kv)))
                else:
                    kv = []
                    for line in body.decode().split("\r\n"):
                        if line:
                            k, v = line.split(":", 1)
                            kv.append((k.strip(), v.strip()))
                    t = grpc_term(kv)
                    assert t
                    self.log(E("s_term", ok=t[0], code=t[1], msg=t[2], kv=skv(t[3])))
            except Exception:
                self.log(E("s_junk"))
            return
        if flag & ~1:
            self.log(E("s_junk"))
            return
        self.log(E("s_msg", id=-2 if bad else self.intern.get(body), n=flag))

    def finish(self):
        if self.buf:
            self.log(E("s_junk"))
            self.buf.clear()
