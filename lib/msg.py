"""Independent SNMP message layer: session configurations, strict request parser and
a free-form reply builder."""

from __future__ import annotations

from . import crypto
from .ber import NULL, Malformed, Reader, enc_int, enc_oid, ostr, seq, tlv

GET, GETNEXT, RESPONSE, GETBULK, REPORT = 0xA0, 0xA1, 0xA2, 0xA5, 0xA8
VER = {"v1": 0, "v2c": 1, "v3": 3}
F_AUTH, F_PRIV, F_REPORT = 1, 2, 4
AUTH_CODE = {None: 0, "md5": 1, "sha1": 2}
PRIV_CODE = {None: 0, "des": 1, "aes": 2}
KT_CODE = {"password": 0, "master": 1, "localized": 2}


class Cfg:
    """Session configuration."""

    def __init__(
        self,
        version: str = "v2c",
        community: str = "public",
        user: str = "user",
        auth: str | None = None,
        priv: str | None = None,
        engine_id: bytes = b"",
        auth_kt: str = "password",
        priv_kt: str = "password",
        auth_secret: bytes = b"authpass",
        priv_secret: bytes = b"privpass",
    ):
        self.version = version
        self.community = community
        self.user = user
        self.auth = auth
        self.priv = priv
        self.engine_id = engine_id
        self.auth_kt = auth_kt
        self.priv_kt = priv_kt
        self.auth_secret = auth_secret
        self.priv_secret = priv_secret
        # Whatever else is set on sessions, it changes nothing
        self.extra: dict = {}
        self.v6 = False
        self.explicit = True

    def ll_extra(self) -> dict:
        return {{"send_buffer": "sb", "recv_buffer": "rb"}.get(k, k): v for k, v in self.extra.items()}

    def __repr__(self) -> str:
        if self.version != "v3":
            return f"{self.version}(community={self.community!r}{self._quirks()})"
        r = f"v3(user={self.user!r}, engine={self.engine_id.hex()}"
        if self.auth:
            r += f", {self.auth}/{self.auth_kt}={self.auth_secret!r}"
        if self.priv:
            r += f", {self.priv}/{self.priv_kt}={self.priv_secret!r}"
        return r + self._quirks() + ")"

    def _quirks(self) -> str:
        return "".join(f", {k}={v}" for k, v in self.extra.items()) + (", IPv6" if self.v6 else "") + ("" if self.explicit else ", version is not given")

    @property
    def name(self) -> str:
        if self.version != "v3":
            return self.version
        return "v3" + (f"-{self.auth}" if self.auth else "") + (f"-{self.priv}" if self.priv else "")

    def _derive(self, kt: str, secret: bytes, engine_id: bytes) -> bytes:
        n = crypto.KEY_SIZE[self.auth]
        if kt == "password":
            return crypto.localize(self.auth, crypto.master_key(self.auth, secret), engine_id)
        if kt == "master":
            return crypto.localize(self.auth, secret, engine_id)
        return secret[:n]

    def auth_key(self, engine_id: bytes) -> bytes:
        return self._derive(self.auth_kt, self.auth_secret, engine_id) if self.auth else b""

    def priv_key(self, engine_id: bytes) -> bytes:
        return self._derive(self.priv_kt, self.priv_secret, engine_id) if self.priv else b""

    @property
    def auth_code(self) -> int:
        return AUTH_CODE[self.auth] | (KT_CODE[self.auth_kt] << 6) if self.auth else 0

    @property
    def priv_code(self) -> int:
        return PRIV_CODE[self.priv] | (KT_CODE[self.priv_kt] << 6) if self.priv else 0

    # -- creating the objects under test
    def ll_socket(self, fast, addr: str, timeout_ns: int = 0, tos=0, sb=0, rb=0):
        """Low level socket object."""
        if self.version == "v1":
            return fast.SnmpV1ClientSocket(addr, self.community, tos, sb, rb, timeout_ns)
        if self.version == "v2c":
            return fast.SnmpV2cClientSocket(addr, self.community, tos, sb, rb, timeout_ns)
        return fast.SnmpV3ClientSocket(
            addr,
            self.engine_id,
            self.user,
            self.auth_code,
            self.auth_secret if self.auth else b"",
            self.priv_code,
            self.priv_secret if self.priv else b"",
            tos,
            sb,
            rb,
            timeout_ns,
        )

    def session(self, cls, port: int, *, discover: bool = False, **kw):
        """High level session of class cls (sync or async)."""
        from gufo.snmp.version import SnmpVersion

        from .net import HAVE_V6

        addr = "[::1]" if self.v6 and HAVE_V6 else "127.0.0.1"
        kw = {**self.extra, **kw}
        if self.explicit or self.version == "v1":
            kw["version"] = {"v1": SnmpVersion.v1, "v2c": SnmpVersion.v2c, "v3": SnmpVersion.v3}[self.version]
        if self.version != "v3":
            return cls(addr, port, community=self.community, **kw)
        return cls(
            addr,
            port,
            engine_id=None if discover else self.engine_id,
            user=self.user_obj(),
            **kw,
        )

    def user_obj(self):
        from gufo.snmp.user import Aes128Key, DesKey, KeyType, Md5Key, Sha1Key, User

        kt = {"password": KeyType.Password, "master": KeyType.Master, "localized": KeyType.Localized}
        a = p = None
        if self.auth:
            a = {"md5": Md5Key, "sha1": Sha1Key}[self.auth](self.auth_secret, key_type=kt[self.auth_kt])
        if self.priv:
            p = {"des": DesKey, "aes": Aes128Key}[self.priv](self.priv_secret, key_type=kt[self.priv_kt])
        return User(self.user, auth_key=a, priv_key=p)


class Req:
    """Parsed request."""

    __slots__ = (
        "raw", "version", "community", "msg_id", "max_size", "flags", "engine_id", "boots", "time", "user",
        "auth_params", "auth_off", "priv_params", "enc", "scoped", "pad", "ctx_engine", "ctx_name",
        "pdu_tag", "req_id", "f2", "f3", "oids", "usm_raw", "inner",
    )  # fmt: skip

    def __repr__(self) -> str:
        r = []
        for k in self.__slots__:
            v = getattr(self, k, None)
            if v is not None and k not in ("raw", "scoped", "enc", "usm_raw"):
                r.append(f"{k}={v.hex() if isinstance(v, bytes) else v!r}")
        return "Req(" + ", ".join(r) + ")"


def _pdu(req: Req, r: Reader) -> None:
    tag = r.peek()
    if tag not in (GET, GETNEXT, GETBULK):
        raise Malformed(f"PDU tag {tag:#x}")
    p = r.sub(tag)
    req.pdu_tag = tag
    req.req_id = p.integer()
    req.f2 = p.integer()
    req.f3 = p.integer()
    vbs = p.sub(0x30)
    p.done()
    req.oids = []
    while not vbs.eof:
        vb = vbs.sub(0x30)
        req.oids.append(vb.oid())
        vb.null()
        vb.done()


def parse_scoped(req: Req, data: bytes, block: int) -> None:
    """Strict scoped PDU followed by less than `block` octets of padding."""
    r = Reader(data)
    s = r.sub(0x30)
    req.scoped = data[: r.pos]
    req.pad = data[r.pos :]
    if len(req.pad) >= max(block, 1):
        raise Malformed(f"{len(req.pad)} octets of padding, block is {block}")
    req.ctx_engine = s.octets()
    req.ctx_name = s.octets()
    _pdu(req, s)
    s.done()


def parse_outer(data: bytes) -> tuple[Req, Reader]:
    """Strict parse of everything but msgData of v3. The reader stays at msgData (or PDU)."""
    req = Req()
    req.raw = data
    top = Reader(data)
    env = top.sub(0x30)
    top.done()
    req.version = env.integer()
    if req.version in (0, 1):
        req.community = env.octets()
        return req, env
    if req.version != 3:
        raise Malformed(f"version {req.version}")
    h = env.sub(0x30)
    req.msg_id = h.integer()
    req.max_size = h.integer()
    flags = h.octets()
    if len(flags) != 1:
        raise Malformed("msgFlags size")
    req.flags = flags[0]
    if h.integer() != 3:
        raise Malformed("security model")
    h.done()
    s, e = env.expect(4)
    u0 = Reader(data, s, e)
    u = u0.sub(0x30)
    u0.done()
    req.usm_raw = data[s:e]
    req.engine_id = u.octets()
    req.boots = u.integer()
    req.time = u.integer()
    req.user = u.octets()
    s, e = u.expect(4)
    req.auth_off = s
    req.auth_params = bytes(data[s:e])
    req.priv_params = u.octets()
    u.done()
    if not 0 <= req.boots < 1 << 31 or not 0 <= req.time < 1 << 31:
        raise Malformed(f"boots/time out of range: {req.boots} {req.time}")
    return req, env


def parse_inner(req: Req, env: Reader, cfg: Cfg | None = None, priv: tuple | None = None) -> None:
    """Strict parse of the rest: msgData, decrypted when the flag says so, or community PDU."""
    if req.version in (0, 1):
        _pdu(req, env)
        env.done()
        return
    data = req.raw
    if req.flags & F_PRIV:
        req.enc = env.octets()
        env.done()
        if priv is None and cfg is not None and cfg.priv:
            priv = (cfg.priv, cfg.priv_key(req.engine_id))
        if priv is None:
            raise Malformed("encrypted, but no key configured")
        if len(req.priv_params) != 8:
            raise Malformed(f"msgPrivacyParameters has {len(req.priv_params)} octets")
        alg, key = priv
        block = 8 if alg == "des" else 16
        if alg == "des" and len(req.enc) % 8:
            raise Malformed("DES ciphertext is not a multiple of 8")
        data = crypto.priv_decrypt(alg, key, req.priv_params, req.boots, req.time, req.enc)
        parse_scoped(req, data, block)
    else:
        req.enc = None
        s = env.pos
        env.expect(0x30)
        env.done()
        parse_scoped(req, data[s : env.pos], 0)


def parse_request(data: bytes, cfg: Cfg | None = None, priv: tuple | None = None) -> Req:
    """Strict parse. For encrypted messages `priv` is (alg, key), or taken from cfg."""
    req, env = parse_outer(data)
    parse_inner(req, env, cfg, priv)
    return req


def mac_ok(req: Req, alg: str, key: bytes) -> bool:
    z = req.raw[: req.auth_off] + bytes(len(req.auth_params)) + req.raw[req.auth_off + len(req.auth_params) :]
    return len(req.auth_params) == 12 and crypto.hmac96(alg, key, z) == req.auth_params


# ---- building ------------------------------------------------------------


def vb(name, value: bytes = NULL, f1: int = 0, f2: int = 0) -> bytes:
    """name: arcs or ready TLV."""
    n = name if isinstance(name, bytes) else enc_oid(name, f1)
    return seq(n, value, form=f2)


def pdu(tag: int, req_id: int, vbs, es: int = 0, ei: int = 0, f: int = 0) -> bytes:
    body = enc_int(req_id) + enc_int(es) + enc_int(ei) + tlv(0x30, b"".join(vbs), f)
    return tlv(tag, body, f)


def community_msg(version: int, community: bytes, p: bytes, f: int = 0) -> bytes:
    return seq(enc_int(version), ostr(community), p, form=f)


def v3_msg(
    scoped: bytes,
    *,
    msg_id: int,
    flags: int,
    engine_id: bytes,
    boots: int,
    time: int,
    user: bytes,
    auth_alg: str | None = None,
    auth_key: bytes = b"",
    mac="valid",  # "valid", None (absent), or literal bytes
    priv_alg: str | None = None,
    priv_key: bytes = b"",
    salt: bytes = b"\0" * 8,
    encrypt: bool = False,
    pad: bytes = b"",
    version: int = 3,
    max_size: int = 65507,
    model: int = 3,
    f: int = 0,
    priv_params: bytes | None = None,
    data: bytes | None = None,
    raw_flags: bytes | None = None,
) -> bytes:
    if data is None:
        if encrypt:
            data = ostr(crypto.priv_encrypt(priv_alg, priv_key, salt, boots, time, scoped, pad), f)
        else:
            data = scoped
    pp = priv_params if priv_params is not None else (salt if encrypt else b"")
    pt = ostr(pp)
    a = bytes(12) if mac == "valid" else (mac or b"")
    usm = seq(ostr(engine_id), enc_int(boots), enc_int(time), ostr(user), ostr(a), pt, form=f)
    hdr = seq(enc_int(msg_id), enc_int(max_size), ostr(bytes((flags,)) if raw_flags is None else raw_flags), enc_int(model))
    m = seq(enc_int(version), hdr, ostr(usm, f), data, form=f)
    if mac == "valid":
        off = len(m) - len(data) - len(pt) - 12
        m = m[:off] + crypto.hmac96(auth_alg, auth_key, m) + m[off + 12 :]
    return m


def scoped_pdu(p: bytes, engine_id: bytes, name: bytes = b"", f: int = 0) -> bytes:
    return seq(ostr(engine_id), ostr(name), p, form=f)


class Agent:
    """Builds replies of one well-behaved agent for the configuration."""

    def __init__(self, cfg: Cfg, engine_id: bytes | None = None, boots: int = 1, time: int = 100):
        self.cfg = cfg
        self.engine_id = cfg.engine_id if engine_id is None else engine_id
        self.boots = boots
        self.time = time
        self.salt = 0x1122334455667700

    def next_salt(self) -> bytes:
        self.salt = (self.salt + 1) & 0xFFFFFFFFFFFFFFFF
        return self.salt.to_bytes(8, "big")

    def reply(self, req: Req, vbs, *, tag: int = RESPONSE, es: int = 0, ei: int = 0, req_id=None, f: int = 0, **kw) -> bytes:
        p = pdu(tag, req.req_id if req_id is None else req_id, vbs, es, ei, f)
        return self.wrap(req, p, f=f, **kw)

    def wrap(self, req: Req, p: bytes, *, f: int = 0, secure: bool = True, **kw) -> bytes:
        cfg = self.cfg
        if cfg.version != "v3":
            return community_msg(
                kw.get("version", VER[cfg.version]),
                kw.get("community", cfg.community.encode()),
                p,
                f,
            )
        eid = kw.pop("engine_id", self.engine_id)
        d = {
            "msg_id": req.msg_id,
            "engine_id": eid,
            "boots": self.boots,
            "time": self.time,
            "user": req.user,
            "flags": 0,
            "mac": None,
            "f": f,
        }
        ctx, name = kw.pop("ctx", eid), kw.pop("ctx_name", b"")
        if secure and cfg.auth:
            d.update(auth_alg=cfg.auth, auth_key=cfg.auth_key(self.engine_id), mac="valid")
            d["flags"] |= F_AUTH
            if cfg.priv:
                d.update(priv_alg=cfg.priv, priv_key=cfg.priv_key(self.engine_id), encrypt=True, salt=self.next_salt())
                d["flags"] |= F_PRIV
        d.update(kw)
        return v3_msg(scoped_pdu(p, ctx, name, f=f), **d)

    def report(self, req: Req, oid=(1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0), value: int = 1, secure: bool = False, **kw) -> bytes:
        p = pdu(REPORT, req.req_id, [vb(oid, enc_int(value, 0x41))])
        return self.wrap(req, p, secure=secure, **kw)


def has_auth_error(req: Req, cfg: Cfg, engine_id: bytes) -> str | None:
    """Security of a request against the configuration; None when it is right."""
    if bool(req.flags & F_AUTH) != bool(cfg.auth):
        return f"auth flag {req.flags:#x} with auth={cfg.auth}"
    if bool(req.flags & F_PRIV) != bool(cfg.priv):
        return f"priv flag {req.flags:#x} with priv={cfg.priv}"
    if cfg.auth:
        if not mac_ok(req, cfg.auth, cfg.auth_key(engine_id)):
            return "MAC mismatch"
    elif req.auth_params:
        return "auth params without key"
    return None
