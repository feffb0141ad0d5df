"""Environment stubs shared by the targets: codec, compression, transports, handlers."""
from pyvc.harness import *
from pyvc.harness import SYMBOLIC
if SYMBOLIC:
    from pyvc import core, values as V
    from pyvc.core import PathEnd, Unsupported, uf
    from pyvc.runtime import Ghost, PvList, rt
    from pyvc.values import *
    from pyvc.models import ASSUMPTIONS, used

    ASSUMPTIONS["nonempty"] = "compressed data is never empty"


class CodecError(Exception):
    """What a codec raises on bytes it cannot decode."""


class CodecStub(Ghost):
    """A codec: encode and decode are uninterpreted; decode may reject."""

    def __init__(self, name="proto", may_fail=False):
        object.__setattr__(self, "name_", name)
        object.__setattr__(self, "may_fail", may_fail)
        object.__setattr__(self, "max_len", None)

    def name(self):
        return self.name_

    def encode(self, message):
        if self.may_fail and core.ex().choice(2, "encode_fails") == 1:
            raise CodecError("cannot encode")
        r = encode_e(message)
        V.fact(uf("codec_decode", V.S, core.Msg)(r) == message.e)
        if self.max_len is not None:
            V.fact(V.slen(r) < self.max_len)
        return SymBytes(r)

    def decode(self, data, message_class):
        d = V.bexpr(data)
        if d is None:
            raise TypeError("codec given something that is not bytes")
        h = core.ex().data.get("on_decode")
        if h is not None:
            h(d)
        if self.may_fail and not core.ex().branch(uf("decodable", V.S, V.B)(d)):
            raise CodecError("cannot decode")
        return MsgVal(decode_e(d), message_class)


def encode_e(m):
    return uf("codec_encode", core.Msg, V.S)(m.e)


def decode_e(d):
    if V._is(d, "codec_encode"):
        return d.arg(0)
    return uf("codec_decode", V.S, core.Msg)(d)


class CompressionStub(Ghost):
    """A compression that is not identity."""

    def __init__(self, name="gzip", may_fail=True):
        object.__setattr__(self, "name_", name)
        object.__setattr__(self, "may_fail", may_fail)

    def name(self):
        return self.name_

    def compress(self, data):
        r = uf(f"compress_{self.name_}", V.S, V.S)(V.bexpr(data))
        used("nonempty")
        V.fact(V.slen(r) > 0)
        return SymBytes(r)

    def decompress(self, data):
        x = V.bexpr(data)
        return SymBytes(self.dec(x))

    def dec(self, x):
        if V._is(x, f"compress_{self.name_}"):
            return x.arg(0)
        if self.may_fail and not core.ex().branch(uf(f"is_{self.name_}", V.S, V.B)(x)):
            raise ValueError("not compressed data")
        return uf(f"decompress_{self.name_}", V.S, V.S)(x)


class EndMessageError(Exception):
    """What handle_end_message raises on an end-of-stream frame it cannot accept."""


def end_message_contracts(h, on_end=None):
    """Contract of handle_end_message (proved of the real bodies by C01.end_message_*):

    returns False for a frame without the protocol's end bit, and neither raises nor changes
    anything but the reader's own flags then; for a frame with it, returns True or raises."""
    for mod, cls, bit_, flag in (
        ("_protocol_connect", "ConnectEnvelopeReader", 2, "_received_end_message"),
        ("_protocol_grpc", "GRPCWebEnvelopeReader", 128, "_read_message"),
    ):

        def c(self, prefix_byte, message_data, bit_=bit_, flag=flag):
            if flag == "_read_message":
                rt.setattr(self, flag, True)
            if not h.ex.branch((V.iexp(prefix_byte) / bit_) % 2 == 1):
                return False
            rt.setattr(self, flag, True)
            if on_end is not None:
                on_end(self, message_data)
            if h.ex.choice(2, "end_message_raises") == 1:
                from connectrpc.code import Code
                from connectrpc.errors import ConnectError

                raise EndMessageError("the end message is an error or malformed")
            return True

        h.contract(f"connectrpc.{mod}.{cls}.handle_end_message", c)
