"""C01: framing.  EnvelopeReader / EnvelopeWriter and their subclasses."""
from pyvc.harness import *
from targets.env import *

READERS = ["plain", "connect", "grpc", "grpcweb"]


def make_reader(h, kind, codec, comp, limit, cls=None):
    from connectrpc._envelope import EnvelopeReader
    from connectrpc._protocol_connect import ConnectEnvelopeReader
    from connectrpc._protocol_grpc import GRPCEnvelopeReader, GRPCWebEnvelopeReader

    c = {"plain": EnvelopeReader, "connect": ConnectEnvelopeReader, "grpc": GRPCEnvelopeReader,
         "grpcweb": GRPCWebEnvelopeReader}[kind]
    return h.call(c, cls, codec, comp, limit)


def make_comp(h, kinds=("identity", "gzip")):
    from connectrpc._compression import IdentityCompression

    k = h.choice("compression", kinds)
    if k == "identity":
        return k, h.call(IdentityCompression)
    return k, CompressionStub("gzip")


def bit(flag, b):
    """Is bit b of the flag byte set (z3 Bool)"""
    return (V.iexp(flag) / b) % 2 == 1


class FrameSpec(Ghost):
    """The specification: a stream of bytes is a sequence of frames; `pend` is what has been
    received and not yet been delivered."""

    _terms = ("pend",)

    def __init__(self):
        self.pend = b""
        self.ended = False

    # frame at the front of pend
    def flag(self):
        return V.byte_of(V.do_index0(V.bexpr(self.pend)))

    def length(self):
        return V.be32(V.do_slice(V.bexpr(self.pend), slice(1, 5)))

    def complete(self):
        p = V.bexpr(self.pend)
        n = V.slen(p)
        return z3.And(n >= 5, n >= 5 + self.length())

    def payload(self):
        p = V.bexpr(self.pend)
        return V.simp(z3.SubString(p, 5, self.length()))

    def pop(self):
        p = V.bexpr(self.pend)
        L = self.length()
        self.pend = V.mkbytes(V.simp(z3.SubString(p, 5 + L, V.slen(p) - 5 - L)))


END_BIT = {"plain": None, "connect": 2, "grpc": None, "grpcweb": 128}


def buffer_invariant(reader, g):
    def inv(L, st):
        try:
            b = reader._buffer
            n = reader._next_message_length
        except AttributeError:
            return None
        b, p = V.bexpr(b), V.bexpr(g.pend)
        if b is None:
            return None
        if g.ended is True:
            return V.slen(b) == 0
        cs = [b == p]
        if n is not None:
            cs += [V.slen(p) >= 5, V.iexp(n) == g.length()]
        return z3.And(*cs)

    return inv


@target("C01", "reader", split={"reader": 4, "compression": 2}, time_limit=300, branch_ms=400)
def reader_frames(h):
    kind = h.choice("reader", READERS)
    cname, comp = make_comp(h)
    codec = CodecStub()
    reader = make_reader(h, kind, codec, comp, None)
    from connectrpc.errors import ConnectError
    from connectrpc.code import Code

    g = FrameSpec()
    h.invariant("the buffer holds exactly the undelivered bytes", buffer_invariant(reader, g))
    end_message_contracts(h)
    end = END_BIT[kind]

    def expected():
        """(decompressed payload) of the front frame, with its failure conditions"""
        f, pl = g.flag(), g.payload()
        if h.ex.branch(bit(f, 1)):
            return uf("decompress_gzip", V.S, V.S)(pl)
        return pl

    def on_msg(m):
        h.cover("a message is delivered")
        h.check("C01.reader: nothing is delivered after the end of the stream", g.ended is not True)
        h.check("C01.reader: a message is delivered only from a complete frame", g.complete())
        if end is not None:
            h.check("C01.reader: the end-of-stream frame is not a message", z3.Not(bit(g.flag(), end)))
        h.check("C01.reader: the message is the decoded payload of the next frame",
                h.eq(m, MsgVal(decode_e(expected()))))
        g.pop()

    def body():
        chunk = h.bytes("chunk")
        if g.ended is not True:
            g.pend = h.cat(g.pend, chunk)
        try:
            h.consume(rt.call(reader.feed, chunk), on_msg)
        except Exception as e:
            h.cover("feed raises")
            # an error belongs to a complete frame
            h.check("C01.reader: an error is raised only for a complete frame", g.complete())
            is_end = bit(g.flag(), end) if end is not None else z3.BoolVal(False)
            gz = uf("is_gzip", V.S, V.B)(g.payload())
            h.check("C01.reader: a frame is refused only for a reason",
                    z3.Or(is_end, bit(g.flag(), 1)))
            return "break"
        if g.ended is not True:
            # either all complete frames were delivered, or the stream ended here
            if end is not None and h.ex.branch(z3.And(g.complete(), bit(g.flag(), end))):
                h.cover("the stream ends")
                g.ended = True
                g.pend = b""
                return
            h.check("C01.reader: every complete frame is delivered as soon as it is complete",
                    z3.Not(g.complete()))

    h.repeat(body)


@target("C01", "writer", split=None)
def writer_frames(h):
    from connectrpc._protocol_connect import ConnectEnvelopeWriter
    from connectrpc._protocol_grpc import GRPCEnvelopeWriter, GRPCWebEnvelopeWriter
    from connectrpc._compression import IdentityCompression

    cls = h.choice("writer", [ConnectEnvelopeWriter, GRPCEnvelopeWriter, GRPCWebEnvelopeWriter])
    ck = h.choice("compression", ["none", "identity", "gzip"])
    comp = {"none": None, "identity": h.call(IdentityCompression), "gzip": CompressionStub("gzip")}[ck]
    w = h.call(cls, CodecStub(), comp)
    m = h.msg("message")
    k, r = h.outcome(w.write, m)
    enc = encode_e(m)
    payload = uf("compress_gzip", V.S, V.S)(enc) if ck == "gzip" else enc
    if k == "exc":
        import struct

        h.check("C01.writer: write fails only for a payload of 2**32 bytes or more",
                V.slen(payload) >= 2**32 if isinstance(r, struct.error) else False)
        return
    h.cover("a frame is written")
    h.check("C01.writer: a frame is flag, big-endian length and payload",
            h.eq(r, V.mkbytes(V.concat(V.sval("\x01" if ck == "gzip" else "\0"), V.enc32(V.simp(V.slen(payload))), payload))))
