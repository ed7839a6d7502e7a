"""Toy codec, compressions and interning so that traces stay small and exact."""


class Msg:
    __slots__ = ("data",)

    def __init__(self, data=b""):
        self.data = bytes(data)

    def __len__(self):  # an empty message is falsy
        return len(self.data)

    def __eq__(self, other):  # like protobuf messages: equal by content, not hashable
        return isinstance(other, Msg) and self.data == other.data

    __hash__ = None


class RawCodec:
    """message = its bytes; refuses bytes starting with BAD."""

    def __init__(self, name="raw"):
        self._name = name

    def name(self):
        return self._name

    def encode(self, message):
        return message.data

    def decode(self, data, message_class):
        data = bytes(data)
        if data.startswith(b"\xffBAD"):
            raise ValueError("undecodable bytes")
        return Msg(data)


class TagCodec(RawCodec):
    """Like RawCodec but with a tag prefix, so using the wrong codec shows."""

    def encode(self, message):
        return b"<" + self._name.encode() + b">" + message.data

    def decode(self, data, message_class):
        data = bytes(data)
        p = b"<" + self._name.encode() + b">"
        if not data.startswith(p):
            raise ValueError("undecodable bytes for codec " + self._name)
        return Msg(data[len(p):])


class ToyComp:
    """Prefix + reversed bytes. A 6-byte 'bomb' form expands to n equal bytes."""

    def __init__(self, name="toy"):
        self._name = name

    def name(self):
        return self._name

    def compress(self, data):
        return b"\x1f" + self._name.encode() + b"\x00" + bytes(data)[::-1]

    def decompress(self, data):
        data = bytes(data)
        p = b"\x1f" + self._name.encode()
        if data.startswith(p + b"\x00"):
            return data[len(p) + 1:][::-1]
        if data.startswith(p + b"\x01"):
            n = int.from_bytes(data[len(p) + 1:len(p) + 5], "big")
            return data[len(p) + 5:len(p) + 6] * n
        raise ValueError("not " + self._name + " data")

    def bomb(self, n, ch=b"x"):
        return b"\x1f" + self._name.encode() + b"\x01" + n.to_bytes(4, "big") + ch


def payload(pid, length):
    """Deterministic payload of given length for a symbolic id."""
    if length == 0:
        return b""
    head = bytes([65 + pid % 26])
    return (head + bytes((pid * 37 + i * 11) & 0xFF for i in range(min(length - 1, 509))) * 1
            + bytes([97 + pid % 26]) * max(0, length - 510))[:length]


class Intern:
    """bytes <-> small ints."""

    def __init__(self):
        self.m = {}

    def put(self, b):
        return self.m.setdefault(bytes(b), len(self.m) + 1)

    def get(self, b):
        return self.m.get(bytes(b), -1)
