"""Reference for compressed payloads: streaming decoders that know where a stream ends."""
import gzip
import io
import struct
import zlib

import brotli
import zstandard


def undo(alg, z):
    """-> what the bytes stand for, None when they are no complete stream of the algorithm"""
    z = bytes(z)
    try:
        if not z:
            return None
        if alg == "gzip":
            out = b""
            while z:
                d = zlib.decompressobj(31)
                out += d.decompress(z) + d.flush()
                if not d.eof:
                    return None
                z = d.unused_data
            return out
        if alg == "zstd":
            out = b""
            while z:
                d = zstandard.ZstdDecompressor().decompressobj()
                out += d.decompress(z)
                if not d.eof:
                    return None
                z = d.unused_data
            return out
        d = brotli.Decompressor()
        out = d.process(z)
        return out if d.is_finished() else None
    except Exception:
        return None


def agreed(alg, z):
    """the ordinary decoder of the library takes the same view"""
    a = undo(alg, z)
    try:
        if alg == "gzip":
            b = gzip.GzipFile(fileobj=io.BytesIO(z)).read()
        elif alg == "zstd":
            return True  # the library has no second decoder that minds the end
        else:
            b = brotli.decompress(z)
    except Exception:
        b = None
    return a == b


def pack(alg, b):
    return {"gzip": gzip.compress, "br": brotli.compress, "zstd": zstandard.ZstdCompressor().compress}[alg](bytes(b))


def good(alg, b, rng):
    r = rng.randrange(6)
    if alg == "gzip":
        if r == 0:
            return gzip.compress(b, compresslevel=rng.choice([0, 1, 9]))
        if r == 1:
            f = io.BytesIO()
            with gzip.GzipFile(filename="a name", mode="wb", fileobj=f, mtime=7) as g:
                g.write(b)
            return f.getvalue()
        if r == 2:
            k = rng.randrange(len(b) + 1)
            return gzip.compress(b[:k]) + gzip.compress(b[k:])
        if r == 3:
            c = zlib.compressobj(6, zlib.DEFLATED, 31)
            k = rng.randrange(len(b) + 1)
            return c.compress(b[:k]) + c.flush(zlib.Z_FULL_FLUSH) + c.compress(b[k:]) + c.flush()
        if r == 4:
            z = gzip.compress(b)
            return z[:3] + bytes([4]) + z[4:10] + struct.pack("<H", 3) + b"xyz" + z[10:]  # an extra field
        return gzip.compress(b)
    if alg == "zstd":
        if r == 0:
            c = zstandard.ZstdCompressor(level=rng.choice([-1, 1, 10])).compressobj()
            return c.compress(b) + c.flush()
        if r == 1:
            return zstandard.ZstdCompressor(write_checksum=True).compress(b)
        if r == 2:
            k = rng.randrange(len(b) + 1)
            return zstandard.ZstdCompressor().compress(b[:k]) + zstandard.ZstdCompressor(write_content_size=False).compress(b[k:])
        if r == 3:
            c = zstandard.ZstdCompressor().compressobj()
            k = rng.randrange(len(b) + 1)
            return c.compress(b[:k]) + c.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK) + c.compress(b[k:]) + c.flush()
        return zstandard.ZstdCompressor().compress(b)
    if r == 0:
        c = brotli.Compressor(quality=rng.choice([1, 11]))
        k = rng.randrange(len(b) + 1)
        return c.process(b[:k]) + c.flush() + c.process(b[k:]) + c.finish()
    return brotli.compress(b, quality=rng.choice([0, 3, 9]), lgwin=rng.choice([10, 22]))


def bad(alg, b, rng):
    z = good(alg, b, rng)
    r = rng.randrange(7)
    if r < 3:
        return z[:-rng.randrange(1, min(len(z), 9))] if len(z) > 1 else b"\xff"
    if r == 3:
        return z[:rng.randrange(1, len(z))] if len(z) > 1 else b"\xff"
    if r == 4:
        i = rng.randrange(len(z))
        return z[:i] + bytes([z[i] ^ (1 << rng.randrange(8))]) + z[i + 1:]
    if r == 5:
        return z + rng.choice([b"x", b"garbage", b"\x1f\x8b"])
    o = rng.choice([x for x in ("gzip", "zstd", "br", "none", "zlib") if x != alg])
    return b or b"\x0a" if o == "none" else zlib.compress(b) if o == "zlib" else good(o, b, rng)


def payload(alg, b, ok, rng):
    """a form of b, or bytes that are none; None when nothing both decoders agree on was found"""
    for _ in range(12):
        z = good(alg, b, rng) if ok else bad(alg, b, rng)
        u = undo(alg, z)
        if (u == b if ok else u is None) and agreed(alg, z):
            return z
    return None
