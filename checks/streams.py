"""Shared pieces of the stream harnesses."""

from .common import alist, drive


def open_encrypt(mode, box, **kw):
    return box.stream_encrypt(**kw) if mode == "sync" else drive(box.astream_encrypt(**kw))


def open_decrypt(mode, box, **kw):
    return box.stream_decrypt(**kw) if mode == "sync" else drive(box.astream_decrypt(**kw))


def feed(mode, stream, data):
    return stream.buffer(data) if mode == "sync" else drive(stream.abuffer(data))


def drain(mode, stream):
    return list(stream) if mode == "sync" else alist(stream)


def finish(mode, stream):
    return list(stream.finalize()) if mode == "sync" else alist(stream.afinalize())


def test_tag(mode, stream, tag):
    return stream.shmac.test_shmac(tag) if mode == "sync" else drive(stream.shmac.atest_shmac(tag))


def join(xs):
    out = b""
    for x in xs:
        out = out + x
    return out
