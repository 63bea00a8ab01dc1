"""Bring the interpreter under simulation. Import order matters: the standard
library and third-party packages first, then the seams, then the sources."""
import sys

_booted = False


def boot():
    global _booted
    if _booted:
        return
    _booted = True
    sys.dont_write_bytecode = True
    sys.modules["uvloop"] = None          # the C event loop bypasses every seam
    import logging
    logging.disable(logging.CRITICAL)
    import _thread, asyncio, asyncio.selector_events, asyncio.base_events, collections, concurrent.futures  # noqa
    import concurrent.futures.thread, contextlib, heapq, inspect, ipaddress, itertools, json, queue  # noqa
    import random, selectors, select, socket, socketserver, struct, threading, time, traceback, uuid  # noqa
    import attr, six, requests, opentracing, opentracing.ext.tags  # noqa
    import six.moves.queue  # noqa
    import http.cookiejar, encodings.idna, encodings.ascii, email.parser, netrc  # noqa
    from . import sync, net, env, image
    sync.install()
    net.install()
    env.install_http()
    env.install_misc()
    traceback.format_exc = lambda *a, **kw: "traceback"
    traceback.print_exc = lambda *a, **kw: None
    import warnings
    warnings.simplefilter("ignore")
    image.install()
    image.compile_all()
    image.monitor_lines()
    sync.note_shared()
