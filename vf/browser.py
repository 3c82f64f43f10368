"""A browser of the page as far as states are concerned (for any Python 3)."""
import http.client
import json
import os
import socket
import time

WAIT = float(os.environ.get("VERIF_LIVE_WAIT", "30"))


class Late(Exception):
    """Something did not arrive in time."""


class Browser:
    """A socket.io client that polls."""

    def __init__(self, host, port):
        self.host = host
        self.port = port
        self.messages = []
        self.sid = None
        self.conn = None

    def get(self, timeout):
        path = "/socket.io/?EIO=3&transport=polling"
        if self.sid:
            path += "&sid=" + self.sid
        conn = http.client.HTTPConnection(self.host, self.port, timeout=timeout)
        try:
            conn.request("GET", path)
            response = conn.getresponse()
            body = response.read()
            if response.status != 200:
                raise RuntimeError("status %s: %r" % (response.status, body[:200]))
            return body
        finally:
            conn.close()

    def poll(self, timeout):
        for packet in packets(self.get(timeout)):
            if packet[:1] == "0":
                self.sid = json.loads(packet[1:])["sid"]
            elif packet[:2] == "42":
                self.messages.append(packet[2:])

    def connect(self):
        self.poll(WAIT)
        if not self.sid:
            raise RuntimeError("no session id")

    def wait_for(self, text):
        """Polls until a message satisfies the test; WAIT seconds at most."""
        end = time.time() + WAIT
        seen = 0
        while True:
            while seen < len(self.messages):
                if text(self.messages[seen]):
                    return
                seen += 1
            left = end - time.time()
            if left <= 0:
                raise Late()
            try:
                self.poll(left)
            except (socket.timeout, TimeoutError):
                raise Late()


def packets(body):
    """The packets of a polling response: binary or text framing of Engine.IO 3"""
    out = []
    pos = 0
    if body[:1] in (b"\x00", b"\x01"):
        while pos < len(body):
            end = body.index(b"\xff", pos)
            size = int("".join(str(b) for b in body[pos + 1:end]))
            out.append(body[end + 1:end + 1 + size].decode("utf-8"))
            pos = end + 1 + size
    else:
        text = body.decode("utf-8")
        while pos < len(text):
            end = text.index(":", pos)
            size = int(text[pos:end])
            out.append(text[end + 1:end + 1 + size])
            pos = end + 1 + size
    return out
