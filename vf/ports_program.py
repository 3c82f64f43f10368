"""Program of C28: holds ports and opens, renders and closes viewers as it is told.

Run by the project's interpreter with the repository as argument; reads one command
per line and answers each with a line.
"""
import gc
import json
import multiprocessing
import os
import random
import resource
import socket
import sys
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import clubs  # noqa: E402
from clubs.render import GraphicViewer  # noqa: E402

HELD = []
SHOWS = {}


def answer(**thing):
    sys.__stdout__.write("\n@" + json.dumps(thing) + "\n")
    sys.__stdout__.flush()


def serve(sock):
    """Answers everything with a page of its own"""
    body = b"<html><body>another program</body></html>"
    head = b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body)
    while True:
        try:
            conn = sock.accept()[0]
            conn.recv(4096)
            conn.sendall(head + body)
            conn.close()
        except OSError:
            return


def hold(kind, host, port):
    sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    if kind != "bound":
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    sock.bind((host, port))
    if kind != "bound":
        sock.listen(5)
    if kind == "http":
        threading.Thread(target=serve, args=(sock,), daemon=True).start()
    HELD.append(sock)


def crowd(share, seed):
    """Lets processes hold most of the ports from which free ones are chosen"""
    with open("/proc/sys/net/ipv4/ip_local_port_range") as file:
        low, high = map(int, file.read().split())
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    most = 10000 if hard == resource.RLIM_INFINITY else min(10000, hard - 200)
    ports = random.Random(seed).sample(range(low, high + 1), int((high - low) * share))
    held = 0
    for start in range(0, len(ports), most):
        here, there = socket.socketpair()
        if not os.fork():
            here.close()
            for sock in HELD:
                sock.close()
            crowded(ports[start:start + most], there)
        there.close()
        held += int(here.recv(100))
        HELD.append(here)
    return held


def crowded(ports, parent):
    try:
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
        socks = []
        for port in ports:
            sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            try:
                sock.bind(("0.0.0.0", port))
                socks.append(sock)
            except OSError:
                sock.close()
        parent.sendall(b"%d" % len(socks))
        parent.recv(1)
    finally:
        os._exit(0)


def state(players, num):
    return {
        "action": 0, "active": [True] * players, "all_in": [False] * players,
        "community_cards": [], "button": num % players, "done": False,
        "hole_cards": [[clubs.Card("Ah")] for _ in range(players)], "pot": num,
        "payouts": [0] * players, "prev_action": None, "street_commits": [0] * players,
        "stacks": [100] * players,
    }


def opened(idx, host, port, players, table):
    start = time.time()
    kwargs = {} if port is None else {"port": port}
    if host is not None:
        kwargs["host"] = host
    try:
        if table:
            dealer = clubs.Dealer(**dict(
                clubs.configs.LEDUC_TWO_PLAYER, num_players=players, blinds=0, antes=1,
                num_suits=4, num_ranks=13, start_stack=100,
            ))
            dealer.reset()
            dealer.render(**kwargs)
            viewer = dealer.viewer
        else:
            viewer = GraphicViewer(players, 1, 1, **kwargs)
    except clubs.error.RenderInitializationError as exc:
        return {"refused": str(exc), "took": time.time() - start}
    except Exception as exc:
        return {"failed": "%s: %s" % (type(exc).__name__, exc)}
    SHOWS[idx] = (viewer, players)
    return {"host": viewer.host, "port": viewer.port}


def main():
    answer(ready=True)
    for line in sys.stdin:
        name, *args = json.loads(line)
        if name == "hold":
            hold(*args)
            answer(held=True)
        elif name == "crowd":
            answer(held=crowd(*args))
        elif name == "open":
            answer(**opened(*args))
        elif name == "render":
            viewer, players = SHOWS[args[0]]
            viewer.render(state(players, args[1]))
            answer(rendered=True)
        elif name == "close":
            SHOWS.pop(args[0])[0].close()
            answer(closed=True)
        elif name == "reopen":
            SHOWS.pop(args.pop())[0].close()
            answer(**opened(*args))
        elif name == "servers":
            for _ in range(3):
                gc.collect()
            answer(servers=len(multiprocessing.active_children()))


main()
