PROP="P04"
NEEDS="a connection that ends with packets waiting to be written, and a new one that gets its descriptor"
BREAKS="the new connection inherits the length of the old one's queue and is refused its packets"
EDITS=[("pktserv/pktsocket.c","    memset(cbuf, 0, sizeof(cbuf_t));\n","    cbuf->rbuf = NULL;\n    cbuf->retries = 0;\n    memset(&cbuf->wlist, 0, sizeof(cbuf->wlist));\n#ifdef HAVE_SSL\n    cbuf->ssl_con = NULL;\n#endif\n")]
DEMO='''
S = Server()
s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048); s.connect(("127.0.0.1", S.port))
a = Client(s); a.login("Anna", "Alpha", "anna"); a.get()
b = S.client("Berta", group="Alpha")
for i in range(20):
    for _ in range(40): b.open("x" * 230)
    b.get(quiet=0.1)
a.s.close(); time.sleep(0.5); b.get()
for i in range(3):
    c = S.client("Carla%d" % i, group="Alpha")
    check(not c.closed, "a new connection is closed")
    c.cmd("w", "."); check(has(c.get(), "Carla%d" % i), "a new connection gets no answer")
'''
