M = [
("f1","P01","pktserv/pktsocket.c","        cbuf->newmsg = 1;\n\n        /* nail","        cbuf->newmsg = !cbuf->wlist_size;\n\n        /* nail"),
("f2","P01","pktserv/pktsocket.c","cbuf->rbuf->len > (MAX_PKT_LEN-1)","cbuf->rbuf->len > MAX_PKT_LEN"),
("f3","P01","pktserv/pktsocket.c","(unsigned char)(*(cbuf->rbuf->data)) + 1","(*(cbuf->rbuf->data)) + 1"),
("f4","P01","pktserv/pktsocket.c","        *(cbuf->rbuf->pos) = '\\0';","        cbuf->rbuf->data[cbuf->rbuf->len - 1] = '\\0';"),
("f5","P01","pktserv/pktserv.c","                            if (cbuf->state != WANT_DISCONNECT)\n                                cbuf->state = WANT_HEADER;","                            cbuf->state = WANT_HEADER;"),
("f6","P01","pktserv/pktsocket.c","    cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;\n    return 0;","    cbuf->state = WANT_HEADER;\n    return 0;"),
("f7","P01","pktserv/pktserv.c","                events = POLLOUT;\n                break;","                break;"),
("f8","P01","pktserv/pktserv.c","                    if (ok2read) {","                    if (ok2read || cbuf->newmsg) {"),
("o1","P03","pktserv/pktsocket.c","            msgbuf->pos += result;\n","            if (msgbuf->pos == msgbuf->data) msgbuf->pos += result;\n"),
("o2","P03","pktserv/pktserv.c","        TAILQ_INSERT_TAIL(&(cbuf->wlist), msgbuf, entries);","        TAILQ_INSERT_HEAD(&(cbuf->wlist), msgbuf, entries);"),
("o3","P03","pktserv/pktsocket.c","        if (result < remain) {","        if (result < remain && cbuf->retries < 2) {"),
("o4","P03","pktserv/pktserv.c","    if (cbuf->wlist_size >= MAX_SENDPACKET_QUEUE) {","    if (cbuf->wlist_size > MAX_SENDPACKET_QUEUE) {"),
("o5","P03","pktserv/pktsocket.c","        cbuf->wlist_size--;\n","        if (cbuf->wlist_size > 1) cbuf->wlist_size--;\n"),
("o6","P03","pktserv/pktsocket.c","        cbuf->retries = 0;\n",""),
("o7","P03","pktserv/pktserv.c","    if (cbuf->state == WANT_DISCONNECT || cbuf->state == WANT_RAW_DISCONNECT ||\n        cbuf->state == DISCONNECTED) {","    if (cbuf->state == WANT_RAW_DISCONNECT || cbuf->state == DISCONNECTED) {"),
("o8","P03","pktserv/pktserv.c","    cbuf->state = WANT_WRITE;\n\n    if (pktsocket_write(cbuf) < 0) {","    cbuf->state = WANT_WRITE;\n\n    if (cbuf->wlist_size == 1 && pktsocket_write(cbuf) < 0) {"),
("l1","P04","pktserv/pktserv.c","        if (i < g_pollsetsize && g_pollset[i].fd == fd)\n            i++;\n        else\n            pollsetsize--;","        i++; (void)fd;\n        if (pollsetsize > g_pollsetsize) pollsetsize = g_pollsetsize;"),
("l2","P04","pktserv/pktserv.c","        handle_disconnect(cbuf);\n        handle_raw_disconnect(cbuf);\n        return;","        cbuf->state = WANT_DISCONNECT; cbuf->disp = OK;"),
("l3","P04","pktserv/pktserv.c","            cbuf->state != LISTEN_SOCKET_SSL) {\n            g_pktserv","            cbuf->state != LISTEN_SOCKET_SSL && cbuf->state != WANT_DISCONNECT) {\n            g_pktserv"),
("l4","P04","pktserv/pktserv.c","    delete_pollfd(cbuf->fd);\n\n    cbuf->state","    if (cbuf->state != WANT_RAW_DISCONNECT || cbuf->disp != OK) delete_pollfd(cbuf->fd);\n\n    cbuf->state"),
("l5","P04","pktserv/pktserv.c","            case WANT_DISCONNECT:\n            case WANT_RAW_DISCONNECT:\n","            case WANT_RAW_DISCONNECT:\n"),
("l6","P04","pktserv/pktserv.c","                if (cbuf->state != WANT_DISCONNECT && !TAILQ_EMPTY","                if (!TAILQ_EMPTY"),
("l7","P03 P04","pktserv/pktsocket.c","    memset(cbuf, 0, sizeof(cbuf_t));\n",""),
("l8","P04","pktserv/pktserv.c","                cbuf->state = WANT_HEADER;\n                if (g_pktserv_cb.new_client)\n                    g_pktserv_cb.new_client(cbuf->fd, cbuf->is_ssl);","                if (g_pktserv_cb.new_client)\n                    g_pktserv_cb.new_client(cbuf->fd, cbuf->is_ssl);\n                cbuf->state = WANT_HEADER;"),
("l9","P04","pktserv/pktsocket.c","    if (ns >= MAX_USERS) {","    if (ns > MAX_USERS) {"),
("t1","P02","pktserv/pktserv.c","        if (sslsocket_pending(cbuf))\n            events |= POLLOUT;",""),
("t2","P02","pktserv/pktserv.c","(pollfd->revents & POLLIN) || sslsocket_pending(cbuf);","(pollfd->revents & POLLIN);"),
("t3","P02","pktserv/pktserv.c","cbuf->state = cbuf->newmsg ? WANT_HEADER : WANT_READ;\n                break;","cbuf->state = WANT_HEADER;\n                break;"),
("t4","P02","pktserv/sslsocket.c","            cbuf->state = WANT_DISCONNECT;\n            vmdb(MSG_ERR, \n                 \"sslsocket_read: fd%d: SSL_ERROR_SYSCALL\", cbuf->fd);\n            break;","            if (errno == EAGAIN) { cbuf->state = WANT_SSL_READ; return 0; }\n            cbuf->state = WANT_DISCONNECT;\n            break;"),
("t5","P02","pktserv/sslsocket.c","            vmdb(MSG_INFO, \"sslsocket_write: fd%d: SSL_ERROR_WANT_READ\", cbuf->fd);\n            cbuf->state = WANT_SSL_READ;\n            return 0;","            cbuf->state = WANT_SSL_READ;\n            return -1;"),
("t6","P02","pktserv/pktsocket.c","            cbuf->state = WANT_SSL_WRITE;\n            vmdb(MSG_VERBOSE, \n                 \"writepacket: fd%d needs","            vmdb(MSG_VERBOSE, \n                 \"writepacket: fd%d needs"),
("t7","P02","pktserv/sslsocket.c","    ERR_clear_error();\n    result = SSL_read","    result = SSL_read"),
("t8","P02","pktserv/sslsocket.c","            case SSL_ERROR_WANT_WRITE:\n                cbuf->state = WANT_SSL_ACCEPT;","            case SSL_ERROR_WANT_WRITE:\n                cbuf->state = ACCEPTED;"),
("t9","P02 P04","pktserv/pktserv.c","        SSL_free(cbuf->ssl_con);\n        cbuf->ssl_con = NULL;","        SSL_free(cbuf->ssl_con);"),
]
