# Stands in for the internet: a proxy that answers every request itself. The
# certificate belongs to nobody and is trusted by nobody else.
import http.server, os, socketserver, ssl, threading

HERE = os.path.dirname(os.path.abspath(__file__))


class Site:
    """Site(answer): answer(host, path) gives (status, body) or (status, body, claimed length)."""

    def __init__(self, answer):
        self.asked = []
        site = self
        context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        context.load_cert_chain(HERE + "/site.pem")

        class Handler(socketserver.StreamRequestHandler):
            def serve(self, f, out, host):
                line = f.readline().decode("latin1").split()
                if len(line) < 2:
                    return
                while f.readline().strip():
                    pass
                if line[0] == "CONNECT":
                    out.write(b"HTTP/1.1 200 OK\r\n\r\n")
                    out.flush()
                    s = context.wrap_socket(self.request, server_side=True)
                    with s.makefile("rwb") as g:
                        self.serve(g, g, line[1].split(":")[0])
                    s.close()
                    return
                path = line[1]
                if path.startswith("http://"):
                    host, _, path = path[7:].partition("/")
                    path = "/" + path
                site.asked.append(host + path)
                r = answer(host, path)
                body = r[1] if isinstance(r[1], bytes) else r[1].encode()
                n = r[2] if len(r) > 2 else len(body)
                out.write(b"HTTP/1.1 %d Answer\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (r[0], n) + body)
                out.flush()

            def handle(self):
                try:
                    self.serve(self.rfile, self.wfile, "")
                except (OSError, ValueError):
                    pass

        class Server(socketserver.ThreadingTCPServer):
            daemon_threads = True

        self.server = Server(("127.0.0.1", 0), Handler)
        threading.Thread(target=self.server.serve_forever, daemon=True).start()
        url = "http://127.0.0.1:%d" % self.server.server_address[1]
        self.env = {"HTTPS_PROXY": url, "HTTP_PROXY": url, "https_proxy": url, "http_proxy": url,
                    "NO_PROXY": "", "no_proxy": "", "SSL_CERT_FILE": HERE + "/site.pem", "SSL_CERT_DIR": "/nonexistent"}
