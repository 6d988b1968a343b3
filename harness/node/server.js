// A server that answers raw HTTP as it is told. One JSON request per line on stdin:
//   {"cmd": "set", "routes": [{"host", "path", "cert", "handshake", "steps"}], "cert", "connect"}
//       answer: {"http": port, "https": port}; "*" matches any host or path
//   {"cmd": "log"}
//       answer: {"requests": [{"tls", "sni", "head", "body"}], "connections": n}; closes everything
// Steps: {"w": base64} write, {"d": ms} wait, {"e": "fin" | "rst" | "keep"} what to do in the end
"use strict";
const fs = require("fs");
const net = require("net");
const tls = require("tls");
const path = require("path");
const cert = (name) =>
  tls.createSecureContext({
    key: fs.readFileSync(path.join(__dirname, "certs", `${name}.key`)),
    cert: fs.readFileSync(path.join(__dirname, "certs", `${name}.pem`)),
  });
const certs = { server: cert("server"), untrusted: cert("untrusted") };

let scenario = { routes: [] };
let requests = [];
let connections = 0;
const open = new Set();

const find = (host, url) =>
  scenario.routes.find((r) => (r.host === "*" || r.host === host) && (r.path === "*" || r.path === url));

function reset(raw) {
  if (raw.destroyed) return;
  raw.resetAndDestroy();
}

function play(steps, conn, raw, done) {
  let i = 0;
  const next = () => {
    if (i === steps.length) return done();
    const s = steps[i++];
    if (s.w !== undefined) {
      if (conn.destroyed || conn.writableEnded) return;
      conn.write(Buffer.from(s.w, "base64"), next);
    } else if (s.d !== undefined) {
      setTimeout(next, s.d);
    } else if (s.e === "fin") {
      conn.end();
    } else if (s.e === "rst") {
      reset(raw);
    } else {
      done();
    }
  };
  next();
}

// Length of the first request in the buffer, or 0; chunked bodies are decoded
function request(buffer) {
  const end = buffer.indexOf("\r\n\r\n");
  if (end < 0) return null;
  const head = buffer.subarray(0, end).toString("latin1");
  let at = end + 4;
  const length = /^content-length: *(\d+)/im.exec(head);
  if (/^transfer-encoding: *chunked/im.test(head)) {
    const parts = [];
    for (;;) {
      const line = buffer.indexOf("\r\n", at);
      if (line < 0) return null;
      const size = parseInt(buffer.subarray(at, line).toString("latin1"), 16);
      if (buffer.length < line + 2 + size + 2) return null;
      parts.push(buffer.subarray(line + 2, line + 2 + size));
      at = line + 2 + size + 2;
      if (size === 0) return { head, body: Buffer.concat(parts), length: at };
    }
  }
  const n = length ? Number(length[1]) : 0;
  if (buffer.length < at + n) return null;
  return { head, body: buffer.subarray(at, at + n), length: at + n };
}

function serve(conn, raw, sni) {
  let buffer = Buffer.alloc(0);
  let busy = false;
  const work = () => {
    if (busy) return;
    const r = request(buffer);
    if (!r) return;
    buffer = buffer.subarray(r.length);
    requests.push({ tls: conn !== raw, sni: sni(), head: r.head, body: r.body.toString("base64") });
    const url = r.head.split(" ")[1];
    const host = (/^host: *(.*)$/im.exec(r.head) || [])[1];
    const route = find(host, url);
    busy = true;
    const steps = route
      ? route.steps
      : [{ w: Buffer.from("HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\n\r\nNot Found").toString("base64") }];
    play(steps, conn, raw, () => {
      busy = false;
      work();
    });
  };
  conn.on("data", (d) => {
    buffer = Buffer.concat([buffer, d]);
    work();
  });
  conn.on("end", () => conn.end());
}

function accept(raw) {
  connections++;
  open.add(raw);
  raw.setNoDelay(true);
  raw.on("error", () => {});
  raw.on("close", () => open.delete(raw));
}

const plain = net.createServer({ allowHalfOpen: true }, (raw) => {
  accept(raw);
  if (scenario.connect === "fin") return raw.end();
  if (scenario.connect === "rst") return reset(raw);
  serve(raw, raw, () => null);
});

const secure = net.createServer({ allowHalfOpen: true }, (raw) => {
  accept(raw);
  if (scenario.connect === "fin") return raw.end();
  if (scenario.connect === "rst") return reset(raw);
  if (scenario.connect === "plain") return raw.end("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}");
  let name = null;
  const conn = new tls.TLSSocket(raw, {
    isServer: true,
    secureContext: certs[scenario.cert || "server"],
    SNICallback: (servername, callback) => {
      name = servername;
      const route = scenario.routes.find((r) => r.host === servername && (r.cert || r.handshake)) || {};
      if (route.handshake === "rst") return reset(raw);
      if (route.handshake === "fin") return raw.end();
      if (route.handshake === "stall") return;
      callback(null, certs[route.cert || scenario.cert || "server"]);
    },
  });
  conn.on("error", () => {});
  serve(conn, raw, () => conn.servername || name);
});

plain.listen(0, "127.0.0.1", () =>
  secure.listen(0, "127.0.0.1", () => {
    let text = "";
    process.stdin.on("data", (d) => {
      text += d;
      for (;;) {
        const end = text.indexOf("\n");
        if (end < 0) break;
        const message = JSON.parse(text.slice(0, end));
        text = text.slice(end + 1);
        let answer;
        if (message.cmd === "set") {
          scenario = message;
          requests = [];
          connections = 0;
          answer = { http: plain.address().port, https: secure.address().port };
        } else {
          answer = { requests, connections };
          for (const raw of open) raw.destroy();
        }
        process.stdout.write(JSON.stringify(answer) + "\n");
      }
    });
    process.stdin.on("end", () => process.exit(0));
  })
);
