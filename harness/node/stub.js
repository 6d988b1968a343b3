// Loaded before the install script: another platform, and all TLS connections go to a local server
"use strict";
const stub = JSON.parse(process.env.QLC_STUB);
const os = require("os");
os.platform = () => stub.platform;
os.arch = () => stub.arch;
Object.defineProperty(process, "platform", { value: stub.platform, configurable: true, enumerable: true });
Object.defineProperty(process, "arch", { value: stub.arch, configurable: true, enumerable: true });
const net = require("net");
if (stub.hurry) {
  // Whoever waits for seconds waits for a fiftieth of that
  const less = (ms) => (ms >= 1000 ? ms / 50 : ms);
  const own = net.Socket.prototype.setTimeout;
  net.Socket.prototype.setTimeout = function (ms, ...rest) {
    return own.call(this, less(ms), ...rest);
  };
  const timer = global.setTimeout;
  global.setTimeout = Object.assign((f, ms, ...rest) => timer(f, less(ms), ...rest), timer);
}
const connect = net.Socket.prototype.connect;
// Every connection is redirected, at the lowest level: only the port tells where to
net.Socket.prototype.connect = function (...args) {
  const given = Array.isArray(args[0]) ? args[0][0] : args[0];
  if (given && typeof given === "object" && !given.path) {
    const to = Object.assign({}, given, { host: "127.0.0.1", port: Number(given.port) === 443 ? stub.https : stub.http });
    delete to.lookup;
    if (Array.isArray(args[0])) {
      args[0][0] = to;
    } else {
      args[0] = to;
    }
  }
  return connect.apply(this, args);
};
