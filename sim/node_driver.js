'use strict';
const EventEmitter = require('events');
const [hostPath, simPath, ...args] = process.argv.slice(2);
const connect = require(simPath);
const host = require(hostPath);
class MockSocket extends EventEmitter {}
const driver = {
  connect,
  // The socket of a connection with the two functions connect() wants.
  make(id, sent, on) {
    const socket = new MockSocket();
    socket.setMaxListeners(0);
    socket.write = (data) => sent(id, data);
    return [socket, (data) => { socket.write(data); }, (event, callback) => {
      if (on(id, event, callback))
        socket.on(event, callback);
      on(id, null);
    }];
  },
  emit(socket, event, ...a) { return socket.emit(event, ...a); },
  foreign(socket, event, f) { socket.on(event, () => { f(); }); },
  create(how, send, on, plain) {
    return plain ? how(send, on) : how ? new how(send, on) : connect(send, on);
  },
  badCreate(n, send, on, c) {
    const f = () => {};
    if (c && n > 3) {
      const K = c.constructor;
      return [() => new K(), () => new K(send), () => K(send), () => new K(send, 1)][n - 4]();
    }
    return [() => connect(), () => connect(send), () => connect(send, 1), () => connect('x', on),
      () => connect(undefined, undefined), () => connect({}, f), () => connect(null, f), () => connect(f, [])][n]();
  },
  start(c) { return c.startServer(); },
  badStart(n, c) {
    const f = c.startServer;
    return [() => f.call({}), () => f(), () => f.call(1), () => Object.create(c).startServer.call([])][n]();
  },
  bad(n) {
    return [undefined, 'text', 1, null, {}, [1, 2], new ArrayBuffer(3), new Uint16Array(2), new DataView(new ArrayBuffer(2)),
      Symbol('x'), () => {}, new Boolean(true), 1n][n];
  },
};
process.exitCode = host(simPath, driver, ['sim', ...args]);
