// stand-in for express 4: routes with :parameters, middleware, res.status/res.send; a rejected async handler is left unhandled, as express 4 does
import http from 'http';
export default function express() {
  const mws = [], routes = [];
  const add = (method) => (path, handler) => {
    const keys = [];
    const re = new RegExp('^' + path.replace(/:(\w+)/g, (_, k) => { keys.push(k); return '([^/]+)'; }) + '/?$');
    routes.push({ method, re, keys, handler });
  };
  const extend = (res) => {
    res.status = (n) => { res.statusCode = n; return res; };
    res.send = (body) => {
      if (res.headersSent || res.writableEnded) { const e = new Error('Cannot set headers after they are sent to the client'); e.code = 'ERR_HTTP_HEADERS_SENT'; throw e; }
      let type = 'text/html; charset=utf-8';
      if (body === undefined) body = '';
      else if (typeof body !== 'string') { body = JSON.stringify(body); type = 'application/json; charset=utf-8'; }
      res.setHeader('Content-Type', type);
      res.end(body);
      return res;
    };
    res.json = res.send;
  };
  const app = {
    use: (f) => { mws.push(f); }, get: add('GET'), post: add('POST'),
    listen: (port, cb) => http.createServer((req, res) => {
      extend(res);
      const path = decodeURI(req.url.split('?')[0]);
      let i = 0;
      const fail = (e) => { if (!res.headersSent) res.status(e.status || 500).send(String(e.message)); };
      const next = (err) => {
        if (err) return fail(err);
        if (i < mws.length) return mws[i++](req, res, next);
        for (const r of routes) {
          const m = r.method === req.method && r.re.exec(path);
          if (!m) continue;
          req.params = {}; r.keys.forEach((k, j) => { req.params[k] = m[j + 1]; });
          try { r.handler(req, res, () => res.status(404).send('Cannot ' + req.method)); } catch (e) { fail(e); }
          return;
        }
        res.status(404).send('Cannot ' + req.method + ' ' + path);
      };
      next();
    }).listen(port, '127.0.0.1', cb),
  };
  return app;
}
express.json = () => (await_body);
function await_body(req, res, next) {
  const chunks = [];
  req.on('data', (c) => chunks.push(c));
  req.on('end', () => {
    req.body = {};
    const raw = Buffer.concat(chunks).toString();
    if (raw && /json/.test(req.headers['content-type'] || '')) {
      try { req.body = JSON.parse(raw); } catch (e) { e.status = 400; return next(e); }
    }
    next();
  });
}
export { await_body };
