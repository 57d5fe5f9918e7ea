// stand-in for the Carbon SDK: records every call and answers as told over the control port
import http from 'http';
const calls = [];            // [name, args]
let plan = {};               // name -> {mode: value|reject|throw|defer, value}
const pending = {};          // call number -> {resolve, reject}
const SYNC = new Set(['hasLiquidityByPair', 'pairs', 'isInitialized']);
function lookup(name, args) {
  const p = plan[name] || { mode: 'value', value: null };
  return p.bykey ? (p.bykey[JSON.stringify(args)] || p) : p;
}
export function act(name, args) {
  const k = calls.length; calls.push([name, args]);
  const p = lookup(name, args);
  const value = p.echo ? { call: name, args } : p.value;
  if (SYNC.has(name)) { if (p.mode === 'throw' || p.mode === 'reject') throw new Error(p.value); return value; }
  if (p.mode === 'throw') throw new Error(p.value);
  if (p.mode === 'reject') return Promise.reject(new Error(p.value));
  if (p.mode === 'defer') return new Promise((resolve, reject) => { pending[k] = { resolve, reject }; });
  if (p.mode === 'later') return new Promise((resolve) => setTimeout(() => resolve(value), p.ms || 1));
  return Promise.resolve(value);
}
export class Sdk {
  constructor(cfg) {
    calls.push(['new', [cfg]]);
    const provider = { getUncheckedSigner: (addr) => ({ sendTransaction: (tx) => act('sendTransaction', [addr, tx]), signTransaction: (tx) => act('signTransaction', [addr, tx]) }) };
    this._api = { _reader: { _contracts: { _provider: provider } } };
  }
  get pairs() { return act('pairs', []); }
  async startDataSync() { calls.push(['startDataSync', []]); }
}
for (const name of ['hasLiquidityByPair', 'getLiquidityByPair', 'getUserStrategies', 'getMatchParams', 'getTradeData', 'getTradeDataFromActions', 'composeTradeByTargetTransaction',
  'composeTradeBySourceTransaction', 'createBuySellStrategy', 'updateStrategy', 'deleteStrategy', 'getRateLiquidityDepthByPair', 'getMinRateByPair', 'getMaxRateByPair'])
  Sdk.prototype[name] = function (...args) { return act(name, args); };

// coarse clock, so that requests fall into the same instant
const step = parseInt(process.env.CLOCKSTEP || '0');
if (step) { const now = Date.now.bind(Date); Date.now = () => Math.floor(now() / step) * step; }

http.createServer((req, res) => {
  let raw = '';
  req.on('data', (c) => { raw += c; });
  req.on('end', () => {
    const b = raw ? JSON.parse(raw) : {};
    let out = {};
    if (req.url === '/plan') plan = b;
    else if (req.url === '/calls') { out = calls.slice(b.from || 0); }
    else if (req.url === '/settle') { const p = pending[b.k]; if (p) { delete pending[b.k]; if ('error' in b) p.reject(new Error(b.error)); else p.resolve(b.value); } out = { ok: !!p }; }
    res.end(JSON.stringify(out));
  });
}).listen(parseInt(process.env.CTRLPORT), '127.0.0.1');

// ends with the process that started it
process.stdin.resume(); process.stdin.on('end', () => process.exit(0)); process.stdin.on('error', () => process.exit(0));
