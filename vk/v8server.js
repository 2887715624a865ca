// Long-lived bridge to a real V8: JSON lines on stdin -> JSON lines on stdout.
// Values cross as language-neutral graphs {root, nodes} (see graph.py).
'use strict';
const v8 = require('node:v8');
const readline = require('node:readline');

const f64 = new DataView(new ArrayBuffer(8));
function hexOfDouble(x) {
  if (Number.isNaN(x)) return '7ff8000000000000';
  f64.setFloat64(0, x);
  return f64.getBigUint64(0).toString(16).padStart(16, '0');
}
function doubleOfHex(h) {
  f64.setBigUint64(0, BigInt('0x' + h));
  return f64.getFloat64(0);
}
const TypedArrays = {
  Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array,
  Uint32Array, Float32Array, Float64Array, BigInt64Array, BigUint64Array, DataView,
};
const hasF16 = typeof globalThis.Float16Array === 'function';
if (hasF16) TypedArrays.Float16Array = globalThis.Float16Array;
const ErrorTypes = { Error, EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError };

function isIndex(k) {
  const n = Number(k);
  return Number.isInteger(n) && n >= 0 && n < 4294967295 && String(n) === k;
}

function describe(root) {
  const ids = new Map();
  const nodes = [];
  function val(v) {
    switch (typeof v) {
      case 'undefined': return ['u'];
      case 'boolean': return v ? ['t'] : ['f'];
      case 'number': return ['d', hexOfDouble(v)];
      case 'bigint': return ['i', digits(v)];
      case 'string': return ['s', v];
      case 'object': break;
      default: throw new Error('cannot describe a ' + typeof v);
    }
    if (v === null) return ['n'];
    if (ids.has(v)) return ['r', ids.get(v)];
    const id = nodes.length;
    ids.set(v, id);
    const node = [];
    nodes.push(node);
    fill(node, v);
    return ['r', id];
  }
  function props(v, keys) { return keys.map((k) => [k, val(v[k])]); }
  function fill(node, v) {
    if (ArrayBuffer.isView(v)) {
      const name = Object.prototype.toString.call(v).slice(8, -1);
      const tracking = isTracking(v);
      let off = 0, len = 0;
      try { off = v.byteOffset; len = v.byteLength; } catch (e) { off = -1; len = -1; }
      node.push('view', name, val(v.buffer), off, len, tracking);
    } else if (v instanceof ArrayBuffer) {
      node.push('ab', Buffer.from(new Uint8Array(v)).toString('hex'), v.resizable ? v.maxByteLength : null);
    } else if (v instanceof SharedArrayBuffer) {
      node.push('sab', -1);
    } else if (Array.isArray(v)) {
      const els = [], ps = [];
      node.push('arr', v.length, els, ps);
      for (const k of Object.keys(v)) {
        if (isIndex(k)) els.push([Number(k), val(v[k])]); else ps.push([k, val(v[k])]);
      }
    } else if (v instanceof Map) {
      const es = [];
      node.push('map', es);
      for (const [k, x] of v) es.push([val(k), val(x)]);
    } else if (v instanceof Set) {
      const es = [];
      node.push('set', es);
      for (const x of v) es.push(val(x));
    } else if (v instanceof Date) {
      node.push('date', hexOfDouble(v.getTime()));
    } else if (v instanceof RegExp) {
      node.push('re', v.source, v.flags);
    } else if (v instanceof Number || v instanceof String || v instanceof Boolean || v instanceof BigInt) {
      node.push('prim', val(v.valueOf()));
    } else if (v instanceof Error) {
      const proto = Object.getPrototypeOf(v);
      let name = 'Error';
      for (const [n, T] of Object.entries(ErrorTypes)) if (proto === T.prototype) name = n;
      const own = (k) => Object.prototype.hasOwnProperty.call(v, k);
      node.push('err', name, own('message') ? String(v.message) : null,
        typeof v.stack === 'string' ? v.stack : null, null);
      node[4] = own('cause') ? val(v.cause) : null;
    } else {
      const proto = Object.getPrototypeOf(v);
      if (proto !== Object.prototype && proto !== null) throw new Error('unexpected object');
      const ps = [];
      node.push('obj', ps);
      for (const k of Object.keys(v)) ps.push([k, val(v[k])]);
    }
  }
  const r = val(root);
  return { root: r, nodes };
}

// As graph.py's digits(): Python limits the length of decimal conversions.
const LARGE = 1n << 11999n;
function digits(v) {
  const a = v < 0n ? -v : v;
  return a < LARGE ? v.toString() : (v < 0n ? '-0x' : '0x') + a.toString(16);
}
const bigint = (s) => s.startsWith('-') ? -BigInt(s.slice(1)) : BigInt(s);

// Whether a view tracks its buffer's length (null if that can't be observed).
function isTracking(v) {
  const b = v.buffer;
  if (!(b instanceof ArrayBuffer) || !b.resizable) return false;
  const inBounds = () => {
    try { v instanceof DataView ? v.byteLength : v.at(0); return true; } catch (e) { return false; }
  };
  const saved = b.byteLength, data = new Uint8Array(b).slice();
  const size = v instanceof DataView ? 1 : v.BYTES_PER_ELEMENT;
  const max = b.maxByteLength;
  let tracking = null;
  b.resize(max);
  if (inBounds() && max - v.byteOffset >= size) {
    const longest = v.byteLength;
    b.resize(max - size);
    tracking = inBounds() && v.byteLength !== longest;
  }
  b.resize(saved);
  new Uint8Array(b).set(data);
  return tracking;
}

// The same string, kept by V8 as two-byte units where that's possible.
function twoByte(s) {
  return s.length >= 13 ? ('\u2603' + s).slice(1) : s;
}

function build(graph) {
  const made = new Array(graph.nodes.length);
  function prim(v) {
    switch (v[0]) {
      case 'u': return undefined;
      case 'n': return null;
      case 't': return true;
      case 'f': return false;
      case 'd': return doubleOfHex(v[1]);
      case 'i': return bigint(v[1]);
      case 's': return v[1];
      case 's2': return twoByte(v[1]);
    }
    throw new Error('bad value ' + JSON.stringify(v));
  }
  function val(v) { return v[0] === 'r' ? node(v[1]) : prim(v); }
  function node(i) {
    if (made[i] !== undefined) return made[i];
    const n = graph.nodes[i];
    switch (n[0]) {
      case 'obj': {
        const o = made[i] = {};
        for (const [k, v] of n[1]) Object.defineProperty(o, k, { value: val(v), writable: true, enumerable: true, configurable: true });
        return o;
      }
      case 'arr': {
        const o = made[i] = [];
        for (const [k, v] of n[2]) o[k] = val(v);
        if (o.length !== n[1]) o.length = n[1];
        for (const [k, v] of n[3]) Object.defineProperty(o, k, { value: val(v), writable: true, enumerable: true, configurable: true });
        return o;
      }
      case 'map': {
        const o = made[i] = new Map();
        for (const [k, v] of n[1]) { const kk = val(k); o.set(kk, val(v)); }
        return o;
      }
      case 'set': {
        const o = made[i] = new Set();
        for (const v of n[1]) o.add(val(v));
        return o;
      }
      case 'date': return (made[i] = new Date(doubleOfHex(n[1])));
      case 're': return (made[i] = new RegExp(n[1], n[2]));
      case 'prim': return (made[i] = Object(prim(n[1])));
      case 'ab': {
        const bytes = Buffer.from(n[1], 'hex');
        const b = n[2] === null ? new ArrayBuffer(bytes.length) : new ArrayBuffer(bytes.length, { maxByteLength: n[2] });
        new Uint8Array(b).set(bytes);
        return (made[i] = b);
      }
      case 'view': {
        const b = val(n[2]);
        const T = TypedArrays[n[1]];
        if (n[1] === 'Buffer') return (made[i] = Buffer.from(b, n[3], n[4]));
        const size = n[1] === 'DataView' ? 1 : T.BYTES_PER_ELEMENT;
        return (made[i] = n[5] ? new T(b, n[3]) : new T(b, n[3], n[4] / size));
      }
      case 'err': {
        const e = made[i] = new ErrorTypes[n[1]]();
        if (n[2] === null) delete e.message;
        else Object.defineProperty(e, 'message', { value: n[2], writable: true, configurable: true, enumerable: false });
        if (n[3] === null) e.stack = undefined; else e.stack = n[3];
        if (n[4] !== null) Object.defineProperty(e, 'cause', { value: val(n[4]), writable: true, configurable: true, enumerable: false });
        return e;
      }
    }
    throw new Error('bad node ' + n[0]);
  }
  return val(graph.root);
}

class PlainSerializer extends v8.Serializer {}
class HostSerializer extends v8.DefaultSerializer {}

const ops = {
  hello() { return { node: process.versions.node, v8: process.versions.v8, f16: hasF16 }; },
  de(r) {
    const buf = Buffer.from(r.data, 'hex');
    const d = new v8.DefaultDeserializer(buf);
    try {
      d.readHeader();
      return { graph: describe(d.readValue()) };
    } catch (e) {
      return { error: String(e && e.message), kind: e && e.name };
    }
  },
  ser(r) {
    let value, data;
    try {
      value = build(r.graph);
    } catch (e) { return { error: String(e && e.message), stage: 'build' }; }
    try {
      const s = r.mode === 'host' ? new HostSerializer() : new PlainSerializer();
      s.writeHeader();
      s.writeValue(value);
      data = s.releaseBuffer().toString('hex');
    } catch (e) { return { error: String(e && e.message), stage: 'serialize' }; }
    return { data, graph: describe(value) };
  },
  // Serialize an object or array that came about by a sequence of changes.
  hist(r) {
    const o = r.array ? [] : {};
    for (const [op, key, v] of r.ops) {
      const x = v === undefined || v === null ? null : build({ root: v, nodes: [] });
      if (op === 'set') o[key] = x;
      else if (op === 'del') delete o[key];
      else if (r.array) {
        if (op === 'len') { if (key < 5e4 || key > o.length) o.length = key; }
        else if (op === 'push') { if (o.length < 4294967295) o.push(x); }
        else if (op === 'pop') { if (o.length < 4294967295) o.pop(); }
        else if (op === 'unshift') { if (o.length < 5e4) o.unshift(x); }
        else if (op === 'reverse') { if (o.length < 5e4) o.reverse(); }
        else if (op === 'fill') { if (o.length < 5e4) o.fill(x); }
      }
    }
    const s = r.mode === 'host' ? new HostSerializer() : new PlainSerializer();
    s.writeHeader();
    s.writeValue(o);
    return { data: s.releaseBuffer().toString('hex'), graph: describe(o) };
  },
  tostr(r) { return { out: r.values.map((h) => String(doubleOfHex(h))) }; },
  // Apply property operations to a real object / array and report its state.
  props(r) {
    const o = r.array ? [] : {};
    const out = [];
    for (const [op, key, v] of r.ops) {
      const k = Array.isArray(key) ? doubleOfHex(key[1]) : key;
      if (op === 'set') o[k] = v;
      else if (op === 'del') delete o[k];
      else if (op === 'len') { if (r.array) o.length = v; }
      else if (op === 'get') { out.push(Object.prototype.hasOwnProperty.call(o, k) ? o[k] : null); continue; }
      out.push(Object.keys(o).map((x) => [x, o[x]]).concat(r.array ? [['#', o.length]] : []));
    }
    return { out };
  },
  // Apply operations to a real Map or Set and report its entries.
  keyed(r) {
    const o = r.set ? new Set() : new Map();
    const objects = new Map();
    const key = (k) => {
      switch (k[0]) {
        case 'd': return doubleOfHex(k[1]);
        case 's': return k[1];
        case 't': return true;
        case 'f': return false;
        case 'n': return null;
        case 'u': return undefined;
        case 'o': if (!objects.has(k[1])) objects.set(k[1], { id: k[1] }); return objects.get(k[1]);
      }
      throw new Error('bad key');
    };
    const show = (k) => {
      switch (typeof k) {
        case 'number': return ['d', hexOfDouble(k)];
        case 'string': return ['s', k];
        case 'boolean': return [k ? 't' : 'f'];
        case 'undefined': return ['u'];
      }
      return k === null ? ['n'] : ['o', k.id];
    };
    const out = [];
    for (const [op, k, v] of r.ops) {
      let res = null;
      if (op === 'set') { if (r.set) o.add(key(k)); else o.set(key(k), v); }
      else if (op === 'del') res = o.delete(key(k));
      else if (op === 'has') res = o.has(key(k));
      else if (op === 'clear') o.clear();
      out.push([res, [...o].map((e) => (r.set ? show(e) : [show(e[0]), e[1]]))]);
    }
    return { out };
  },
  // Apply operations to real ArrayBuffers and views and report all their states.
  bufs(r) {
    const bufs = [];
    const views = [];
    const out = [];
    const num = (x) => (x[0] === 'i' ? bigint(x[1]) : x[0] === 'n' ? Number(x[1]) : doubleOfHex(x[1]));
    const show = (x) => (typeof x === 'bigint' ? x.toString() : hexOfDouble(x));
    const state = () => [
      bufs.map((b) => Buffer.from(new Uint8Array(b)).toString('hex')),
      views.map((v) => {
        if (v instanceof DataView) {
          try { return [v.byteOffset, v.byteLength, null]; } catch (e) { return [0, 0, null]; }
        }
        const els = [];
        for (let i = 0; i < v.length; i++) els.push(show(v[i]));
        return [v.byteOffset, v.byteLength, els];
      }),
    ];
    for (const op of r.ops) {
      let res = null;
      try {
        if (op[0] === 'buf') {
          const data = Buffer.from(op[1], 'hex');
          const b = op[2] === null ? new ArrayBuffer(data.length) : new ArrayBuffer(data.length, { maxByteLength: op[2] });
          new Uint8Array(b).set(data);
          bufs.push(b);
        } else if (op[0] === 'view') {
          const T = TypedArrays[op[2]];
          views.push(op[4] === null ? new T(bufs[op[1]], op[3]) : new T(bufs[op[1]], op[3], op[4]));
        } else if (op[0] === 'resize') {
          bufs[op[1]].resize(op[2]);
        } else if (op[0] === 'set') {
          if (op[2] < views[op[1]].length) views[op[1]][op[2]] = num(op[3]);
        } else if (op[0] === 'dvset') {
          views[op[1]]['set' + op[2]](op[3], num(op[4]), op[5]);
        } else if (op[0] === 'dvget') {
          res = show(views[op[1]]['get' + op[2]](op[3], op[4]));
        } else throw new Error('bad op');
      } catch (e) {
        if (!(e instanceof RangeError || e instanceof TypeError)) throw e;
        res = 'error';
      }
      out.push([res, state()]);
    }
    return { out };
  },
  match(r) {
    const out = [];
    for (const [src, flags, text] of r.cases) {
      try {
        const m = new RegExp(src, flags).exec(text);
        out.push(m === null ? null : [m.index, m[0].length]);
      } catch (e) { out.push('error'); }
    }
    return { out };
  },
};

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on('line', (line) => {
  let reply;
  try {
    const r = JSON.parse(line);
    reply = ops[r.op](r);
  } catch (e) {
    reply = { bridge_error: String(e && e.stack) };
  }
  process.stdout.write(JSON.stringify(reply) + '\n');
});
