// Stands in for the JavaScript glue wasm-bindgen would generate: runs the
// WebAssembly module and describes what parseString returns or throws.
// usage: node glue.js MODULE; requests on stdin: 'p' + u32 length + source
// (parse), 'n' (new instance) or 'h' (what does the instance hold?, answered by h); answers: kind byte + u32 length + text, kind
// being v (value), e (Error thrown), t (trap), s (out of
// stack), m (the glue cannot serve this).
'use strict';
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const dec = new TextDecoder('utf-8', { fatal: true, ignoreBOM: true });
const enc = new TextEncoder();

class Glue extends Error {}

function instance() {
  let ex;
  const heap = new Array(128).fill(undefined);
  heap.push(undefined, null, true, false);
  let next = heap.length;
  let held = 0;
  const get = (i) => heap[i];
  const add = (v) => {
    held++;
    if (next === heap.length) heap.push(heap.length + 1);
    const i = next;
    next = heap[i];
    heap[i] = v;
    return i;
  };
  const drop = (i) => {
    if (i < 132) return;
    held--;
    heap[i] = next;
    next = i;
  };
  const take = (i) => {
    const v = get(i);
    drop(i);
    return v;
  };
  const bytes = (p, n) => new Uint8Array(ex.memory.buffer, p >>> 0, n >>> 0);
  const str = (p, n) => dec.decode(bytes(p, n));
  const view = () => new DataView(ex.memory.buffer);
  const putStr = (s) => {
    const b = enc.encode(s);
    const p = ex.__wbindgen_malloc(b.length, 1) >>> 0;
    bytes(p, b.length).set(b);
    return [p, b.length];
  };
  const known = {
    __wbindgen_describe: () => {},
    __wbindgen_string_new: (p, n) => add(str(p, n)),
    __wbindgen_number_new: (x) => add(x),
    __wbindgen_bigint_from_i64: (x) => add(x),
    __wbindgen_bigint_from_u64: (x) => add(BigInt.asUintN(64, x)),
    __wbindgen_as_number: (i) => +get(i),
    __wbindgen_error_new: (p, n) => add(new Error(str(p, n))),
    __wbindgen_is_string: (i) => (typeof get(i) === 'string' ? 1 : 0),
    __wbindgen_is_undefined: (i) => (get(i) === undefined ? 1 : 0),
    __wbindgen_is_null: (i) => (get(i) === null ? 1 : 0),
    __wbindgen_is_object: (i) => (typeof get(i) === 'object' && get(i) !== null ? 1 : 0),
    __wbindgen_object_clone_ref: (i) => add(get(i)),
    __wbindgen_object_drop_ref: (i) => {
      take(i);
    },
    __wbindgen_throw: (p, n) => {
      throw new Error('thrown: ' + str(p, n));
    },
    __wbindgen_rethrow: (i) => {
      throw take(i);
    },
    __wbg_new_405e22f390576ce2: () => add(new Object()),
    __wbg_new_5e0be73521bc8c17: () => add(new Map()),
    __wbg_new_78feb108b6472713: () => add(new Array()),
    __wbg_set_37837023f3d740e8: (a, i, v) => {
      get(a)[i >>> 0] = take(v);
    },
    __wbg_set_3f1d0b984ed272ed: (o, k, v) => {
      get(o)[take(k)] = take(v);
    },
    __wbg_set_8fc6bf8a5b1071d1: (m, k, v) => add(get(m).set(get(k), get(v))),
    __wbg_push_737cfc8c1432c2c6: (a, v) => get(a).push(get(v)),
    __wbg_String_8f0eb39a4a4c2f66: (ret, v) => {
      const [p, n] = putStr(String(get(v)));
      view().setInt32(ret + 4, n, true);
      view().setInt32(ret, p, true);
    },
    __wbindgen_externref_table_grow: (n) => 0,
    __wbindgen_externref_table_set_null: (i) => {},
  };
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) {
    imports[i.module] = imports[i.module] || {};
    let f = known[i.name];
    if (!f && /^__wbg_(log|warn|error|info|debug)_/.test(i.name)) f = () => {};
    imports[i.module][i.name] =
      f ||
      (() => {
        throw new Glue('no stand-in for ' + i.name);
      });
  }
  ex = new WebAssembly.Instance(mod, imports).exports;
  // The value returned is (value, error, is_error), through a pointer.
  const ret = ex.__wbindgen_malloc(16, 4) >>> 0;
  return {
    // What the module has and holds: bytes of memory, objects.
    holds: () => ex.memory.buffer.byteLength + ' ' + held,
    parse(src) {
      const p = ex.__wbindgen_malloc(src.length, 1) >>> 0;
      bytes(p, src.length).set(src);
      ex.parseString(ret, p, src.length);
      const v = view();
      const [a, b, bad] = [v.getInt32(ret, true), v.getInt32(ret + 4, true), v.getInt32(ret + 8, true)];
      const r = bad ? ['e', take(b)] : ['v', take(a)];
      return r;
    },
  };
}

const f64 = new DataView(new ArrayBuffer(8));
function show(v, o) {
  if (v === undefined) o.push('undefined');
  else if (v === null) o.push('null');
  else if (typeof v === 'boolean') o.push(String(v));
  else if (typeof v === 'number') {
    f64.setFloat64(0, v);
    o.push('#' + f64.getBigUint64(0).toString(16));
  } else if (typeof v === 'string') o.push('"' + v + '"' + v.length);
  else if (Array.isArray(v)) {
    o.push('[');
    for (let i = 0; i < v.length; i++) {
      if (i) o.push(',\n');
      show(v[i], o);
    }
    o.push(']');
  } else if (v instanceof Map) {
    o.push('Map{');
    for (const [k, x] of v) {
      show(k, o);
      o.push('=>');
      show(x, o);
      o.push(';\n');
    }
    o.push('}');
  } else if (typeof v === 'object') {
    o.push('{');
    for (const k of Object.keys(v).sort()) {
      o.push(k + ':');
      show(v[k], o);
      o.push(';\n');
    }
    o.push('}');
  } else o.push(typeof v + ' ' + String(v));
  return o;
}

function read(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    let r;
    try {
      r = fs.readSync(0, b, k, n - k, null);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      if (e.code === 'EOF') r = 0;
      else throw e;
    }
    if (r === 0) process.exit(0);
    k += r;
  }
  return b;
}

function answer(kind, text) {
  const t = Buffer.from(text, 'utf8');
  const h = Buffer.alloc(5);
  h[0] = kind.charCodeAt(0);
  h.writeUInt32LE(t.length, 1);
  const b = Buffer.concat([h, t]);
  let k = 0;
  while (k < b.length) {
    try {
      k += fs.writeSync(1, b, k);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}

let inst = null;
for (;;) {
  const c = String.fromCharCode(read(1)[0]);
  if (c === 'n') {
    inst = null;
    continue;
  }
  if (c === 'h') {
    answer('h', inst ? inst.holds() : '0 0');
    continue;
  }
  const src = read(read(4).readUInt32LE(0));
  try {
    if (!inst) inst = instance();
    const [k, v] = inst.parse(src);
    if (k === 'e') answer('e', v instanceof Error ? v.message : 'not an Error: ' + show(v, []).join(''));
    else answer('v', show(v, []).join(''));
  } catch (e) {
    inst = null;
    if (e instanceof Glue) answer('m', e.message);
    else if (e instanceof RangeError) answer('s', String(e));
    else answer('t', String(e && e.stack || e));
  }
}
