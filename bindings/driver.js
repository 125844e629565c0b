// Runs scenarios against the repository's Node bindings.
// node --expose-gc driver.js <the addon> <the repository's index.js>
// Each line read is a scenario {"ops": [...]}; each line written is {"results": [...]}.
'use strict';
const fs = require('fs');
const readline = require('readline');

const native = {exports: {}};
process.dlopen(native, process.argv[2]);
const addon = native.exports;
const verifLive = addon.verifLive;
delete addon.verifLive;
const module_ = {exports: {}};
new Function('require', 'module', 'exports', fs.readFileSync(process.argv[3], 'utf8'))(
    (what) => { if (what === './native') return addon; throw new Error('no ' + what + ' here'); },
    module_, module_.exports);
const lib = module_.exports;

let handles = new Map();

// ----- values

function decode(v) {
    if (Array.isArray(v)) return v.map(decode);
    if (v === null || typeof v !== 'object') return v;
    if ('$' in v) {
        switch (v.$) {
            case 'undefined': return undefined;
            case 'nan': return NaN;
            case 'inf': return Infinity;
            case '-inf': return -Infinity;
            case '-0': return -0;
            case 'handle': return handles.get(v.h);
            case 'buffer': return new Uint8Array(v.bytes).buffer;
            case 'words': return new Uint32Array(v.words).buffer;
            case 'typed': return new Uint32Array(v.words);
            case 'function': return () => {};
            case 'symbol': return Symbol('s');
            case 'bigint': return BigInt(v.v);
            case 'date': return new Date(0);
            case 'sparse': return new Array(v.n);
            case 'throwing': return new Proxy({}, {
                get() { throw new Error('thrown by a getter'); },
                ownKeys() { throw new Error('thrown by a proxy'); },
            });
            // an array or object whose content is reached only through getters
            case 'getters': {
                const of = decode(v.of), out = Array.isArray(of) ? new Array(of.length) : {};
                for (const k of Object.keys(of)) {
                    Object.defineProperty(out, k, {enumerable: true, configurable: true, get: () => of[k]});
                }
                return out;
            }
        }
        throw new Error('unknown value ' + JSON.stringify(v));
    }
    const out = {};
    for (const k of Object.keys(v)) out[k] = decode(v[k]);
    return out;
}
const bits = new DataView(new ArrayBuffer(8));
function encode(v) {
    if (v === undefined) return {$: 'undefined'};
    if (v === null || typeof v === 'boolean' || typeof v === 'string') return v;
    if (typeof v === 'number') {
        if (Number.isSafeInteger(v) && !Object.is(v, -0)) return v;
        bits.setFloat64(0, v);
        return {$: 'f', b: bits.getBigUint64(0).toString(16)};
    }
    if (Array.isArray(v)) return v.map(encode);
    if (v instanceof ArrayBuffer) return {$: 'buffer', bytes: Array.from(new Uint8Array(v))};
    if (v instanceof Error) return {$: 'error', message: v.message};
    if (typeof v === 'object') {
        const out = {};
        for (const k of Object.keys(v)) out[k] = encode(v[k]);
        return out;
    }
    return {$: typeof v};
}
function attempt(f) {
    try {
        return {value: encode(f())};
    } catch (e) {
        return {threw: e instanceof Error ? e.message : String(e)};
    }
}

// ----- operations

const tick = () => new Promise((done) => setImmediate(done));
/// Make everything a question was made of unusable.
function spoil(v, seen) {
    if (v === null || typeof v !== 'object' || seen.has(v)) return;
    seen.add(v);
    if (!Array.isArray(v) && Object.getPrototypeOf(v) !== Object.prototype) return;
    for (const k of Object.keys(v)) {
        spoil(v[k], seen);
        try { v[k] = null; } catch (e) { /* only a getter */ }
    }
    if (Array.isArray(v)) v.length = 0;
}
function ask(op) {
    let args;
    return new Promise((done) => {
        const out = {calls: 0};
        const callback = function (err, value) {
            out.calls++;
            out.args = arguments.length;
            out.err = encode(err);
            out.value = encode(value);
            if (out.calls === 1) tick().then(tick).then(() => done(out));
        };
        try {
            args = op.args.map(decode);
            if (!op.nocallback) args.push(callback);
            out.returned = encode(lib[op.f](...args));
            out.early = out.calls;
            if (op.spoil) spoil(args, new Set());
            if (op.forget) { handles = new Map(); args = null; global.gc(); }
        } catch (e) {
            out.threw = e instanceof Error ? e.message : String(e);
            // it must not be called any more
            tick().then(tick).then(() => done(out));
        }
    });
}
/// What is in use once everything that can be is collected: databases, values, iterators, bytes.
async function collect() {
    let live;
    for (let i = 0; i < 20; i++) {
        global.gc();
        await tick();
        await tick();
        const before = live;
        live = verifLive();
        if (i >= 2 && live[0] + live[1] + live[2] === 0 && live[3] >= before[3]) break;
    }
    return live;
}
async function run(op) {
    switch (op.op) {
        case 'new': return attempt(() => { handles.set(op.as, new lib[op.class](...op.args.map(decode))); });
        case 'call': return attempt(() => handles.get(op.on)[op.m](...op.args.map(decode)));
        case 'many': return attempt(() => {
            let all = 0;
            for (let i = 0; i < op.n; i++) all = (all * 31 + handles.get(op.on).insert(['w', String(i)])) % 1000003;
            return all;
        });
        case 'fn': return attempt(() => lib[op.f](...op.args.map(decode)));
        case 'ask': return ask(op);
        case 'together': return {all: await Promise.all(op.asks.map(ask))};
        case 'keys': return attempt(() => {
            const out = [];
            for (const k of handles.get(op.on).keys()) out.push(k);
            return out;
        });
        case 'iterate': return attempt(() => { handles.set(op.as, handles.get(op.on).keys()[Symbol.iterator]()); });
        case 'next': return attempt(() => {
            const out = [];
            for (let i = 0; i < op.n; i++) out.push(handles.get(op.on).next());
            return out;
        });
        case 'over': {
            for (let i = 0; i < op.n; i++) {
                handles = new Map();
                for (const o of op.ops) await run(o);
                if (i % 8 === 7) await collect();
            }
            handles = new Map();
            return {live: await collect()};
        }
        case 'drop': handles.delete(op.h); return {};
        case 'gc': global.gc(); await tick(); global.gc(); return {};
        case 'const': return {value: encode(lib[op.name])};
    }
    throw new Error('unknown operation ' + op.op);
}

async function main() {
    for await (const line of readline.createInterface({input: process.stdin})) {
        const scenario = JSON.parse(line);
        handles = new Map();
        const results = [];
        for (const op of scenario.ops) results.push(await run(op));
        handles = new Map();
        fs.writeSync(1, JSON.stringify({results}) + '\n');
    }
}
main().catch((e) => { console.error(e); process.exit(3); });
