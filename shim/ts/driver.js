"use strict";
// Performs operations in compiled generated TypeScript: one JSON object per
// line in, one per line out. The first line is the list of schema descriptions.
const path = require("path");
require("vue");
const Long = require("long").default;
const { Decimal } = require("decimal.js");
const readline = require("readline");

const D = {}; // data: name -> {cls, fields}
const E = {}; // enums: name -> {cls}
const S = {}; // servers: name -> {client, router, methods}
const M = {}; // modules by path

function mod(p) {
    if (!(p in M)) M[p] = require(path.join(__dirname, "js", p));
    return M[p];
}

class Odd extends Error {}

function ref(t, v) {
    if (v === null) return null;
    if (t.k === "enum") return E[t.n].cls.valueOf(Number(v));
    if (t.k === "data") return data(t.n, v);
    switch (t.k) {
    case "int64": return Long.fromString(v);
    case "uint64": return Long.fromString(v, true);
    case "bool": case "string": return v;
    case "date": return new Date(Number(v));
    case "decimal": return new Decimal(v);
    }
    return Number(v);
}

function val(t, v) {
    if (v === null) return null;
    if (t.c === "list") return v.map((x) => ref(t, x));
    if (t.c === "map") {
        const m = {};
        for (const [k, x] of v) m[k] = ref(t, x);
        return m;
    }
    return ref(t, v);
}

function data(n, v) {
    const o = new D[n].cls();
    for (const f of D[n].fields) {
        if (!(f.ts in o)) throw new Odd("member " + f.ts + " is missing from " + n);
        o[f.ts] = val(f.t, v[f.name]);
    }
    return o;
}

const odd = (why, x) => ({ "?": why + ": " + (x === undefined ? "undefined" : x === null ? "null" : Object.prototype.toString.call(x) + " " + String(x)) });

function unref(t, x) {
    if (x === null) return t.null ? null : odd("null where none is allowed", x);
    if (t.k === "enum") return x instanceof E[t.n].cls && E[t.n].cls.values.includes(x) ? String(x.value) : odd("not a value of the enum", x);
    if (t.k === "data") return undata(t.n, x);
    switch (t.k) {
    case "int64": case "uint64": return x instanceof Long ? x.toString() : odd("not a Long", x);
    case "bool": return typeof x === "boolean" ? x : odd("not a boolean", x);
    case "string": return typeof x === "string" ? x : odd("not a string", x);
    case "date": return x instanceof Date ? String(x.getTime()) : odd("not a Date", x);
    case "decimal": return x instanceof Decimal ? x.toFixed() : odd("not a Decimal", x);
    case "float": case "double": return typeof x === "number" ? String(x) : odd("not a number", x);
    }
    return typeof x === "number" && Number.isInteger(x) ? String(x) : odd("not an integer", x);
}

function unval(t, x) {
    if (t.c === "") return unref(t, x);
    if (x === null) return t.cnull ? null : odd("null where none is allowed", x);
    if (t.c === "list") return Array.isArray(x) ? x.map((e) => unref(t, e)) : odd("not an array", x);
    if (typeof x !== "object" || Array.isArray(x)) return odd("not a record", x);
    return Object.keys(x).sort().map((k) => [k, unref(t, x[k])]);
}

function undata(n, x) {
    if (!(x instanceof D[n].cls)) return odd("not a " + n, x);
    const o = {};
    const known = {};
    for (const f of D[n].fields) {
        o[f.name] = unval(f.t, x[f.ts]);
        known[f.ts] = true;
    }
    for (const k of Object.keys(x)) if (!known[k]) o["?" + k] = "unknown member";
    return o;
}

// spoil changes everything that can be changed in x.
function spoil(t, x, seen) {
    if (x === null || x === undefined) return 0;
    let n = 0;
    const one = (e) => {
        if (e === null || e === undefined) return 0;
        if (t.k === "date") { e.setTime(e.getTime() + 12345); return 1; }
        if (t.k === "data") return spoilData(t.n, e, seen);
        return 0;
    };
    if (t.c === "list") {
        for (const e of x) n += one(e);
        x.push(null);
        x.reverse();
        return n + 1;
    }
    if (t.c === "map") {
        for (const k of Object.keys(x)) { n += one(x[k]); delete x[k]; }
        x["zz"] = null;
        return n + 1;
    }
    return one(x);
}

function spoilData(n, x, seen) {
    if (seen.has(x)) return 0;
    seen.add(x);
    let c = 1;
    for (const f of D[n].fields) {
        c += spoil(f.t, x[f.ts], seen);
        x[f.ts] = undefined;
    }
    return c;
}

class Transport {
    constructor() { this.routes = {}; this.log = []; }
    add(r) {
        const m = r.getInvoke();
        for (const k of Object.keys(m)) this.routes[r.getName() + "/" + k] = m[k];
    }
    async invoke(server, name, id, param, fromJson, fromData) {
        name = server + "/" + name;
        this.log.push(name);
        const i = this.routes[name];
        if (!i) throw new Error("no route " + name);
        const sent = JSON.parse(JSON.stringify(param.toJson()));
        const ret = await i.invoke(i.formData(sent), { ctx: 1 });
        if (!fromJson) return undefined;
        return fromJson(JSON.parse(JSON.stringify(i.toData(ret))));
    }
}

const stations = {}; // the routers of some servers, kept from request to request

const ops = {
    json(o) {
        const x = data(o.t, o.v);
        const text = JSON.stringify(x.toJson());
        const same = undata(o.t, x);
        const back = D[o.t].cls.fromJson(JSON.parse(text));
        return { text, same, back: undata(o.t, back) };
    },
    parse(o) {
        const x = D[o.t].cls.fromJson(JSON.parse(o.text));
        return { v: undata(o.t, x), text: JSON.stringify(x.toJson()) };
    },
    inventory(o) {
        const x = data(o.t, o.v);
        const fns = [];
        for (let p = D[o.t].cls.prototype; p && p !== Object.prototype; p = Object.getPrototypeOf(p)) for (const k of Object.getOwnPropertyNames(p)) if (k !== "constructor" && !fns.includes(k)) fns.push(k);
        return { keys: Object.keys(new D[o.t].cls()), text: JSON.stringify(x.toJson()), fns };
    },
    asbase(o) { // a value of the child where the base is expected, and its document read as the base
        const x = data(o.t, o.v);
        const pick = (y) => { const z = new D[o.base].cls(); for (const f of D[o.base].fields) z[f.ts] = y[f.ts]; return z; };
        return { base: undata(o.base, pick(x)), parsed: undata(o.base, D[o.base].cls.fromJson(JSON.parse(JSON.stringify(x.toJson())))) };
    },
    client(o) {
        const s = S[o.t], c = Object.getOwnPropertyNames(s.client.prototype).filter((k) => !["constructor", "name", "id"].includes(k));
        return { methods: c };
    },
    zero(o) {
        const x = new D[o.t].cls();
        return { v: undata(o.t, x), text: JSON.stringify(x.toJson()), empty: undata(o.t, D[o.t].cls.fromJson({})) };
    },
    clone(o) {
        const x = data(o.t, o.v), c = x.clone();
        const r = { at: undata(o.t, c), own: c !== x, cls: c.constructor === D[o.t].cls, text: JSON.stringify(c.toJson()), first: JSON.stringify(x.toJson()) };
        r.changes = spoilData(o.t, c, new Set());
        r.orig = undata(o.t, x);
        const y = data(o.t, o.v), e = y.clone();
        spoilData(o.t, y, new Set());
        r.copy = undata(o.t, e);
        return r;
    },
    enum(o) {
        const c = E[o.t].cls;
        const look = (f, x) => {
            try {
                const v = f.call(c, x);
                return { value: v.value, name: v.name, same: c.values.includes(v) };
            } catch (e) { return { none: typeof e === "string" ? e : String(e && e.message) }; }
        };
        const consts = {};
        for (const k of Object.getOwnPropertyNames(c)) if (c[k] instanceof c) consts[k] = [c[k].value, c[k].name];
        return {
            consts, list: c.values.map((v) => [v.value, v.name]),
            values: (o.nums || []).map((n) => look(c.valueOf, n)), names: (o.texts || []).map((n) => look(c.nameOf, n)),
            texts: c.values.map((v) => v.toString()),
        };
    },
    verify(o) {
        const m = mod(o.mod);
        const f = m[o.fn];
        if (typeof f !== "function") return { missing: true };
        const got = [];
        const x = val(o.type, o.v);
        const before = JSON.stringify(unval(o.type, x));
        f({ t: (s) => "T(" + s + ")" })({}, x, (e) => { got.push(e === undefined ? null : e instanceof Error ? e.message : String(e)); });
        return { got, kept: JSON.stringify(unval(o.type, x)) === before };
    },
    lang(o) {
        const t = {}, m = mod(o.mod);
        for (const k of Object.keys(m)) t[k] = m[k];
        return { tables: t };
    },
    exports(o) { return { names: Object.keys(mod(o.mod)) }; },
    async calls(o) {
        const tr = new Transport(), log = [];
        const impls = {};
        for (const n of o.servers) {
            const s = S[n], impl = {};
            for (const m of s.methods) {
                impl[m.ts] = async (p, ctx) => {
                    const e = { server: n, method: m.name, arg: undata(m.param, p), ctx: !!(ctx && ctx.ctx) };
                    log.push(e);
                    const a = impl.answer;
                    if (a && a.err) throw new Error(a.err);
                    return m.result ? data(m.result, a.v) : undefined;
                };
            }
            impls[n] = impl;
            tr.add(new s.router(impl));
        }
        const out = [];
        for (const c of o.calls) {
            const s = S[c.server], m = s.methods.find((x) => x.name === c.method);
            const cl = new s.client(tr);
            for (const n of o.servers) impls[n].answer = c.answer;
            log.length = 0; tr.log.length = 0;
            const e = {};
            try {
                const r = await cl[m.ts](data(m.param, c.v));
                e.ret = m.result ? undata(m.result, r) : r === undefined || r === null ? null : odd("a result of a method without one", r);
            } catch (x) { e.err = String(x && x.message); }
            e.log = JSON.parse(JSON.stringify(log));
            e.sent = tr.log.slice();
            e.name = cl.name;
            out.push(e);
        }
        return { out, routes: Object.keys(tr.routes) };
    },
    async send(o) {
        const s = S[o.t], m = s.methods.find((x) => x.name === o.method), e = {};
        const cl = new s.client({
            invoke: async (server, name, id, param, fromJson, fromData) => {
                e.path = server + "/" + name;
                e.body = JSON.stringify(param.toJson());
                if (o.reply === null) throw new Error("no reply");
                return fromJson ? fromJson(JSON.parse(o.reply)) : undefined;
            },
        });
        try {
            const r = await cl[m.ts](data(m.param, o.v));
            e.ret = m.result ? undata(m.result, r) : r === undefined || r === null ? null : odd("a result of a method without one", r);
        } catch (x) { e.err = String(x && x.message); }
        return e;
    },
    async serve(o) { // the same routers serve all requests
        const key = o.servers.join("\n");
        if (!stations[key]) {
            const st = stations[key] = { tr: new Transport(), log: [], answer: null };
            for (const n of o.servers) {
                const s = S[n], impl = {};
                for (const m of s.methods) {
                    impl[m.ts] = async (p, ctx) => {
                        st.log.push({ server: n, method: m.name, arg: undata(m.param, p), ctx: ctx === st.ctx });
                        return m.result && st.answer !== null ? data(m.result, st.answer) : undefined;
                    };
                }
                st.tr.add(new s.router(impl));
            }
        }
        const st = stations[key], tr = st.tr, log = [];
        st.log = log;
        st.answer = o.answer;
        const i = tr.routes[o.path], e = { log };
        if (!i) return { none: o.path };
        try {
            const r = await i.invoke(i.formData(JSON.parse(o.body)), st.ctx = { call: o.path });
            e.reply = r === undefined || r === null ? null : JSON.stringify(i.toData(r));
        } catch (x) { e.err = String(x && x.message); }
        return e;
    },
    routes(o) {
        const s = S[o.t];
        const sent = [];
        const cl = new s.client({ invoke: async (server, name) => { sent.push(server + "/" + name); return undefined; } });
        const e = {};
        const got = {};
        const impl = {};
        for (const m of s.methods) impl[m.ts] = async () => { e.m = m.name; };
        const r = new s.router(impl);
        const p = [];
        for (const m of s.methods) {
            const at = sent.length;
            cl[m.ts](new D[m.param].cls());
            got[m.name] = sent.slice(at);
        }
        const reach = {};
        const inv = r.getInvoke();
        for (const k of Object.keys(inv)) {
            e.m = null;
            inv[k].invoke(inv[k].formData({}));
            reach[r.getName() + "/" + k] = e.m === null ? [] : [e.m];
        }
        return { sent: got, reach, server: r.getName(), client: cl.name };
    },
    render(o) {
        const c = mod(o.mod)[o.comp];
        if (!c) return { missing: true };
        const log = [];
        const model = data(o.t, o.v);
        const ctx = {
            model, $t: (s) => "T(" + s + ")", $slots: {}, position: o.position, hide: o.hide,
            $timeToLocal: (x) => x, $timeToUtc: (x) => x, $datePackerShortcuts: () => [],
            $fd: (x, f) => "FD(" + (x instanceof Date ? x.getTime() : String(x)) + "," + f + ")",
        };
        for (const k of o.slots || []) ctx.$slots[k] = () => ({ type: "slot", props: { key: k }, children: [] });
        const show = (x) => {
            if (x === null || x === undefined) return null;
            if (Array.isArray(x)) return x.map(show);
            if (typeof x === "function") return "()";
            if (typeof x === "object" && !("type" in x) && Object.values(x).some((y) => typeof y === "function")) {
                const o = {};
                for (const k of Object.keys(x)) { try { o[k] = show(x[k]()); } catch (e) { o[k] = { threw: String(e && e.message) }; } }
                return { slots: o };
            }
            if (typeof x === "object" && "type" in x && "children" in x) {
                const props = {};
                for (const k of Object.keys(x.props)) props[k] = typeof x.props[k] === "function" ? "()" : held(k, x.props[k]);
                return { type: typeof x.type === "string" ? x.type : "?", props, children: x.children.map(show) };
            }
            return prop(x);
        };
        // what an input holds, as a value of the member it stands for
        let cur = null;
        const held = (k, x) => cur && (k === "v-model" || k === "modelValue" && typeof x !== "string") ? { v: unval(cur.t, x === undefined ? null : x) } : prop(x);
        const item = (x, y) => {
            cur = x && x.props && D[o.t].fields.find((y) => y.ts === x.props.prop) || null;
            const r = show(y);
            cur = null;
            return r;
        };
        const prop = (x) => {
            for (const n in E) if (x instanceof E[n].cls) return { enum: x.value };
            if (x instanceof Long || x instanceof Decimal) return { num: x.toString() };
            if (x instanceof Date) return { date: x.getTime() };
            if (Array.isArray(x)) return x.map(prop);
            if (x && typeof x === "object") { const r = {}; for (const k of Object.keys(x)) r[k] = typeof x[k] === "function" ? "()" : prop(x[k]); return r; }
            return x === undefined ? null : x;
        };
        const draw = c.setup({ size: "small", ...ctx });
        const list = draw(ctx);
        const r = { name: c.name, items: list.map((x) => item(x, x)) };
        // the cells of table columns
        if (o.row) {
            const row = data(o.t, o.row);
            r.cells = list.map((x) => {
                const s = x.children && x.children[0];
                if (!s || typeof s.default !== "function") return null;
                try { return item(x, s.default({ row })); } catch (e) { return { threw: String(e && e.message) }; }
            });
        }
        r.drawn = undata(o.t, model);
        // what entering texts and dates does
        r.entered = (o.enter || []).map(([at, text]) => {
            const find = (x) => {
                if (Array.isArray(x)) { for (const y of x) { const z = find(y); if (z) return z; } return null; }
                if (!x || typeof x !== "object" || !x.props) return null;
                if (x.props["onUpdate:modelValue"]) return x.props["onUpdate:modelValue"];
                return find(x.children);
            };
            const f = find(list.find((x) => x.props && x.props.prop === at));
            if (!f) return { none: true };
            const fd = D[o.t].fields.find((y) => y.ts === at);
            const read = (x) => x && typeof x === "object" && "date" in x ? new Date(x.date) : Array.isArray(x) ? x.map(read) : x;
            const before = undata(o.t, model);
            try { f(read(text)); } catch (e) { return { threw: String(e && e.message) }; }
            const after = undata(o.t, model), others = Object.keys(after).filter((k) => k !== fd.name && JSON.stringify(after[k]) !== JSON.stringify(before[k]));
            return { v: after[fd.name], others };
        });
        return r;
    },
};

let first = true;
let chain = Promise.resolve();
readline.createInterface({ input: process.stdin }).on("line", (l) => {
    if (first) {
        first = false;
        for (const s of JSON.parse(l)) {
            for (const d of s.data) D[d.n] = { get cls() { return mod(d.mod)[d.cls]; }, fields: d.fields };
            for (const e of s.enums) E[e.n] = { get cls() { return mod(e.mod)[e.cls]; } };
            for (const v of s.servers) S[v.n] = { get client() { return mod(v.mod)[v.cls + "Client"]; }, get router() { return mod(v.mod)[v.cls + "Router"]; }, methods: v.methods };
        }
        return;
    }
    chain = chain.then(async () => {
        const o = JSON.parse(l);
        let r;
        try { r = await ops[o.op](o); } catch (e) {
            r = e instanceof Odd ? { misfit: e.message } : { panic: typeof e === "string" ? e : String(e && e.message), stack: String(e && e.stack) };
        }
        process.stdout.write(JSON.stringify(r) + "\n");
    });
});
